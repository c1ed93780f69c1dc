"""Emulated device for the patch checks: memory that knows what was freed, and a
stand-in for the kernel that reads everything it uses (pixels, metadata,
proposal) through the pointers in the patch struct, as the compiled kernel does
(whose own arithmetic C01-C03 decide).  Its pixel model is linear:
flux * G * sum(psf amp * mixture amp) * (1 + linear in pixel - source position)."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

import numpy as np

from . import fmodel as F
from . import h5fake
from .wcsstub import Affine, sub

import forcepho.patches.device_patch as DP
import forcepho.patches.patch as PA
import forcepho.patches.pixel_patch as PP
import forcepho.patches.storage as ST
import forcepho.proposal as FP
import forcepho.superscene as SS

STUBS = {("forcepho.patches.storage", "h5py"): h5fake.h5py}
MATS = [[[-8.0, 1.0], [2.0, 4.0]], [[4.0, 0.5], [0.0, -2.0]], [[1.0, 3.0], [-5.0, 0.25]]]
PDT = np.dtype([(c, np.float64) for c in ST.PSF_COLS] + [("sersic_bin", np.int32)])
SLOPE = (0.015625, -0.03125)


class FreedMemory(AssertionError):
    pass


class Alloc:
    def __init__(self, dev, arr):
        self.dev, self.arr, self.live = dev, arr, True
        self.addr = dev.next
        dev.next += 4096
        dev.mem[self.addr] = self

    def __int__(self):
        return self.addr

    __index__ = __int__

    def __bool__(self):
        return True

    def free(self):
        if not self.live:
            raise FreedMemory("double free on the device")
        self.live = False


class Cuda:
    """the part of pycuda.driver the patches use"""

    def __init__(self, I):
        self.I, self.mem, self.next = I, {}, 1 << 20
        self.struct = {}

    def to_device(self, arr):
        a = Alloc(self, np.array(arr, copy=True) if isinstance(arr, np.ndarray) else arr.copy())
        return a

    def mem_alloc(self, n):
        a = Alloc(self, None)
        a.nbytes = n
        return a

    def from_device(self, ptr, shape=None, dtype=None):
        if not ptr.live:
            raise FreedMemory("read of freed device memory")
        return np.array(ptr.arr, copy=True).reshape(shape)

    def at(self, addr):
        m = self.mem[int(addr)]
        if not m.live:
            raise FreedMemory("kernel reads freed device memory")
        return m


class Kernel:
    def __init__(self, I, patch, cuda=None):
        self.I, self.patch, self.cuda, self.proposer = I, patch, cuda, None
        self.calls = 0

    def struct(self, ptr):
        if self.cuda is not None:
            return self.cuda.at(ptr).arr
        p = self.patch.patch_struct
        a = p.__array_interface__["data"][0]
        if int(ptr) != a:
            raise AssertionError("the kernel is given another patch struct")
        return p

    def array(self, st, name):
        if self.cuda is not None:
            return self.cuda.at(st[name])
        a = F.find_array(int(st[name]), self.patch)
        if a is None:
            raise AssertionError("dangling pointer to " + name)
        return a

    def get(self, st, name):
        a = self.array(st, name)
        return a.arr if isinstance(a, Alloc) else a

    def __call__(self, band, patch_ptr, prop):
        self.calls += 1
        band = int(band)
        st = self.struct(patch_ptr)
        n = int(st["n_sources"])
        if isinstance(prop, list):
            props = prop
        else:
            props = F.read_proposal(prop, n, self.I.symbolic, self.proposer)
        g = lambda k: self.get(st, k)
        data, xp, yp = g("data"), g("xpix"), g("ypix")
        res = self.array(st, "residual")
        CW, crpix, crval, G = g("CW"), g("crpix"), g("crval"), g("G")
        CW = np.asarray(CW).reshape(-1, n, 2, 2)
        crpix, crval = np.asarray(crpix).reshape(-1, n, 2), np.asarray(crval).reshape(-1, n, 2)
        e0, ne = int(g("band_start")[band]), int(g("band_N")[band])
        npsf = int(g("n_psf_per_source")[band])
        pg = g("psfgauss")
        if isinstance(res, Alloc):
            if res.arr is None:
                res.arr = self.I.array([0.0] * len(data))
            out = res.arr
        else:
            out = res
        for e in range(e0, e0 + ne):
            i0, m = int(g("exposure_start")[e]), int(g("exposure_N")[e])
            src = []
            for s in range(n):
                p = props[s]
                dx, dy = p["ra"] - crval[e, s, 0], p["dec"] - crval[e, s, 1]
                x = CW[e, s, 0, 0] * dx + CW[e, s, 0, 1] * dy + crpix[e, s, 0]
                y = CW[e, s, 1, 0] * dx + CW[e, s, 1, 1] * dy + crpix[e, s, 1]
                amp = 0.0
                for k in range(npsf):
                    q = pg[int(g("psfgauss_start")[e]) + s * npsf + k]
                    amp = amp + q["amp"] * p["mixture_amplitudes"][int(q["sersic_bin"])]
                src.append((x, y, amp * G[e] * p["fluxes"][band]))
            for j in range(i0, i0 + m):
                v = data[j]
                for x, y, a in src:
                    v = v - a * (1 + SLOPE[0] * (xp[j] - x) + SLOPE[1] * (yp[j] - y))
                out[j] = v
        r = F.Ret()
        r.chi2 = 0.0
        r.dchi2_dp = self.I.array([0.0] * (F.MAXSOURCES * F.NPARAMS))
        return r


class GPUProposer(FP.GPUProposer):
    """launches the emulated kernel, one block per band"""

    def __init__(self, kernel):
        self.kernel = kernel

    def evaluate_proposal(self, proposal, patch=None, verbose=False, unpack=True):
        n = int(patch.n_sources)
        props = [{f: (list(proposal[f][s]) if np.ndim(proposal[f][s]) else proposal[f][s]) for f in proposal.dtype.names} for s in range(n)]
        for b in range(patch.n_bands):
            self.kernel(b, int(patch.device_patch), props)
        if patch.return_residual:
            r = patch.retrieve_array("residual")
            return np.zeros(patch.n_bands), None, (self.unpack_residuals(r, patch) if unpack else r)
        return np.zeros(patch.n_bands), None


# mixture amplitudes in the stand-in spline tables, by name
SPLINES = {"std": 1.0, "large": 0.5}


class RGalaxy(F.FlatGalaxy):
    """two-component mixtures"""
    amplitudes = property(lambda self: np.full(len(self.radii), SPLINES.get(self.table, 1.0)))

    def __init__(self, *a, **k):
        self.table = k.get("splinedata")
        k["splinedata"] = None
        k.pop("spline_smoothing", None)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            F.FS.Galaxy.__init__(self, *a, **k)
        self.radii = np.array([0.25, 0.5])
        self.sersic_range, self.rh_range = (0.5, 6.0), (0.01, 5.0)


def psf_amp(b, k):
    return 0.5 + 0.25 * b + 0.125 * k


@contextlib.contextmanager
def psfstore(I, bands, npsf):
    def fill(h5, name):
        with h5.File(name, "w") as f:
            for b, band in enumerate(bands):
                a = np.zeros((1, npsf[b]), dtype=PDT)
                for k in range(npsf[b]):
                    a["amp"][0, k] = psf_amp(b, k)
                    a["Cxx"][0, k] = a["Cyy"][0, k] = 1.0
                    a["sersic_bin"][0, k] = k % 2
                g = f.create_group(band)
                g.create_dataset("parameters", data=a)
                g.attrs["n_psf_per_source"] = npsf[b]
    if I.symbolic:
        h5fake.FILES.pop("psf", None)
        fill(h5fake.h5py, "psf")
        yield "psf"
        return
    import h5py
    d = tempfile.mkdtemp(prefix="vf-dev-")
    try:
        fill(h5py, os.path.join(d, "psf.h5"))
        yield os.path.join(d, "psf.h5")
    finally:
        shutil.rmtree(d, ignore_errors=True)


class World:
    """a patch with pixel data, its WCSs and the reference model of a catalog"""

    def __init__(self, I, dev, exps, bands, npsf, name, sym_ierr=False, free_data=True):
        """exps: [(id, band, npix)]"""
        self.I, self.bands, self.exps, self.npsf = I, bands, exps, npsf
        pix, hdr, self.W = {}, {}, {}
        self.x = {}
        for n, (e, b, m) in enumerate(exps):
            xs, ys = np.array([3.0 * k + n for k in range(m)]), np.array([1.0 + 2 * k - n for k in range(m)])
            pix[e] = dict(flux=I.reals("d_%s_" % e, m, -9, 9) if free_data else np.zeros(m),
                          ierr=I.reals("w_%s_" % e, m, 0, 4) if sym_ierr else np.ones(m), xpix=xs, ypix=ys)
            hdr[e] = {"FILTER": b, "ID": e}
            self.W[e] = Affine(MATS[n % 3], [10.0 + 0.25 * n, -5.0], [2.0 + n, 7.0])
        self.pix = {e: {k: list(v) for k, v in d.items()} for e, d in pix.items()}
        cls = type("TPatch", ((DP.GPUPatchMixin if dev == "gpu" else DP.CPUPatchMixin), PP.DirectPatch), {})
        with contextlib.redirect_stdout(io.StringIO()):
            self.p = cls(pixel_dict=pix, header_dict=hdr, psfstore=name, splinedata="std", pix_dtype=np.float64, meta_dtype=np.float64)
        self.dev = dev
        self.cuda = Cuda(I) if dev == "gpu" else None
        self.kernel = Kernel(I, self.p, self.cuda)
        if dev == "gpu":
            self.prop = GPUProposer(self.kernel)
        else:
            self.prop = F.make_proposer(self.kernel)
        self.p.get_proposer = lambda: self.prop

    @contextlib.contextmanager
    def running(self):
        items = [(PP, "WCS", lambda h: self.W[h["ID"]]), (PA, "Galaxy", RGalaxy), (PP, "Galaxy", RGalaxy)]
        had = hasattr(DP, "cuda")
        old = getattr(DP, "cuda", None)
        if self.cuda is not None:
            DP.cuda = self.cuda
        try:
            with sub(*items), contextlib.redirect_stdout(io.StringIO()):
                yield
        finally:
            self.p.device_ptrs = {}
            if had:
                DP.cuda = old
            elif hasattr(DP, "cuda"):
                del DP.cuda

    def build(self):
        self.p.build_patch(region=None, allbands=self.bands)
        self.order = [x for e in self.p.epaths for x in self.exps if x[0] == str(e)]
        self.used = [b for b in self.bands if any(x[1] == b for x in self.exps)]

    def model(self, row, e, k, unit=False, scale=1.0):
        """what one catalog row contributes to pixel k of exposure e"""
        x, y = self.W[e].world_to_pixel_values(row["ra"], row["dec"])
        b = {q[0]: q[1] for q in self.exps}[e]
        ib = self.bands.index(b)
        amp = sum(psf_amp(ib, j) for j in range(self.npsf[ib]))
        f = amp if unit else amp * row[b]
        f = f * scale
        d = self.pix[e]
        return f * (1 + SLOPE[0] * (d["xpix"][k] - x) + SLOPE[1] * (d["ypix"][k] - y))

    def data_minus(self, rows, scale=None):
        """flat, in packed order"""
        out = []
        for e, b, m in self.order:
            for k in range(m):
                v = self.pix[e]["flux"][k]
                for i, r in enumerate(rows):
                    v = v - self.model(r, e, k, scale=scale[i] if scale else 1.0)
                out.append(v)
        return out


def catalog(I, n, bands, tag, first=0, flux=(0.5, 4)):
    cat = I.zeros(n, SS.sourcecat_dtype(bands=list(bands)))
    for i in range(n):
        j = first + i
        cat["id"][i] = 100 + j
        cat["source_index"][i] = j
        cat["ra"][i] = 10.0 + 0.0625 * ((3 * j) % 7)
        cat["dec"][i] = -5.0 + 0.03125 * ((5 * j) % 11)
        cat["q"][i], cat["pa"][i], cat["sersic"][i], cat["rhalf"][i] = 0.75, 0.25, 2.0, 0.125
        for b in bands:
            lo, hi = flux if j % 2 == 0 else (-flux[1], -flux[0])
            cat[b][i] = I.real("%s%s_%d" % (tag, b, i), lo, hi)
    return cat
