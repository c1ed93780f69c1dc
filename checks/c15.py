"""C15 packing keeps pixels, exposures and bands aligned; bad pixels have no weight."""
import contextlib
import io
import itertools
import json
import os
import shutil
import tempfile
from types import SimpleNamespace as NS

import numpy as np

from vf.harness import Harness
from vf import h5fake
from vf.wcsstub import Affine, sub, Fits

import forcepho.patches.pixel_patch as PP
import forcepho.patches.storage as ST
import forcepho.patches.static_patch as SP
import forcepho.patches.patch as PA

STUBS = {("forcepho.patches.storage", "h5py"): h5fake.h5py}
TOL = dict(rtol=2e-6, atol=2e-6)
REL = 2e-6


def close(a, b):
    return np.abs(a - b) <= 1e-5


def bare(cls, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return cls(**kw)


class Sel:
    """region whose containment is a given set of cells"""

    def __init__(self, sel):
        self.sel = sel

    def contains(self, xc, yc, wcs):
        xc = np.asarray(xc)
        got = []
        for i, j in np.ndindex(*xc.shape[:2]):
            if (i, j) in self.sel:
                got.append((i, j))
        return tuple(np.array([g[k] for g in got], dtype=int) for k in (0, 1))


def h_fits(I, nx, ny, opt, bad, sel, warp):
    """FITSPatch.find_pixels: arrays in the file are [y, x]"""
    bad = dict(bad)
    p = bare(PP.FITSPatch, fitsfiles=["f"])
    if warp:
        p.warp_size = warp
    fl, er = {}, {}
    for x in range(nx):
        for y in range(ny):
            k = bad.get((x, y))
            fl[x, y] = np.nan if k == "nan" else (-np.inf if k == "inf" else I.real("f_%d_%d" % (x, y), 0.1, 5))
            if k == "neg":
                fl[x, y] = -fl[x, y]
            er[x, y] = {"nanerr": np.nan, "inferr": np.inf, "zeroerr": 0.0, "negerr": -0.5}.get(k)
            if er[x, y] is None:
                er[x, y] = I.real("e_%d_%d" % (x, y), 0.1, 5)
    unc = snr = None
    if opt == "unc":
        unc = p.unc = I.real("unc", 0.1, 5)
    elif opt == "snr":
        snr = p.snr = I.real("snr", 1, 50)
    grid = lambda d: I.array([[d[x, y] for x in range(nx)] for y in range(ny)])
    data = {("f", "SCI"): grid(fl)}
    if opt not in ("unc", "snr"):
        data["f", "ERR"] = grid(er)
    region = None if sel is None else Sel({tuple(s) for s in sel})
    wcs = Affine([[1.0, 0.0], [0.0, 1.0]], [0.0, 0.0], [0.0, 0.0])
    with sub((PP, "fits", Fits(data, {}))), np.errstate(all="ignore"):
        flux, ie, xp, yp = p.find_pixels("f", wcs, region)
    n = flux.size
    I.true(ie.size == n and xp.size == n and yp.size == n, "pixel arrays have equal length")
    w = warp or 64
    want = {(x, y) for x in range(nx) for y in range(ny)} if sel is None else {tuple(s) for s in sel}
    I.true(n % w == 0 and 0 <= n - len(want) < w, "exposure is padded to a multiple of the warp size")
    seen = {}
    flux, ie, xp, yp = (np.ravel(a) for a in (flux, ie, xp, yp))
    for k in range(n):
        c = (int(xp[k]), int(yp[k]))
        if c in want:
            I.true(c not in seen, "each pixel of the region is packed once")
            seen[c] = k
        else:
            I.eq(ie[k], 0.0, "padded pixels have no weight")
            I.true(np.isfinite(flux[k]), "packed values are finite")
            I.true(not (0 <= c[0] < nx and 0 <= c[1] < ny), "pixels outside the region are not packed")
    I.true(set(seen) == want, "every pixel of the region is packed")
    for (x, y), k in seen.items():
        b = bad.get((x, y))
        isbad = b in ("nan", "inf") or (opt == "snr" and b == "neg") or (opt == "err" and b in ("nanerr", "inferr", "zeroerr", "negerr") and b != "inferr")
        if isbad:
            I.eq(ie[k], 0.0, "non-finite or negative-error pixel has no weight")
            I.true(np.isfinite(flux[k]), "packed values are finite")
            continue
        if opt == "err" and b == "inferr":
            I.eq(ie[k], 0.0, "infinite error means no weight")
            continue
        I.eq(flux[k], fl[x, y], "pixel keeps its own data", **TOL)
        e = 1.0 / unc if opt == "unc" else (snr / fl[x, y] if opt == "snr" else 1.0 / er[x, y])
        I.eq(ie[k], e, "pixel keeps the reciprocal of its own error", **TOL)


@contextlib.contextmanager
def pixelstore(I, nx, ny, s):
    with contextlib.redirect_stdout(io.StringIO()):
        if I.symbolic:
            h5fake.FILES.clear()
            yield ST.PixelStore("store", nside_full=[nx, ny], super_pixel_size=s, pix_dtype=np.float64)
            return
        d = tempfile.mkdtemp(prefix="vf-c15-")
        try:
            p = ST.PixelStore(os.path.join(d, "s.h5"), nside_full=[nx, ny], super_pixel_size=s, pix_dtype=np.float64)
            yield p
            p.close()
        finally:
            shutil.rmtree(d, ignore_errors=True)


def h_store(I, nx, ny, s, sel):
    """StorePatch.find_pixels returns whole superpixels with their own data"""
    with pixelstore(I, nx, ny, s) as ps:
        v = {}
        for e in ("e1", "e2"):
            im = I.array([[I.real("%sd_%d_%d" % (e, x, y), -5, 5) for y in range(ny)] for x in range(nx)])
            ie = I.array([[I.real("%si_%d_%d" % (e, x, y), 0.1, 5) for y in range(ny)] for x in range(nx)])
            for x in range(nx):
                for y in range(ny):
                    v[e, x, y] = im[x, y], ie[x, y]
            ps.add_exposure(ST.ImageSet(im=im, ierr=ie, bkg=None, mask=None, hdr={}, band="F1", expID=e, names=None))
        p = PP.StorePatch.__new__(PP.StorePatch)
        p.pixelstore = ps
        p.pix_dtype = np.float64
        wcs = Affine([[1.0, 0.0], [0.0, 1.0]], [0.0, 0.0], [0.0, 0.0])
        for e in ("e2", "e1"):
            out = p.find_pixels("F1/" + e, wcs, Sel({tuple(c) for c in sel}))
            flux, ierr, xp, yp = (np.ravel(np.asarray(a)) for a in out)
            want = {(x, y) for x in range(nx) for y in range(ny) if (x // s, y // s) in {tuple(c) for c in sel}}
            I.true(len(flux) == len(want) == len(ierr) == len(xp) == len(yp), "all pixels of the selected superpixels and no others")
            I.true({(int(a), int(b)) for a, b in zip(xp, yp)} == want, "each selected pixel once")
            for k in range(len(flux)):
                d = v[e, int(xp[k]), int(yp[k])]
                I.eq(flux[k], d[0], "data of the pixel at its coordinates", **TOL)
                I.eq(ierr[k], d[1], "inverse error of the pixel at its coordinates", **TOL)


ALL = ["C", "A", "D", "B"]


def h_pack(I, exps, tweak, cap, dtype):
    """exps: [(name, band, npix)] in header order; DirectPatch -> build_patch"""
    dtype = getattr(np, dtype)
    pix, hdr = {}, {}
    for n, (e, b, npix) in enumerate(exps):
        pix[e] = dict(flux=I.reals("f_%s_" % e, npix, -5, 5), ierr=I.reals("i_%s_" % e, npix, 0, 5),
                      xpix=I.reals("x_%s_" % e, npix, 0, 50), ypix=I.reals("y_%s_" % e, npix, 0, 50))
        hdr[e] = {"FILTER": b, "ID": e}
        if n % 2 == 0:
            hdr[e]["BKG"] = I.real("b_%s" % e, -1, 1)
    w = {e: {k: list(d) for k, d in pix[e].items()} for e in pix}
    p = bare(PP.DirectPatch, pixel_dict=pix, header_dict=hdr, pix_dtype=dtype)
    if cap:
        p.max_snr = cap
    with sub((PP, "WCS", lambda h: ("wcs", h["ID"]))):
        if not cap:
            # an earlier use of the same patch leaves nothing behind
            p.build_patch(region=None, allbands=ALL, tweak_background=False if tweak else "BKG")
        p.build_patch(region=None, allbands=ALL, tweak_background="BKG" if tweak else False)
    order = [x for b in ALL for x in exps if x[1] == b]
    used = [b for b in ALL if any(x[1] == b for x in exps)]
    I.true([list(map(str, g)) for g in (p.epaths, p.bands)] == [[x[0] for x in sorted_like(order, p.epaths)], [x[1] for x in sorted_like(order, p.epaths)]]
           and sorted(map(str, p.epaths)) == sorted(x[0] for x in order), "every exposure in the listed bands is packed, with its own band")
    order = sorted_like(order, p.epaths)
    I.true([x[1] for x in order] == sorted((x[1] for x in order), key=ALL.index), "exposures are in band order")
    I.true([h["ID"] for h in p.hdrs] == [x[0] for x in order] and [q[1] for q in p.wcses] == [x[0] for x in order], "headers and WCSs belong to the exposures")
    I.true(list(p.bandlist) == used and p.n_bands == len(used) and p.n_exp == len(order), "band list is the bands with data, in order")
    # what the kernel sees: band -> exposures -> pixels
    tot = sum(x[2] for x in order)
    I.true(len(p.data) == tot and len(p.ierr) == tot and len(p.xpix) == tot and len(p.ypix) == tot and p.npix == tot, "pixel arrays hold all pixels")
    covered = []
    for b, band in enumerate(used):
        es = range(int(p.band_start[b]), int(p.band_start[b]) + int(p.band_N[b]))
        I.true([order[e][0] if e < len(order) else None for e in es] == [x[0] for x in order if x[1] == band], "the exposures of a band are exactly its own")
        I.true(int(p.n_exp_per_band[b]) == int(p.band_N[b]), "number of exposures per band")
        I.true(int(p.band_N_pix[b]) == sum(x[2] for x in order if x[1] == band), "number of pixels per band")
        for e in es:
            covered.append(e)
            check_exposure(I, p, e, order[e], w, hdr, cap, tweak)
    I.true(sorted(covered) == list(range(len(order))), "every exposure belongs to exactly one band")
    # splitting back
    for attr in ("data", "ierr", "xpix", "ypix"):
        full = getattr(p, attr)
        s = p.split_pix(attr)
        I.true(len(s) == len(order) and [len(a) for a in s] == [x[2] for x in order], "split_pix gives each exposure its pixels")
        k = 0
        for a in s:
            for q in a:
                I.eq(q, full[k], "split_pix keeps the order", **TOL)
                k += 1
        s = p.split_band(attr)
        I.true(len(s) == len(used) and [len(a) for a in s] == [sum(x[2] for x in order if x[1] == b) for b in used], "split_band gives each band its pixels")


def sorted_like(order, epaths):
    by = {x[0]: x for x in order}
    return [by.get(str(e), (None, None, 0)) for e in epaths]


def check_exposure(I, p, e, x, w, hdr, cap, tweak):
    name, band, n = x
    i0 = int(p.exposure_start[e])
    I.true(int(p.exposure_N[e]) == n, "number of pixels of the exposure")
    for k in range(n):
        f = w[name]["flux"][k]
        if tweak:
            f = f - hdr[name].get("BKG", 0.0)
        ie = w[name]["ierr"][k]
        I.eq(p.data[i0 + k], f, "pixel keeps its own (background-subtracted) data", **TOL)
        I.eq(p.xpix[i0 + k], w[name]["xpix"][k], "pixel keeps its own x", **TOL)
        I.eq(p.ypix[i0 + k], w[name]["ypix"][k], "pixel keeps its own y", **TOL)
        got = p.ierr[i0 + k]
        if not cap:
            I.eq(got, ie, "pixel keeps its own inverse error", **TOL)
            continue
        I.true(got <= ie + 1e-5, "the S/N cap only lowers weights")
        I.true(got * f <= cap + 1e-4, "the S/N of every pixel is at most the cap")
        I.true((ie * f > cap - 1e-4) | close(got, ie), "pixels below the cap keep their inverse error")
        I.true(got >= 0, "weights stay non-negative")


# ---- finding exposures

def _affine(I, k, tag, exact=True):
    """exposure k: axis-aligned, orientation and offset differ per exposure"""
    s = 4.0 * (1 + k % 2)
    sx = -1.0 if k % 2 else 1.0
    return Affine([[sx * s, 0.0], [0.0, s]], [I.real("%sra" % tag, -1, 1), 0.0], [3.0 * (k % 3), 2.0], name=tag)


class Box:
    """region: a square box on the sky; contains() as the real rectangular region"""

    def __init__(self, ra, dec, r):
        self.ra, self.dec, self.r = ra, dec, r

    @property
    def bounding_box(self):
        a, d, r = self.ra, self.dec, self.r
        return np.array([a - r, a + r, a + r, a - r], dtype=object if not isinstance(a, float) else float), \
            np.array([d - r, d - r, d + r, d + r], dtype=object if not isinstance(a, float) else float)

    def contains(self, xc, yc, wcs):
        self.calls = getattr(self, "calls", 0) + 1
        return self.answer[wcs.name]


def bb(I, box):
    a, d, r = box.ra, box.dec, box.r
    return I.array([a - r, a + r, a + r, a - r]), I.array([d - r, d - r, d + r, d + r])


class BBox(Box):
    def __init__(self, I, ra, dec, r):
        Box.__init__(self, ra, dec, r)
        self._bb = bb(I, self)

    @property
    def bounding_box(self):
        return self._bb


def h_findstore(I, exps, bandlist, imsize):
    """exps: [(band, expID, has pixels in the region)]"""
    p = PP.StorePatch.__new__(PP.StorePatch)
    nx, ny = imsize
    corners = np.zeros((1, 1, 4, 2))
    p.pixelstore = NS(nside_full=np.array(imsize), superpixel_corners=lambda *a, **k: corners)
    wc, hd = {}, {}
    reg = BBox(I, I.real("ra", -3, 3), I.real("dec", -3, 3), 0.25)
    reg.answer = {}
    W = {}
    for k, (b, e, inside) in enumerate(exps):
        w = _affine(I, k, "%s_%s_" % (b, e))
        W[b, e] = w
        wc.setdefault(b, {})[e] = w
        hd.setdefault(b, {})[e] = {"ID": (b, e)}
        reg.answer[w.name] = (np.array([0] if inside else [], dtype=int),) * 2
    p.metastore = NS(wcs=wc, headers=hd)
    hdrs, wcses, epaths, bands = p.find_exposures(reg, list(bandlist))
    got = check_lists(I, hdrs, wcses, epaths, bands, bandlist, lambda h: h["ID"], W, "%s/%s")
    check_found(I, exps, bandlist, got, W, reg, nx, ny, around=False)


def check_lists(I, hdrs, wcses, epaths, bands, bandlist, ident, W, fmt):
    n = len(epaths)
    I.true(len(hdrs) == n and len(wcses) == n and len(bands) == n, "headers, WCSs, paths and bands are parallel lists")
    ids = [ident(h) for h in hdrs]
    for k in range(n):
        b, e = ids[k]
        I.true(str(bands[k]) == b and wcses[k] is W[b, e] and str(epaths[k]) == (fmt % (b, e) if fmt else e), "header, WCS, path and band of an exposure belong together")
    I.true(len(set(ids)) == n, "no exposure is listed twice")
    I.true([list(bandlist).index(b) for b, e in ids] == sorted(list(bandlist).index(b) for b, e in ids if b in bandlist), "exposures are in band order")
    return set(ids)


def check_found(I, exps, bandlist, got, W, reg, nx, ny, around):
    bra, bdec = reg._bb
    for b, e, inside in exps:
        if b not in bandlist:
            I.true((b, e) not in got, "exposures in other bands are not used")
            continue
        x, y = W[b, e].world_to_pixel_values(bra, bdec)
        anyin = False
        for m in range(4):
            anyin = anyin | ((x[m] > 0) & (x[m] < nx) & (y[m] > 0) & (y[m] < ny))
        # definitely apart: the box (in pixels) lies on one side of the image
        lo = lambda v: [np.minimum(np.minimum(v[0], v[1]), np.minimum(v[2], v[3]))][0]
        hi = lambda v: [np.maximum(np.maximum(v[0], v[1]), np.maximum(v[2], v[3]))][0]
        apart = (hi(x) <= 0) | (lo(x) >= nx) | (hi(y) <= 0) | (lo(y) >= ny)
        f = (b, e) in got
        if inside:
            I.true(f | np.logical_not(anyin), "an exposure that holds a corner of the region is used")
            if around:
                I.true(f | np.logical_not((lo(x) < 0) & (hi(x) > nx) & (lo(y) < 0) & (hi(y) > ny)), "an exposure that lies within the region is used")
        else:
            I.true(not f, "an exposure without pixels in the region is not used")
        I.true((not f) | np.logical_not(apart), "an exposure away from the region is not used")


def h_findfits(I, exps, bandlist, imsize, r=0.25):
    nx, ny = imsize
    W, hd = {}, {}
    reg = BBox(I, I.real("ra", -3, 3), I.real("dec", -3, 3), r)
    for k, (b, e, inside) in enumerate(exps):
        W[b, e] = _affine(I, k, "%s_%s_" % (b, e))
        hd[e] = {"FILTER": b, "NAXIS1": nx, "NAXIS2": ny, "ID": (b, e)}
    p = bare(PP.FITSPatch, fitsfiles=[e for b, e, i in exps])
    with sub((PP, "fits", Fits({}, hd)), (PP, "WCS", lambda h: W[h["ID"]])):
        hdrs, wcses, epaths, bands = p.find_exposures(reg, list(bandlist))
        got = check_lists(I, hdrs, wcses, epaths, bands, bandlist, lambda h: h["ID"], W, None)
        check_found(I, exps, bandlist, got, W, reg, nx, ny, around=True)
        # without a region every exposure in the bands is used
        hdrs, wcses, epaths, bands = p.find_exposures(None, list(bandlist))
        got = check_lists(I, hdrs, wcses, epaths, bands, bandlist, lambda h: h["ID"], W, None)
        I.true(got == {(b, e) for b, e, i in exps if b in bandlist}, "all exposures in the bands are used when there is no region")


def h_storefiles(I):
    """a StorePatch opened on files finds the exposures that were stored in them"""
    from astropy.io import fits
    from astropy.wcs import WCS
    ctx = I.eng.patches.suspended() if I.symbolic else contextlib.nullcontext()
    d = tempfile.mkdtemp(prefix="vf-c15-")
    try:
        with ctx, contextlib.redirect_stdout(io.StringIO()):
            ms = ST.MetaStore()
            ps = ST.PixelStore(os.path.join(d, "p.h5"), nside_full=[4, 4], super_pixel_size=2)
            for b, e in (("A", "e1"), ("B", "v1/e2"), ("A", "v1/e3"), ("A", "v2/e3")):
                w = WCS(naxis=2)
                w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
                w.wcs.crval = [10.0, 5.0]
                w.wcs.crpix = [2.0, 2.0]
                w.wcs.cdelt = [-1e-4, 1e-4]
                h = w.to_header()
                h["NAXIS1"], h["NAXIS2"] = 4, 4
                im = ST.ImageSet(im=np.ones((4, 4)), ierr=np.ones((4, 4)), bkg=None, mask=None, hdr=h, band=b, expID=e, names=None)
                ms.add_exposure(im)
                ps.add_exposure(im)
            ms.write_to_file(os.path.join(d, "m.json"))
            ps.close()
            p = PP.StorePatch(pixelstore=os.path.join(d, "p.h5"), metastore=os.path.join(d, "m.json"))
        W = {}
        for k, (b, e) in enumerate((("A", "e1"), ("A", "v1/e3"), ("B", "v1/e2"), ("A", "v2/e3"))):
            I.true(e in p.metastore.wcs.get(b, {}), "a patch on stores knows the WCS of every stored exposure")
            W[b, e] = _affine(I, k, "%s_%s_" % (b, e))
            p.metastore.wcs[b][e] = W[b, e]
        reg = BBox(I, I.real("ra", -1, 1), I.real("dec", -1, 1), 0.25)
        reg.answer = {w.name: (np.array([0]),) * 2 for w in W.values()}
        hdrs, wcses, epaths, bands = p.find_exposures(reg, ["A", "B"])
        for k in range(len(epaths)):
            b, e = str(epaths[k]).split("/", 1)
            I.true(wcses[k] is W[b, e] and bands[k] == b and "CRVAL1" in hdrs[k], "exposure lists are parallel")
        check_found(I, [("A", "e1", 1), ("A", "v1/e3", 1), ("B", "v1/e2", 1), ("A", "v2/e3", 1)], ["A", "B"], {tuple(str(x).split("/", 1)) for x in epaths}, W, reg, 4, 4, around=False)
        p.pixelstore.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- meta data

PDT = np.dtype([(c, np.float64) for c in ST.PSF_COLS] + [("sersic_bin", np.int32)])


def psf_pars(b, nloc, n):
    a = np.zeros((nloc, n), dtype=PDT)
    for l in range(nloc):
        for k in range(n):
            for m, c in enumerate(ST.PSF_COLS):
                a[c][l, k] = (b + 1) * 100 + l * 25 + k * 6 + m + 0.5
            a["sersic_bin"][l, k] = k % 2
    return a


@contextlib.contextmanager
def psfstore(I, npsf, nloc=1, locs=None):
    def fill(h5):
        with h5.File(name, "w") as f:
            for b, n in enumerate(npsf):
                g = f.create_group(ALL[b])
                g.create_dataset("parameters", data=psf_pars(b, nloc, n))
                if locs is not None:
                    g.create_dataset("detector_locations", data=np.array(locs, dtype=float).T)
                g.attrs["n_psf_per_source"] = n
    if I.symbolic:
        name = "psf"
        h5fake.FILES.pop(name, None)
        fill(h5fake.h5py)
        yield name
        return
    import h5py
    d = tempfile.mkdtemp(prefix="vf-c15-")
    try:
        name = os.path.join(d, "psf.h5")
        fill(h5py)
        yield name
    finally:
        shutil.rmtree(d, ignore_errors=True)


MATS = [([[-8.0, 1.0], [2.0, 4.0]]), ([[4.0, 0.5], [0.0, -2.0]]), ([[1.0, 3.0], [-5.0, 0.25]]), ([[2.0, 0.0], [0.0, 2.0]])]


def h_meta(I, bands, npsf, nsrc, kind):
    """bands: band index of each exposure; kind: WCS with or without distortion"""
    used = sorted(set(bands))
    with psfstore(I, npsf) as name:
        p = bare(PP.DirectPatch, psfstore=name)
        p.bandlist = [ALL[b] for b in used]
        p.uniq_bands = np.array(used)
        p.n_exp_per_band = np.array([bands.count(b) for b in used])
        p.n_exp, p.n_bands = len(bands), len(used)
        p.bands = [ALL[b] for b in bands]
        p.hdrs = [{} for b in bands]
        W = []
        for e in range(len(bands)):
            w = Affine(MATS[e % 4], [10.0 + e, -5.0], [I.real("px%d" % e, -50, 50) if nsrc <= 3 else 12.5 * e, 7.0 * e], has_distortion=(kind == "sip"))
            W.append(w)
        decs = [-5.0, 12.5, 60.0]
        src = []
        sky = []
        for s in range(nsrc):
            # plain (undistorted) WCSs define cos(dec) at the position
            ra, dec = I.real("ra%d" % s, 5, 15), (I.real("dec%d" % s, -20, 70) if kind == "sip" else decs[s])
            if nsrc > 3:
                ra, dec = (5.5 + 0.5 * s, 1 + (s * 11) % 17 * 4.0) if s else (I.real("ra", 5, 5.2), I.real("dec", -20, -1))
            sky.append((ra, dec))
            I.assume_fact(np.cos(np.deg2rad(dec)) >= 0.25)
            src.append(NS(ra=ra, dec=dec, fixed=False, radii=np.array([0.25, 0.5]), id=s))
        for e, w in enumerate(W):
            if kind != "sip":
                w.pixel_scale_matrix = None
        scene = NS(sources=src, n_active=nsrc)
        p.wcses = W
        p.pack_meta(scene)
        ref = p.patch_reference_coordinates
        I.true(p.n_sources == nsrc and p.n_radii == 2, "number of sources and radii")
        I.eq(p.rad2, np.array([0.0625, 0.25]), "radii squared", **TOL)
        for e, w in enumerate(W):
            I.eq(p.G[e], 1.0, "unit flux calibration")
            for s in range(nsrc):
                I.eq(src[s].ra + ref[0], sky[s][0], "source and reference coordinates give the sky position", **TOL)
                I.eq(src[s].dec + ref[1], sky[s][1], "source and reference coordinates give the sky position", **TOL)
                cw, D = p.CW[e, s], p.D[e, s]
                for i in range(2):
                    for j in range(2):
                        I.eq(cw[i, j], w.M[i][j], "CW is d(pixel)/d(ra, dec) of that exposure", rtol=1e-5, atol=1e-5)
                c = np.cos(np.deg2rad(sky[s][1]))
                for i in range(2):
                    I.eq(D[i, 0] * 3600.0 * c, w.M[i][0], "scale matrix is pixels per arcsec in ra", rtol=1e-4, atol=1e-4)
                    I.eq(D[i, 1] * 3600.0, w.M[i][1], "scale matrix is pixels per arcsec in dec", rtol=1e-4, atol=1e-4)
                x, y = w.world_to_pixel_values(*sky[s])
                for i, q in enumerate((x, y)):
                    dx, dy = src[s].ra - p.crval[e, s, 0], src[s].dec - p.crval[e, s, 1]
                    I.eq(cw[i, 0] * dx + cw[i, 1] * dy + p.crpix[e, s, i], q, "the kernel's pixel position of the source is that of the WCS", rtol=1e-4, atol=1e-3)
        # psfs
        for k, b in enumerate(used):
            I.true(int(p.n_psf_per_source[k]) == npsf[b], "number of PSF Gaussians per source in a band")
        for e, b in enumerate(bands):
            want = psf_pars(b, 1, npsf[b])[0]
            for s in range(nsrc):
                for q in range(npsf[b]):
                    g = p.psfgauss[int(p.psfgauss_start[e]) + s * npsf[b] + q]
                    for c in ST.PSF_COLS:
                        I.eq(g[c], float(want[c][q]), "PSF Gaussians of the exposure's band at the slot of exposure and source", rtol=1e-5)
                    I.true(int(g["sersic_bin"]) == int(want["sersic_bin"][q]), "radius bin of the PSF Gaussian")


def h_psf(I, locs, give):
    with psfstore(I, [2, 3], nloc=len(locs), locs=locs) as name:
        st = ST.PSFStore(name)
        x, y = I.real("x", -20, 20), I.real("y", -20, 20)
        for b in (0, 1):
            if give == "none":
                got = st.lookup(ALL[b])
            elif give == "xy":
                got = st.lookup(ALL[b], xy=(x, y))
            else:
                w = Affine(MATS[1], [0.5, 0.25], [1.0, 2.0])
                ra, dec = w.pixel_to_world_values(x, y)
                got = st.get_local_psf(band=ALL[b], source=NS(ra=ra, dec=dec), wcs=w)
            allp = psf_pars(b, len(locs), (2, 3)[b])
            k = [k for k in range(len(locs)) if float(got["amp"][0]) == float(allp["amp"][k, 0])]
            I.true(len(k) == 1 and len(got) == (2, 3)[b], "PSF parameters are those of one location of the band")
            k = k[0]
            for c in ST.PSF_COLS:
                I.true(np.array_equal(np.asarray(got[c], float), allp[c][k]), "PSF parameters are those of one location")
            if give == "none":
                I.true(k == 0, "first location when no position is given")
                continue
            d = [(x - u) * (x - u) + (y - v) * (y - v) for u, v in locs]
            for j in range(len(locs)):
                I.true(d[k] <= d[j] + 1e-6, "PSF of the nearest detector location")


def h_static(I, stamps, nsrc, npsf):
    """stamps: [(band id, nx, ny)]"""
    st, v = [], []
    for e, (b, nx, ny) in enumerate(stamps):
        n = nx * ny
        arr = {k: I.reals("%s%d_" % (k, e), n, lo, hi) for k, lo, hi in (("d", -5, 5), ("i", 0, 5), ("x", 0, 9), ("y", 0, 9))}
        v.append({k: list(a) for k, a in arr.items()})
        st.append(NS(band=b, shape=(nx, ny), npix=n, pixel_values=arr["d"].reshape(nx, ny), ierr=arr["i"].reshape(nx, ny),
                     xpix=arr["x"].reshape(nx, ny), ypix=arr["y"].reshape(nx, ny)))
    used = sorted({s[0] for s in stamps})
    nexp = len(stamps)
    pdt = np.dtype([("gauss_params", np.float32, 6), ("sersic_bin", np.int32)])

    class Src:
        pass
    src = []
    for s in range(nsrc):
        o = Src()
        o.radii = np.array([0.5, 1.5])
        o.stamp_crpixs = [np.array([1.0 + e, 2.0]) for e in range(nexp)]
        o.stamp_crvals = [np.array([3.0 + e, 4.0]) for e in range(nexp)]
        o.stamp_zps = [5.0 + e for e in range(nexp)]
        o.stamp_scales = [np.array([[1.0 + s, 2.0], [3.0, 4.0 + e]]) for e in range(nexp)]
        o.stamp_cds = [np.array([[5.0 + s, 6.0], [7.0, 8.0 + e]]) for e in range(nexp)]

        def psfgauss(e, s=s):
            a = np.zeros(npsf[used.index(stamps[e][0])], dtype=pdt)
            for k in range(len(a)):
                a["gauss_params"][k] = np.arange(6) + 10 * k + 100 * e + 1000 * s
                a["sersic_bin"][k] = k % 2
            return a
        o.psfgauss = psfgauss
        src.append(o)
    mini = NS(sources=src, n_active=nsrc, npsf_per_source=np.array(npsf))
    p = SP.StaticPatch.__new__(SP.StaticPatch)
    PA.PatchBase.__init__(p)
    p.build_patch(stamps=st, miniscene=mini)
    tot = len(p.data)
    cover = set()
    for k, b in enumerate(used):
        es = list(range(int(p.band_start[k]), int(p.band_start[k]) + int(p.band_N[k])))
        I.true(es == [e for e in range(nexp) if stamps[e][0] == b], "the exposures of a band are exactly its own")
        I.true(int(p.n_psf_per_source[k]) == npsf[k], "PSF Gaussians per source in a band")
    for e in range(nexp):
        i0, n = int(p.exposure_start[e]), int(p.exposure_N[e])
        m = stamps[e][1] * stamps[e][2]
        I.true(n % 32 == 0 and 0 <= n - m < 32, "exposures are padded to the warp size")
        I.true(not (cover & set(range(i0, i0 + n))) and i0 + n <= tot, "exposures do not share pixels")
        cover |= set(range(i0, i0 + n))
        for j in range(n):
            if j < m:
                for k, a in (("d", p.data), ("i", p.ierr), ("x", p.xpix), ("y", p.ypix)):
                    I.eq(a[i0 + j], v[e][k][j], "pixel keeps its own data, error and coordinates", **TOL)
            else:
                I.eq(p.ierr[i0 + j], 0.0, "padded pixels have no weight")
        for s in range(nsrc):
            I.true(np.array_equal(np.asarray(p.D[e, s], float), src[s].stamp_scales[e]) and np.array_equal(np.asarray(p.CW[e, s], float), src[s].stamp_cds[e]), "astrometry matrices at the slot of exposure and source")
            I.true(np.array_equal(np.asarray(p.crpix[e, s], float), src[0].stamp_crpixs[e]) and np.array_equal(np.asarray(p.crval[e, s], float), src[0].stamp_crvals[e]), "reference pixel and value at the slot of exposure and source")
            N = npsf[used.index(stamps[e][0])]
            for q in range(N):
                g = p.psfgauss[int(p.psfgauss_start[e]) + s * N + q]
                I.true(np.array_equal(np.asarray(g["gauss_params"], float), np.arange(6) + 10 * q + 100 * e + 1000 * s) and int(g["sersic_bin"]) == q % 2, "PSF Gaussians at the slot of exposure and source")
        I.eq(float(p.G[e]), 5.0 + e, "flux calibration of the exposure")
    I.true(cover == set(range(tot)), "no pixels outside the exposures")
    I.eq(np.asarray(p.rad2, float), np.array([0.25, 2.25]), "radii squared")


def harnesses(tier):
    q = tier == "quick"
    fits = []
    bads = [[], [((0, 0), "nan"), ((1, 1), "neg")], [((1, 0), "inf"), ((0, 1), "zeroerr"), ((1, 1), "negerr")], [((0, 0), "nanerr"), ((0, 1), "inferr")]]
    for (nx, ny), sel in (((2, 3), None), ((3, 2), None), ((3, 2), [(0, 1), (2, 0), (1, 1)]), ((2, 2), [(1, 0), (0, 0), (0, 1), (1, 1)]), ((4, 2), [(3, 1)])):
        for opt in ("err", "unc", "snr"):
            for n, bad in enumerate(bads):
                fits.append(dict(nx=nx, ny=ny, opt=opt, bad=bad, sel=sel, warp=(4, None, 3, 2)[n]))
    store = [dict(nx=4, ny=6, s=2, sel=[(0, 1), (1, 2)]), dict(nx=4, ny=2, s=2, sel=[(1, 0)]), dict(nx=3, ny=3, s=1, sel=[(0, 2), (2, 1)]), dict(nx=2, ny=4, s=2, sel=[(0, 0), (0, 1)])]
    lay = [[("a", "A", 2)], [("a", "B", 1), ("b", "B", 2)], [("a", "C", 2), ("b", "A", 1), ("c", "C", 1)], [("b", "D", 1), ("a", "B", 2), ("c", "A", 3)],
           [("a", "A", 1), ("b", "B", 1), ("c", "A", 2), ("d", "B", 2)]]
    lay.append([("e%d" % k, "BADC"[k % 4], 1 + (k * 5) % 13) for k in range(11)])
    pack = [dict(exps=l, tweak=t, cap=c, dtype=d) for l in lay for t, c, d in ((0, 0, "float64"), (1, 0, "float32"), (0, 4.0, "float64"), (1, 3.0, "float32"))]
    if q:
        pack = [x for x in pack if not x["cap"] or sum(e[2] for e in x["exps"]) <= 4]
    fnd = [dict(exps=[("A", "e1", 1)], bandlist=["A"], imsize=(8, 4)), dict(exps=[("B", "e1", 1), ("A", "e2", 1)], bandlist=["A", "B"], imsize=(4, 8)),
           dict(exps=[("A", "e1", 1), ("C", "e2", 1), ("A", "e3", 0)], bandlist=["B", "A"], imsize=(6, 6)),
           dict(exps=[("A", "e1", 1), ("B", "e2", 1)], bandlist=["B", "A"], imsize=(8, 4))]
    fndf = [dict(x, exps=[(b, e, 1) for b, e, i in x["exps"]]) for x in fnd]
    fndf += [dict(exps=[("A", "e1", 1)], bandlist=["A"], imsize=s, r=2.0) for s in ((6, 6), (8, 4))]
    meta = [dict(bands=b, npsf=n, nsrc=s, kind=k) for b, n, s in (([0], [1], 1), ([0, 0, 1], [2, 1], 2), ([0, 2, 2], [1, 3, 2], 3)) for k in ("sip",)]
    meta.append(dict(bands=[0, 0, 1, 2, 2], npsf=[1, 1, 2], nsrc=17, kind="sip"))
    L3 = [(0.0, 0.0), (10.0, 0.0), (0.0, -8.0)]
    psf = [dict(locs=L3, give=g) for g in ("xy", "none", "source")] + [dict(locs=[(1.0, 1.0)], give="xy")]
    stat = [dict(stamps=[(0, 2, 2)], nsrc=1, npsf=[1]), dict(stamps=[(0, 3, 2), (0, 8, 4), (3, 2, 1)], nsrc=2, npsf=[2, 1]), dict(stamps=[(1, 11, 3), (2, 1, 1), (2, 2, 2)], nsrc=2, npsf=[1, 3])]
    kw = dict(stubs=STUBS, validate=1, max_paths=3000)
    return [
        Harness("fits_pixels", h_fits, fits, functions=["FITSPatch.find_pixels"], bounds="images up to 4x2, all data/errors symbolic, non-finite pixels placed, warp 2,3,4,64", **kw),
        Harness("store_pixels", h_store, store, functions=["StorePatch.find_pixels", "PixelStore.add_exposure"], bounds="images up to 4x6, superpixels of 1-2", **kw),
        Harness("pack", h_pack, pack, functions=["PixelPatch.build_patch/pack_pix/_cap_snr", "DirectPatch.find_exposures/find_pixels", "Patch.split_pix/split_band"], bounds="up to 4 (one case 11) exposures in 1-3 of 4 bands, header order permuted, 1-3 pixels each, backgrounds and S/N caps", **kw),
        Harness("find_store", h_findstore, fnd, functions=["StorePatch.find_exposures"], bounds="1-3 exposures, symbolic region position and WCS offset", **kw),
        Harness("find_fits", h_findfits, fndf, functions=["FITSPatch.find_exposures"], bounds="1-3 exposures", **kw),
        Harness("store_files", h_storefiles, [{}], functions=["StorePatch.__init__", "MetaStore.write_to_file/read_from_file/populate_wcs"], bounds="4 exposures in 2 bands, some with nested names", **kw),
        Harness("meta", h_meta, meta, functions=["Patch.pack_meta/_pack_source_metadata/_pack_astrometry/_pack_fluxcal/_pack_psf/zerocoords", "scale_at_sky", "PSFStore"], bounds="up to 3 (5) exposures in 2 (3) bands, 3 (17) sources", **kw),
        Harness("psf_lookup", h_psf, psf, functions=["PSFStore.lookup/get_local_psf"], bounds="3 detector locations, symbolic position", **kw),
        Harness("static", h_static, stat, functions=["StaticPatch.build_patch/pack_pix/pack_psf/pack_astrometry/pack_source_metadata"], bounds="up to 3 stamps of up to 33 pixels", **kw),
    ]
