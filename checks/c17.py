"""C17 image reconstruction puts each pixel value at its own coordinates."""
import contextlib
import io
import os
import shutil
import tempfile
from types import SimpleNamespace as NS

import numpy as np

from vf.harness import Harness
from vf import h5fake
from vf.wcsstub import sub

import forcepho.utils as U
import forcepho.utils.io as UIO
import forcepho.postprocess as PO
import forcepho.patches.pixel_patch as PP

STUBS = {("forcepho.utils.io", "h5py"): h5fake.h5py, ("forcepho.postprocess", "h5py"): h5fake.h5py}


def isnan(v):
    return isinstance(v, (float, np.floating)) and np.isnan(v)


def same(I, got, want, label):
    if isnan(got):
        I.true(False, label, "fill value at a pixel that has data")
    I.eq(got, want, label, rtol=1e-6, atol=1e-6)


def h_populate(I, pix, half):
    """pix: list of (x, y); negative coordinates are padding"""
    off = 0.5 if half else 0.0
    n = len(pix)
    data = [I.real("d%d" % k, -100, 100) for k in range(n)]
    x = np.array([p[0] + (off if p[0] >= 0 else 0) for p in pix], dtype=float)
    y = np.array([p[1] + (off if p[1] >= 0 else 0) for p in pix], dtype=float)
    check_image(I, pix, x, y, data, off)


def check_image(I, pix, x, y, data, off):
    im, lo, hi = U.populate_image(x, y, I.array(data))
    good = [(p, d) for p, d in zip(pix, data) if p[0] >= 0 and p[1] >= 0]
    x0, y0 = min(p[0] for p, _ in good), min(p[1] for p, _ in good)
    x1, y1 = max(p[0] for p, _ in good), max(p[1] for p, _ in good)
    I.true(im.shape == (x1 - x0 + 1, y1 - y0 + 1), "the image spans the pixels")
    for g, w in zip(list(lo) + list(hi), (x0 - 0.5, y0 - 0.5, x1 + 0.5, y1 + 0.5)):
        I.eq(float(g), w + off, "the declared edges are those of the outer pixels")
    want = dict(good)
    for i in range(im.shape[0]):
        for j in range(im.shape[1]):
            if (x0 + i, y0 + j) in want:
                same(I, im[i, j], want[x0 + i, y0 + j], "each value is at its own coordinates")
            else:
                I.true(isnan(im[i, j]), "pixels without data hold the fill value")


def h_popsym(I, n, size):
    """pixel coordinates chosen by the solver"""
    xs = [I.int("x%d" % k, -1, size) for k in range(n)]
    ys = [I.int("y%d" % k, -1, size) for k in range(n)]
    xs = [int(v) for v in xs]
    ys = [int(v) for v in ys]
    pix = list(zip(xs, ys))
    good = [p for p in pix if min(p) >= 0]
    I.assume(len(good) >= 1 and len(set(good)) == len(good))
    data = [I.real("d%d" % k, -100, 100) for k in range(n)]
    check_image(I, pix, np.array(xs, dtype=float), np.array(ys, dtype=float), data, 0.0)


@contextlib.contextmanager
def workdir(I):
    if I.symbolic:
        h5fake.FILES.clear()
        yield "w"
        return
    d = tempfile.mkdtemp(prefix="vf-c17-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def mkpatch(I, tag, exps, keep):
    """a real patch object holding exposures [(band, name, [(x, y)...], npad)]"""
    p = PP.DirectPatch.__new__(PP.DirectPatch)
    arr = {k: [] for k in ("data", "ierr", "xpix", "ypix")}
    p.exposure_N = np.array([len(e[2]) + e[3] for e in exps])
    p.exposure_start = np.concatenate([[0], np.cumsum(p.exposure_N)[:-1]])
    p.epaths = [e[1] for e in exps]
    p.bands = [e[0] for e in exps]
    p.bandlist = sorted(set(p.bands))
    p.n_exp = len(exps)
    p.patch_reference_coordinates = np.array([10.0, -5.0])
    resid = []
    for n, (b, name, pix, pad) in enumerate(exps):
        r = []
        for k, (x, y) in enumerate(pix):
            v = {q: I.real("%s%s%d_%d" % (tag, q, n, k), 0, 50) for q in ("data", "ierr", "residual")}
            keep[name][x, y] = v
            arr["data"].append(v["data"])
            arr["ierr"].append(v["ierr"])
            arr["xpix"].append(x)
            arr["ypix"].append(y)
            r.append(v["residual"])
        for k in range(pad):
            arr["data"].append(I.real("%spd%d_%d" % (tag, n, k), -9, 9))
            arr["ierr"].append(0.0)
            arr["xpix"].append(-1)
            arr["ypix"].append(-1)
            r.append(I.real("%spr%d_%d" % (tag, n, k), -9, 9))
        resid.append(I.array(r))
    p.data, p.ierr = I.array(arr["data"]), I.array(arr["ierr"])
    p.xpix, p.ypix = np.array(arr["xpix"], dtype=np.float32), np.array(arr["ypix"], dtype=np.float32)
    p.D = np.arange(4.0 * len(exps)).reshape(len(exps), 1, 2, 2)
    p.CW = p.D + 100
    p.crpix = np.arange(2.0 * len(exps)).reshape(len(exps), 1, 2)
    p.crval = p.crpix + 50
    return p, resid


def h_fill(I, patches, size, how):
    """write_residuals -> Residuals.fill_images over several patches"""
    names = sorted({e[1] for ps in patches for e in ps})
    keep = {n: {} for n in names}
    sizes = {n: (size[0] + k, size[1]) for k, n in enumerate(names)}
    bands = {e[1]: e[0] for ps in patches for e in ps}
    hdrs = {}
    for n in names:
        hdrs.setdefault(bands[n], {})[n.split("/")[-1]] = {"NAXIS": 2, "NAXIS1": sizes[n][0], "NAXIS2": sizes[n][1]}
    ms = NS(headers=hdrs) if how == "store" else None
    with workdir(I) as d, contextlib.redirect_stdout(io.StringIO()):
        files = []
        for k, exps in enumerate(patches):
            p, resid = mkpatch(I, "p%d" % k, exps, keep)
            fn = os.path.join(d, "patch%d_residuals.h5" % k)
            UIO.write_residuals(p, fn, residuals=resid)
            files.append(fn)
            with contextlib.closing(PO.h5py.File(fn, "r")) as h:
                for n, (b, name, pix, pad) in enumerate(exps):
                    for a in ("D", "CW", "crpix", "crval"):
                        I.true(np.array_equal(np.asarray(h[name][a][:], dtype=float), getattr(p, a)[n]), "stored astrometry is that of the exposure")
        if how == "files":
            return check_files(I, files, names, keep, sizes, hdrs, d)
        for fill in ("residual", "data", "ierr"):
            images, headers = {}, {}
            rs = [PO.Residuals(f) for f in files]
            for r, exps in zip(rs, patches):
                I.true([e[1] for e in exps] == list(r.exposures) and [e[0] for e in exps] == list(r.ebands), "exposures and bands of the patch")
                r.fill_images(images, headers=headers, fill_type=fill, metastore=ms, imshape=size)
            I.true(sorted(images) == names, "one image per exposure")
            for n in names:
                want = sizes[n] if how == "store" else size
                I.true(images[n].shape == want, "images have the declared size")
                if how == "store":
                    I.true(headers[n] is hdrs[bands[n]][n.split("/")[-1]], "the header is that of the exposure")
                check_full(I, images[n], {k: v[fill] for k, v in keep[n].items()})
            for r, exps in zip(rs, patches):
                for n, (b, name, pix, pad) in enumerate(exps):
                    im, lo, hi = r.make_exp(e=n, value=fill)
                    x0, y0 = min(q[0] for q in pix), min(q[1] for q in pix)
                    for x, y in pix:
                        same(I, im[x - x0, y - y0], keep[name][x, y][fill], "each value is at its own coordinates")
            # a second, independent request starts from empty images
            one = rs[0].fill_images(fill_type=fill, metastore=ms, imshape=size)[0]
            I.true(sorted(one) == sorted({e[1] for e in patches[0]}), "only the exposures asked for")
            for e in patches[0]:
                check_full(I, one[e[1]], {q: keep[e[1]][q][fill] for q in e[2]})
            for r in rs:
                r.handle.close()


def check_full(I, im, want):
    for i in range(im.shape[0]):
        for j in range(im.shape[1]):
            if (i, j) in want:
                same(I, im[i, j], want[i, j], "each value is at its own coordinates")
            else:
                I.true(isnan(im[i, j]), "pixels without data hold the fill value")


class HDU:
    out = {}

    def __init__(self, data):
        self.data = data
        self.header = {"NAXIS": 2, "NAXIS1": data.shape[1], "NAXIS2": data.shape[0]}

    def writeto(self, name, **kw):
        HDU.out[os.path.basename(name)] = self


def check_files(I, files, names, keep, sizes, hdrs, d):
    HDU.out = {}
    with sub((PO, "fits", NS(PrimaryHDU=HDU, ImageHDU=HDU)), (PO, "MetaStore", lambda *a, **k: NS(headers=hdrs)),
             (PO, "glob", NS(glob=lambda *a, **k: files[::-1])), (PO.os, "makedirs", lambda *a, **k: None)):
        PO.write_images(d, metafile="m.json", show_model=True, show_chi=True)
    for n in names:
        b = n.split("/")[-1]
        for kind, f in (("data", lambda v: v["data"]), ("delta", lambda v: v["residual"]), ("model", lambda v: v["data"] - v["residual"]), ("chi", lambda v: v["residual"] * v["ierr"])):
            h = HDU.out.get("%s_%s.fits" % (b, kind))
            I.true(h is not None, "an image of each kind per exposure")
            I.true(h.data.shape == sizes[n][::-1], "FITS images are stored [y, x]")
            I.true(h.header["IMTYPE"] == kind.upper(), "the image type is declared")
            check_full(I, h.data.T, {k: f(v) for k, v in keep[n].items()})


class Run:
    """what a fitting method returns, recording where it is saved"""

    def __init__(self, chain, lnp):
        self.chain, self.lnp, self.ndim = chain, lnp, chain.shape[1]
        self.saved = []

    def dump_to_h5(self, name, **k):
        self.saved.append((os.path.basename(name), getattr(self, "config", None)))


def h_disk(I, exps, given, write):
    """write_to_disk: residuals are those of the last position, or those given"""
    keep = {e[1]: {} for e in exps}
    with workdir(I) as d, contextlib.redirect_stdout(io.StringIO()):
        p, resid = mkpatch(I, "p", exps, keep)
        chain = I.array([[I.real("c%d_%d" % (t, k), -2, 2) for k in range(2)] for t in range(3)])
        out = Run(chain, I.reals("l", 3, -5, 5))
        asked = []

        def residuals(q, *a, **k):
            asked.append([q[k] for k in range(len(q))])
            return [r * 0 + q[0] + 2 * q[1] + r for r in resid]
        model = NS(patch=p, residuals=residuals, residual=residuals)
        conf = NS(answer=42, name="x")
        if write is not None:
            conf.write_residuals = write
        root = os.path.join(d, "patch7")
        UIO.write_to_disk(out, root, model, conf, residual=resid if given else None)
        I.true([s[0] for s in out.saved] == ["patch7_samples.h5"], "the chain is saved once, under its own name")
        I.true(out.saved[0][1] is not None and '"answer": 42' in out.saved[0][1], "the configuration is saved with the chain")
        fn = root + "_residuals.h5"
        there = fn in h5fake.FILES if I.symbolic else os.path.exists(fn)
        I.true(there == bool(write), "residuals are written exactly when asked for")
        if not write:
            return
        last = chain[2]
        with contextlib.closing(PO.h5py.File(fn, "r")) as h:
            for n, (b, name, pix, pad) in enumerate(exps):
                got = h[name]["residual"][:]
                I.true(len(got) == len(pix) + pad, "one residual per pixel")
                for k in range(len(got)):
                    want = resid[n][k] + (0.0 if given else last[0] + 2 * last[1])
                    I.eq(got[k], want, "residuals are those given, else of the last position in the chain", rtol=1e-5, atol=1e-5)


def harnesses(tier):
    q = tier == "quick"
    pops = [dict(pix=p, half=h) for h in (0,) for p in (
        [(0, 0)], [(3, 5), (4, 5), (3, 7)], [(2, 1), (0, 4), (1, 1), (0, 0)], [(7, 2), (-1, -1), (5, 2), (-1, -1)],
        [(-1, -1), (100, 3), (98, 9)], [(4, 0), (3, 1), (2, 2), (1, 3)])]
    pops.append(dict(pix=[(x * 3 % 19, (x * 7 + x // 19) % 23) for x in range(70)], half=0))
    sym = [dict(n=1, size=3), dict(n=2, size=1 if q else 3)]
    A = [[("F1", "F1/a", [(0, 0), (3, 2), (1, 1)], 2)]]
    B = [[("F1", "F1/a", [(2, 0), (0, 1)], 1), ("F2", "F2/b", [(4, 3), (1, 2)], 0)], [("F1", "F1/a", [(3, 3)], 3), ("F2", "F2/c", [(0, 3), (3, 0)], 2)]]
    C = [[("F2", "F2/b", [(1, 0)], 0), ("F3", "F3/a", [(0, 0), (2, 3)], 1)]]
    D = [[("F1", "F1/a", [(0, 0), (3, 3)], 0), ("F1", "F1/b", [(1, 3)], 3), ("F2", "F2/d", [(2, 2)], 1)], [("F1", "F1/b", [(0, 3), (0, 2)], 2)], [("F1", "F1/a", [(1, 0)], 1)]]
    E = [[("F%d" % (1 + k % 3), "F%d/e%d" % (1 + k % 3, k), [(k % 5, (k + j) % 4) for j in range(3)], k % 2) for k in range(11)]]
    fill = [dict(patches=p, size=s, how=h) for p in (A, B, C, D, E) for s, h in (((5, 4), "store"), ((5, 6), "plain"), ((6, 4), "files"))]
    kw = dict(stubs=STUBS, validate=1)
    return [
        Harness("populate", h_populate, pops, functions=["populate_image"], bounds="up to 4 (one case 70) pixels incl. padding, any values", **kw),
        Harness("popsym", h_popsym, sym, max_paths=6000, functions=["populate_image"], bounds="1-2 pixels at every coordinate of a small grid incl. padding", **kw),
        Harness("disk", h_disk, [dict(exps=e, given=g, write=w) for e in (A[0], B[0], D[0]) for g in (0, 1) for w in (True, False, None)], functions=["write_to_disk", "write_residuals"],
                bounds="1-3 exposures, chain of 3 positions; all values symbolic", **kw),
        Harness("fill", h_fill, fill, functions=["write_residuals", "make_imset", "Residuals.__init__/make_exp/fill_images", "write_images", "Patch.split_pix"], bounds="1-3 patches of 1-3 (one of 11) exposures, up to 3 pixels plus padding each, any values", **kw),
    ]
