"""C14 superpixel storage is a lossless, coordinate-faithful reordering."""
import os
import shutil
import tempfile
import types
import contextlib
import io

import numpy as np

from vf.harness import Harness
from vf import h5fake

import forcepho.patches.storage as ST

STUBS = {("forcepho.patches.storage", "h5py"): h5fake.h5py}


SYMM = ((0, 0), (0, 1), (1, 0), (2, 1))      # pixels whose mask is symbolic


@contextlib.contextmanager
def store(I, nx, ny, s, dtype=np.float64, scalar=False):
    nside = nx if scalar else [nx, ny]
    with contextlib.redirect_stdout(io.StringIO()):
        if I.symbolic:
            h5fake.FILES.clear()
            yield ST.PixelStore("store", nside_full=nside, super_pixel_size=s, pix_dtype=dtype), "store"
            return
        d = tempfile.mkdtemp(prefix="vf-c14-")
        try:
            name = os.path.join(d, "s.h5")
            p = ST.PixelStore(name, nside_full=nside, super_pixel_size=s, pix_dtype=dtype)
            yield p, name
            p.close()
        finally:
            shutil.rmtree(d, ignore_errors=True)


def positions(I, p, nx, ny, s):
    """where each pixel coordinate is recorded; checks each occurs exactly once"""
    gx, gy = p.xpix, p.ypix
    I.true(tuple(gx.shape) == (nx // s, ny // s, s * s) and tuple(gy.shape) == tuple(gx.shape), "coordinate arrays have one entry per pixel")
    where = {}
    for i in range(gx.shape[0]):
        for j in range(gx.shape[1]):
            for k in range(s * s):
                where.setdefault((int(gx[i, j, k]), int(gy[i, j, k])), []).append((i, j, k))
    want = {(x, y) for x in range(nx) for y in range(ny)}
    I.true(set(where) == want and all(len(v) == 1 for v in where.values()), "every pixel coordinate is recorded exactly once")
    return {k: v[0] for k, v in where.items()}


def h_reorder(I, nx, ny, s, scalar):
    with store(I, nx, ny, s, scalar=scalar) as (p, name):
        where = positions(I, p, nx, ny, s)
        im = I.array([[I.real("d_%d_%d" % (x, y), -5, 5) for y in range(ny)] for x in range(nx)])
        ie = I.array([[I.real("e_%d_%d" % (x, y), 0, 5) for y in range(ny)] for x in range(nx)])
        out = p.superpixelize(im, ie)
        I.true(tuple(out.shape) == (nx // s, ny // s, 2 * s * s), "superpixel array shape")
        for (x, y), (i, j, k) in where.items():
            I.eq(out[i, j, k], im[x, y], "data of the pixel at its recorded coordinates")
            I.eq(out[i, j, k + s * s], ie[x, y], "inverse error of the pixel at its recorded coordinates")
        c = p.superpixel_corners()
        check_corners(I, c, p, nx, ny, s, where)
        # same through an explicit image size
        c2 = p.superpixel_corners(imsize=(nx, ny))
        check_corners(I, c2, p, nx, ny, s, where)


def check_corners(I, c, p, nx, ny, s, where):
    I.true(tuple(c.shape) == (nx // s, ny // s, 4, 2), "four corners per superpixel")
    for i in range(nx // s):
        for j in range(ny // s):
            mine = [xy for xy, w in where.items() if w[:2] == (i, j)]
            xs, ys = [a for a, b in mine], [b for a, b in mine]
            got = {(int(c[i, j, m, 0]), int(c[i, j, m, 1])) for m in range(4)}
            I.true(got == {(a, b) for a in (min(xs), max(xs)) for b in (min(ys), max(ys))}, "corners bound the pixels stored in the superpixel")
            # consistent (cyclic) order
            ring = [(int(c[i, j, m, 0]), int(c[i, j, m, 1])) for m in range(4)]
            I.true(s == 1 or all((ring[m][0] == ring[m - 1][0]) != (ring[m][1] == ring[m - 1][1]) for m in range(4)), "corners are in cyclic order")


def h_expose(I, nx, ny, s, bad, bkg, mask, bitmask, cal, again):
    """bad: {(x, y): kind} pixels that are not finite or negative"""
    bad = dict(bad)
    with store(I, nx, ny, s) as (p, name):
        where = positions(I, p, nx, ny, s)

        def exposure(tag):
            im0, ie0, bk0, mk0 = {}, {}, {}, {}
            for x in range(nx):
                for y in range(ny):
                    im0[x, y] = I.real("%sd_%d_%d" % (tag, x, y), -5, 5)
                    ie0[x, y] = I.real("%se_%d_%d" % (tag, x, y), -1 if bad.get((x, y)) == "sign" else 0, 5)
                    k = bad.get((x, y))
                    if k == "nandata":
                        im0[x, y] = np.nan
                    elif k == "infdata":
                        im0[x, y] = -np.inf
                    elif k == "nanerr":
                        ie0[x, y] = np.nan
                    elif k == "inferr":
                        ie0[x, y] = np.inf
                    bk0[x, y] = np.nan if k == "nanbkg" else I.real("%sb_%d_%d" % (tag, x, y), -2, 2)
                    mk0[x, y] = (3 * x + y) % 4 if bitmask else ((I.bool("%sm_%d_%d" % (tag, x, y)) if tag == "" and (x, y) in SYMM else (x + 2 * y) % 3 == 0) if mask else False)
            grid = lambda d: I.array([[d[x, y] for y in range(ny)] for x in range(nx)])
            if not mask:
                mk = None
            elif bitmask:
                mk = np.array([[mk0[x, y] for y in range(ny)] for x in range(nx)], dtype=np.int32)
            else:
                mk = grid(mk0)
                if not I.symbolic:
                    mk = np.array(mk, dtype=bool)
            hdr = {} if cal is None else {"ABMAG": cal}
            return ST.ImageSet(im=grid(im0), ierr=grid(ie0), bkg=grid(bk0) if bkg else None, mask=mk, hdr=hdr, band="F1", expID="e1", names=None), im0, ie0, bk0, mk0
        other = None
        if again:
            p.add_exposure(exposure("o")[0], bitmask=bitmask, do_fluxcal=cal is not None)
            sib = exposure("s")[0]
            p.add_exposure(sib._replace(expID="e2"), bitmask=bitmask, do_fluxcal=cal is not None)
            other = p.data["F1/e2/data"][:]
            p.close()
        im, im0, ie0, bk0, mk0 = exposure("")
        p.add_exposure(im, bitmask=bitmask, do_fluxcal=cal is not None)
        d = p.data["F1/e1/data"]
        out = d[:]
        # a store that exists already is opened with its own layout
        r = ST.PixelStore(name, pix_dtype=np.float64)
        I.true(np.all(np.zeros(2) + r.nside_full == [nx, ny]) and int(r.super_pixel_size) == s, "an existing store keeps its image and superpixel sizes")
        I.true(np.array_equal(np.array(r.xpix, dtype=float), np.array(p.xpix, dtype=float)) and np.array_equal(np.array(r.ypix, dtype=float), np.array(p.ypix, dtype=float)), "an existing store keeps its pixel order")
        back = r.data["F1/e1/data"][:]
        I.eq(back.ravel(), out.ravel(), "a store opened again has the same pixels")
        if other is not None:
            I.eq(r.data["F1/e2/data"][:].ravel(), other.ravel(), "adding an exposure leaves the others alone")
        r.close()
        conv = 1.0 if cal is None else 1e9 * 10 ** (0.4 * (8.9 - cal))
        I.true(abs(float(d.attrs["counts_to_flux"]) / conv - 1) < 1e-9, "recorded flux calibration is the one applied")
        I.true(tuple(out.shape) == (nx // s, ny // s, 2 * s * s), "stored array shape")
        for (x, y), (i, j, k) in where.items():
            v, e = out[i, j, k], out[i, j, k + s * s]
            kind = bad.get((x, y))
            isbad = kind in ("nandata", "infdata", "nanerr", "inferr") or (bkg and kind == "nanbkg")
            m = mk0[x, y]
            if bitmask:
                m = bool(m & bitmask)
            if isbad:
                I.eq(e, 0.0, "non-finite pixel has no weight")
                I.true(np.isfinite(v), "stored values are finite")
                continue
            w = im0[x, y] - (bk0[x, y] if bkg else 0.0)
            good = np.logical_not(m) & (ie0[x, y] >= 0)
            I.true(good | (np.abs(e) <= 1e-12), "masked or negative-error pixel has no weight")
            I.true(np.logical_not(good) | (np.abs(v - w * conv) <= 1e-5 * conv), "stored data are the background-subtracted, calibrated ones of that pixel")
            I.true(np.logical_not(good) | (np.abs(e * conv - ie0[x, y]) <= 1e-5), "stored inverse error is that pixel's, in the same calibration")


def harnesses(tier):
    q = tier == "quick"
    sh = [(2, 2, 1), (2, 2, 2), (4, 2, 2), (2, 4, 2), (6, 3, 3), (4, 6, 2), (1, 3, 1)]
    sh += [(16, 8, 8), (8, 16, 8), (20, 10, 5)]
    if not q:
        sh += [(6, 4, 2), (8, 4, 4), (4, 12, 4), (9, 6, 3), (10, 5, 5)]
    rs = [dict(nx=a, ny=b, s=s, scalar=False) for a, b, s in sh] + [dict(nx=4, ny=4, s=2, scalar=True)]
    kinds = ["nandata", "infdata", "nanerr", "inferr", "nanbkg", "sign"]
    es = []
    for n, (a, b, s) in enumerate(((4, 2, 2), (2, 4, 2), (3, 2, 1)) if q else ((4, 2, 2), (2, 4, 2), (3, 2, 1), (4, 4, 2), (6, 3, 3))):
        cells = [(x, y) for x in range(a) for y in range(b)]
        for r in range(3):
            bad = {cells[(2 * k + r) % len(cells)]: kinds[(k + r) % 6] for k in range(3 + r)}
            for bkg in (0, 1):
                for mask, bit in ((0, None), (1, None), (1, 1), (1, 2), (1, 3)):
                    cal = (None, 31.4, 28.0)[(n + r + bkg) % 3]
                    es.append(dict(nx=a, ny=b, s=s, bad=sorted(bad.items()), bkg=bkg, mask=mask, bitmask=bit, cal=cal, again=(r == 2 and not bkg)))
    kw = dict(functions=["PixelStore.__init__/superpixelize/pixel_coordinates/superpixel_corners/add_exposure/flux_calibration"], stubs=STUBS, validate=1)
    return [Harness("reorder", h_reorder, rs, bounds="images up to %s, superpixels up to %d" % (("20x10", 8) if q else ("20x10", 8)), **kw),
            Harness("exposure", h_expose, es, bounds="small non-square images, all data, errors, backgrounds and masks symbolic; non-finite pixels placed", max_paths=2000, **kw)]
