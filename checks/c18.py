"""C18 subtracting fixed sources removes exactly their model, in any grouping."""
import numpy as np

from vf.harness import Harness
from vf import device as D

import forcepho.model as M
import forcepho.superscene as SS

TOL = dict(rtol=1e-5, atol=2e-4)


def rows(*cats):
    return [c[i] for c in cats if c is not None for i in range(len(c))]


def mk(I, n, bands, tag, first):
    """n None: no catalog; 0: an empty one"""
    return None if n is None else D.catalog(I, n, bands, tag, first)


def check_data(I, w, got, rws, label, scale=None):
    want = w.data_minus(rws, scale)
    I.true(len(got) == len(want), "every pixel is kept")
    for g, v in zip(got, want):
        I.eq(g, v, label, **TOL)


def scales(tables, *cats):
    return [D.SPLINES[t] for t, c in zip(tables, cats) if c is not None for i in range(len(c))]


def h_sub(I, dev, exps, bands, npsf, nfix, nbig, nact, maxactive, bigtable=None):
    with D.psfstore(I, bands, npsf) as name:
        w = D.World(I, dev, exps, bands, npsf, name)
        with w.running():
            w.build()
            fixed, big, active = mk(I, nfix, bands, "f", 0), mk(I, nbig, bands, "b", 20), mk(I, nact, bands, "a", 40)
            keep = [None if c is None else c.copy() for c in (fixed, big, active)]
            fixed0, big0, active0 = keep
            p = w.p
            kw = dict(swap_local=True) if nact is None else {}
            if bigtable:
                kw["big_scene_kwargs"] = dict(splinedata=bigtable)
            tb = ("std", bigtable or "std", "std")
            prop, scene = p.subtract_fixed(fixed, active=active, big=big, maxactive=maxactive, **kw)
            check_data(I, w, p.retrieve_array("data"), rows(fixed0, big0), "the data are the original data minus the model of all fixed and big sources", scales(tb, fixed0, big0))
            cats = active0 if nact is not None else last_block(fixed0, big0, maxactive)
            ref = p.patch_reference_coordinates
            I.true(len(scene.sources) == len(cats) and int(p.n_sources) == len(cats), "the patch is set up for the returned scene")
            for s, r in zip(scene.sources, rows(cats)):
                I.eq(s.ra + ref[0], r["ra"], "coordinates are referenced once", **TOL)
                I.eq(s.dec + ref[1], r["dec"], "coordinates are referenced once", **TOL)
            # the patch on the device is ready to evaluate that scene
            p.return_residual = True
            out = prop.evaluate_proposal(scene.get_proposal(), patch=p)
            flat = [v for r in out[2] for v in r]
            check_data(I, w, flat, rows(fixed0, big0, cats), "a proposal for the scene is evaluated against the subtracted data", scales(tb, fixed0, big0, cats) if nact is not None else None)
            check_data(I, w, p.retrieve_array("data"), rows(fixed0, big0), "evaluating leaves the subtracted data alone", scales(tb, fixed0, big0))
            for c, k in ((fixed, fixed0), (big, big0), (active, active0)):
                if c is not None:
                    same_catalog(I, c, k)
            p.free()


def same_catalog(I, a, b):
    for n in ("ra", "dec"):
        for i in range(len(a)):
            I.eq(a[n][i], b[n][i], "the catalogs are left alone")


def last_block(fixed, big, m):
    c = fixed if fixed is not None and len(fixed) else big
    k = (len(c) - 1) // m * m
    return c[k:]


SH = ["ra", "dec", "q", "pa", "sersic", "rhalf"]


def make_bounds(I, active, bands, t):
    dt = np.dtype([("source_index", np.int32)] + [(c, np.float64, (2,)) for c in list(bands) + SH])
    b = I.zeros(len(active), dt)
    for s in range(len(active)):
        for c in list(bands) + SH:
            v = active[c][s]
            b[c][s][0] = v - I.real("bl_%s%d_%d" % (c, s, t), 0.25, 1)
            b[c][s][1] = v + I.real("bh_%s%d_%d" % (c, s, t), 0.25, 1)
    return b


def h_prepare(I, dev, exps, bands, npsf, nfix, nact, times, bnd=False):
    """prepare_model: the model, its starting vector and bounds"""
    with D.psfstore(I, bands, npsf) as name:
        w = D.World(I, dev, exps, bands, npsf, name)
        with w.running():
            fixed, active = mk(I, nfix, bands, "f", 0), mk(I, nact, bands, "a", 40)
            for t in range(times):
                # building the patch anew starts again from the image data
                w.build()
                p = w.p
                bounds = make_bounds(I, active, bands, t) if bnd else None
                model, q = p.prepare_model(active=active, fixed=fixed, maxactive=max(2, nact), bounds=bounds)
                I.true(model.patch is p and not p.return_residual, "the model evaluates this patch")
                ref = p.patch_reference_coordinates
                nb = len(w.used)
                I.true(len(q) == nact * (nb + 6), "one entry per parameter of the active sources")
                for s in range(nact):
                    k = s * (nb + 6)
                    for j, c in enumerate(w.used):
                        I.eq(q[k + j], active[c][s], "the starting vector holds the catalog fluxes", **TOL)
                    I.eq(q[k + nb] + ref[0], active["ra"][s], "the starting vector holds the offset coordinates", **TOL)
                    I.eq(q[k + nb + 1] + ref[1], active["dec"][s], "the starting vector holds the offset coordinates", **TOL)
                if bnd:
                    z = I.reals("zb", len(q), -4, 4)
                    qq = model.transform.transform(z)
                    I.le(bounds[w.used[0]][0][0], qq[0], "the model stays within the bounds", atol=1e-4)
                    I.le(qq[0], bounds[w.used[0]][0][1], "the model stays within the bounds", atol=1e-4)
                    if not hasattr(model.transform, "lower"):
                        raise NotImplementedError("bounds are not kept in the transform")
                    lo, hi = model.transform.lower, model.transform.upper
                    I.true(len(lo) == len(q) and len(hi) == len(q), "one pair of bounds per parameter")
                    for s in range(nact):
                        for j, c in enumerate(list(w.used) + SH):
                            off = ref[SH.index(c)] if c in SH[:2] else 0.0
                            k = s * (nb + 6) + j
                            I.eq(lo[k] + off, bounds[c][s][0], "the lower bound of each parameter is its own", **TOL)
                            I.eq(hi[k] + off, bounds[c][s][1], "the upper bound of each parameter is its own", **TOL)
                else:
                    z = I.reals("zz", len(q), -1, 1)
                    I.eq(model.transform.transform(z), z, "without bounds there is no transform", **TOL)
                check_data(I, w, p.retrieve_array("data"), rows(fixed), "the data are the original data minus the fixed sources")
                p.return_residual = True
                out = model.proposer.evaluate_proposal(model.scene.get_proposal(), patch=p)
                flat = [v for r in out[2] for v in r]
                check_data(I, w, flat, rows(fixed, active), "the model's residual is data minus fixed and active sources")
                p.return_residual = False


def h_render(I, dev, exps, bands, npsf, ncat, before, table=None):
    """render gives the model images of a catalog, whatever the data"""
    with D.psfstore(I, bands, npsf) as name:
        w = D.World(I, dev, exps, bands, npsf, name)
        with w.running():
            w.build()
            p = w.p
            fixed = D.catalog(I, 2, bands, "f", 0)
            if before:
                p.subtract_fixed(fixed, active=D.catalog(I, 1, bands, "a", 40), maxactive=1)
                d0 = list(p.retrieve_array("data"))
            rr = p.return_residual
            cat = D.catalog(I, ncat, bands, "c", 60)
            ims = p.render(cat, splinedata=table) if table else p.render(cat)
            I.true(p.return_residual == rr, "the residual setting is left as it was")
            I.true(len(ims) == len(w.order), "one image per exposure")
            for im, (e, b, m) in zip(ims, w.order):
                I.true(len(im) == m, "one value per pixel")
                for k in range(m):
                    v = 0.0
                    for r in rows(cat):
                        v = v + w.model(r, e, k, scale=D.SPLINES[table or "std"])
                    I.eq(im[k], v, "the rendered image is the model of the catalog", **TOL)
            if before:
                for g, v in zip(p.retrieve_array("data"), d0):
                    I.eq(g, v, "rendering leaves the data alone", **TOL)


L1 = dict(exps=[("e1", "A", 2)], bands=["A"], npsf=[2])
L2 = dict(exps=[("e2", "B", 1), ("e1", "A", 2), ("e3", "B", 2)], bands=["A", "B"], npsf=[1, 3])


def harnesses(tier):
    q = tier == "quick"
    subs = []
    for dev in ("cpu", "gpu"):
        for L in (L1, L2):
            for nfix, nbig, nact, mx in ((None, None, 1, 15), (1, None, 1, 15), (2, None, 1, 15), (2, None, 2, 1), (3, None, 1, 2), (3, None, 2, 1),
                                         (4, None, 1, 2), (None, 1, 1, 15), (None, 3, 1, 2), (1, 1, 1, 15), (3, 2, 2, 1), (3, 3, 1, 2), (0, None, 1, 15),
                                         (2, 0, 1, 1), (1, None, None, 15), (3, None, None, 2), (2, 1, None, 1), (None, 2, None, 1)):
                if q and L is L2 and dev == "gpu" and (nfix, nbig, mx) in ((1, None, 15), (4, None, 2), (None, 1, 15), (3, None, 2)):
                    continue
                subs.append(dict(L, dev=dev, nfix=nfix, nbig=nbig, nact=nact, maxactive=mx))
    subs += [dict(L2, dev="cpu", nfix=1, nbig=3, nact=1, maxactive=2, bigtable="large"), dict(L1, dev="gpu", nfix=2, nbig=1, nact=2, maxactive=1, bigtable="large"),
             dict(L1, dev="cpu", nfix=None, nbig=1, nact=1, maxactive=15, bigtable="large")]
    # more sources than one batch of the default size, and many batches
    subs += [dict(L1, dev="cpu", nfix=17, nbig=None, nact=1, maxactive=15), dict(L1, dev="cpu", nfix=11, nbig=9, nact=3, maxactive=4), dict(L2, dev="gpu", nfix=8, nbig=7, nact=1, maxactive=7)]
    prep = [dict(L, dev=d, nfix=nf, nact=na, times=t) for L in (L1, L2) for d in ("cpu", "gpu") for nf, na, t in ((None, 1, 1), (1, 2, 1), (3, 1, 2), (0, 2, 1))]
    prep += [dict(L, dev="cpu", nfix=nf, nact=na, times=t, bnd=True) for L in (L1, L2) for nf, na, t in ((None, 1, 1), (1, 2, 1), (1, 1, 2), (1, 3, 1), (0, 6, 1))]
    ren = [dict(L, dev=d, ncat=n, before=b) for L in (L1, L2) for d in ("cpu", "gpu") for n, b in ((1, 0), (2, 1))]
    ren += [dict(L, dev=d, ncat=2, before=b, table="large") for L, d, b in ((L1, "cpu", 0), (L2, "gpu", 1))]
    kw = dict(stubs=D.STUBS, validate=1)
    return [
        Harness("subtract", h_sub, subs, functions=["DevicePatchMixin.subtract_fixed", "CPUPatchMixin/GPUPatchMixin.send_to_device/swap_on_device/replace_device_meta_ptrs/send_patchstruct_to_device/retrieve_array", "PixelPatch.build_patch", "Patch.pack_meta", "Scene.get_proposal"],
                bounds="up to 4 fixed, 3 big and 2 active sources in batches of 1, 2, 15, and three cases with 8-17 fixed and 7-9 big ones; a spline table of their own for the big ones; 1-3 exposures in 1-2 bands; symbolic pixel data and fluxes; emulated CPU and GPU memory", **kw),
        Harness("prepare", h_prepare, prep, functions=["DevicePatchMixin.prepare_model"], bounds="as subtract; patch rebuilt and prepared twice", **kw),
        Harness("render", h_render, ren, functions=["DevicePatchMixin.render"], bounds="1-2 sources, before and after a subtraction", **kw),
    ]
