"""C12 chains and bounds follow the scene's parameter order and sky frame."""
import types

import numpy as np

from vf.harness import Harness
from vf import fmodel as FM

import forcepho.sources as FS
import forcepho.superscene as SS
import forcepho.fitting as FT
import forcepho.utils.chain as CH
import forcepho.utils.catalog as CT
from forcepho.patches.patch import Patch

SH = ["ra", "dec", "q", "pa", "sersic", "rhalf"]
CATB = ["F1", "F2", "F3"]       # bands of the master catalog


def active(I, n, ids, bands=CATB):
    c = I.zeros(n, SS.sourcecat_dtype(bands=list(bands)))
    for i in range(n):
        c["id"][i] = 100 + 7 * i
        c["source_index"][i] = ids[i]
        c["n_iter"][i] = 3 + i
        c["is_active"][i] = 1
        for k, f in enumerate(list(bands) + SH):
            c[f][i] = I.real("a_%s_%d" % (f, i), -4, 4)
    return c


def scene_of(I, n, bands):
    """the real scene's own ordering of a vector"""
    return FS.Scene([FM.galaxy(bands, I.array([0.25]), FM.concrete_splines(1)) for _ in range(n)])


def slot(I, n, bands, row):
    sc = scene_of(I, n, bands)
    sc.set_all_source_params(I.array(row))
    out = {}
    for s, g in enumerate(sc.sources):
        for b, f in enumerate(bands):
            out[s, f] = g.flux[b]
        for f in SH:
            out[s, f] = getattr(g, f)
    return out


def h_chain(I, n, bands, niter, ids, how):
    npar = len(bands) + 6
    act = active(I, n, ids)
    orig = {f: [act[f][i] for i in range(n)] for f in act.dtype.names}
    chain = I.array([[I.real("c%d_%d" % (t, k), -5, 5) for k in range(n * npar)] for t in range(niter)])
    rows = [[chain[t, k] for k in range(n * npar)] for t in range(niter)]
    want = [slot(I, n, bands, rows[t]) for t in range(niter)]
    ref = [I.real("ra0", 0, 360), I.real("dec0", -90, 90)]
    off = {"ra": ref[0], "dec": ref[1]}
    if how == "func":
        cc = CH.make_chaincat(chain, list(bands), act, I.array(ref))
        sample = lambda t: CH.get_sample_cat(cc, t, act)
    else:
        patch = types.SimpleNamespace(bandlist=list(bands), patch_reference_coordinates=I.array(ref), npix=1, epaths=["e1"])
        src = types.SimpleNamespace(SHAPE_COLS=list(SH))
        model = types.SimpleNamespace(patch=patch, scene=types.SimpleNamespace(sources=[src]), ncall=2)
        r = FT.Result()
        r.chain = chain
        final, cov = r.fill(types.SimpleNamespace(ra=10.0, dec=1.0, radius=0.5), act, None, model)
        cc = r.chaincat
        sample = r.get_sample_cat
        I.true(cov is None, "no covariance without a step")
        for i in range(n):
            for f in list(bands) + SH:
                I.eq(final[f][i], want[-1][i, f] + off.get(f, 0.0), "final catalog is the last sample")
        if how == "reread":
            # as read back from disk: names are bytes, no structured chain
            del r.chaincat
            r.ra, r.dec, r.radius = 10.0, 1.0, 0.5
            r._reconstruct()
            cc = r.chaincat
            I.true(list(r.bands) == list(bands) and list(r.shape_cols) == SH, "band and shape names survive")
        if niter > 1:
            best = I.real("lnp0", -5, 5)
            lnp = [best] + [I.real("lnp%d" % t, -5, 5) for t in range(1, niter)]
            r.stats = {"model_logp": I.array(lnp)}
            r.n_tune = 1
            m = r.get_map(structured=True)
            v = r.get_map()
            for t in range(niter):
                top = True
                for u in range(niter):
                    if u != t:
                        top = top & (lnp[t] > lnp[u])
                same = True
                for i in range(n):
                    for f in list(bands) + SH:
                        same = same & (np.abs(m[f][i] - want[t][i, f] - off.get(f, 0.0)) <= 1e-9)
                for k in range(n * npar):
                    same = same & (np.abs(v[0, k] - rows[t][k]) <= 1e-12)
                I.true(np.logical_not(top) | same, "the best sample is the one of highest probability")
    I.true(len(cc) == n, "one row per source")
    for i in range(n):
        I.eq(cc["source_index"][i], ids[i], "chain row belongs to its source")
        for f in list(bands) + SH:
            for t in range(niter):
                I.eq(cc[f][i][t], want[t][i, f] + off.get(f, 0.0), "chain column %s of source and iteration" % f)
    for t in list(range(niter)) + [-1]:
        s = sample(t)
        I.true(len(s) == n, "one row per source in a sample")
        for i in range(n):
            for f in act.dtype.names:
                if f in bands or f in SH:
                    w = want[t][i, f] + off.get(f, 0.0)
                else:
                    w = orig[f][i]
                I.eq(s[f][i], w, "sample column %s" % f)
    for t in range(niter):
        for k in range(n * npar):
            I.eq(chain[t, k], rows[t][k], "the chain itself is not modified")
    for f in orig:
        for i in range(n):
            I.eq(act[f][i], orig[f][i], "the starting catalog is not modified")


def h_bounds(I, n, bands, refsel):
    dt = np.dtype([("source_index", np.int32)] + [(c, np.float64, (2,)) for c in list(CATB) + SH])
    b = I.zeros(n, dt)
    for i in range(n):
        for f in list(CATB) + SH:
            b[f][i, 0] = I.real("lo_%s_%d" % (f, i), -5, 0)
            b[f][i, 1] = I.real("hi_%s_%d" % (f, i), 1, 5)
    orig = {(f, i, e): b[f][i, e] for f in list(CATB) + SH for i in range(n) for e in range(2)}
    kw, ref = {}, [0.0, 0.0]
    if refsel:
        ref = [I.real("ra0", 0, 360), I.real("dec0", -90, 90)]
        kw["reference_coordinates"] = I.array(ref)
    out = SS.bounds_vectors(b, list(bands), shapenames=list(SH), **kw)
    off = {"ra": ref[0], "dec": ref[1]}
    for e in range(2):
        I.true(len(out[e]) == n * (len(bands) + 6), "one bound per parameter")
        got = slot(I, n, bands, [out[e][k] for k in range(len(out[e]))])
        for i in range(n):
            for f in list(bands) + SH:
                I.eq(got[i, f], orig[f, i, e] - off.get(f, 0.0), "%s bound lands in the slot of %s of its source" % (("lower", "upper")[e], f))
    for k in orig:
        I.eq(b[k[0]][k[1], k[2]], orig[k], "the bounds catalog is not modified")


def h_zero(I, n, how):
    sc = scene_of(I, n, ["F1"])
    pos = []
    for s, g in enumerate(sc.sources):
        p = [I.real("ra%d" % s, 0, 360), I.real("dec%d" % s, -90, 90)]
        g.set_params(I.array([1.0 + s] + p + [0.5, 0.25, 1.0, 0.125]))
        pos.append(p)
    P = Patch.__new__(Patch)
    P.patch_reference_coordinates = np.zeros(2)
    z = [I.real("z0", 0, 360), I.real("z1", -90, 90)]
    if how == "given":
        ref = P.zerocoords(sc, sky_zero=I.array(z))
        for k in range(2):
            I.eq(ref[k], z[k], "reference coordinates are the given ones")
    else:
        ref = P.zerocoords(sc)
        for k in range(2):
            lo, hi = pos[0][k], pos[0][k]
            for p in pos[1:]:
                lo, hi = np.minimum(lo, p[k]), np.maximum(hi, p[k])
            I.le(lo, ref[k], "reference coordinates are within the scene", atol=1e-9)
            I.le(ref[k], hi, "reference coordinates are within the scene", atol=1e-9)
    for k in range(2):
        I.eq(P.patch_reference_coordinates[k], ref[k], "reference coordinates are recorded")
    for s, g in enumerate(sc.sources):
        for k, f in enumerate(("ra", "dec")):
            I.eq(getattr(g, f), pos[s][k] - ref[k], "source coordinates are offsets from the reference")
        I.eq(g.flux[0], 1.0 + s, "fluxes are untouched")
        I.eq(g.pa, 0.25, "shapes are untouched")
    P.unzerocoords(sc)
    for s, g in enumerate(sc.sources):
        for k, f in enumerate(("ra", "dec")):
            I.eq(getattr(g, f), pos[s][k], "coordinates survive zeroing and restoring")


def h_combine(I, n, niter, groups):
    bands = ["F1", "F2"]
    dt = np.dtype([("id", "U10")] + [(c, np.float64, (niter,)) for c in bands + SH])
    if I.symbolic:
        dt = np.dtype([("id", object)] + [(c, object, (niter,)) for c in bands + SH])
        from vf import symnp
        c = np.zeros(n, dt).view(symnp.SArr) if hasattr(symnp, "SArr") else I.zeros(n, dt)
    else:
        c = I.zeros(n, dt)
    for i in range(n):
        c["id"][i] = str(10 + i)
        for f in bands + SH:
            for t in range(niter):
                c[f][i, t] = I.real("%s_%d_%d" % (f, i, t), -4, 4)
    g = {str(900 + k): [10 + i for i in sub] for k, sub in enumerate(groups)}
    out, hdr = CT.combine_chains(c, list(bands), g)
    I.true(len(out) == len(groups), "one row per combined object")
    for k, sub in enumerate(groups):
        for t in range(niter):
            for f in bands:
                w = 0.0
                for i in sub:
                    w = w + c[f][i, t]
                I.eq(out[f][k][t], w, "combined flux is the sum of the members' at each sample")
            for f in ("ra", "dec"):
                w = 0.0
                for i in sub:
                    w = w + c[f][i, t]
                I.eq(out[f][k][t], w / len(sub), "combined position is the mean of the members'")


def harnesses(tier):
    q = tier == "quick"
    cs = []
    for n, ids in ((1, [4]), (2, [7, 2]), (3, [5, 0, 3])) + (() if q else ((4, [9, 1, 8, 3]), (6, [5, 4, 3, 2, 1, 0]))):
        for bands in (["F1"], ["F2", "F1"], ["F3", "F1", "F2"]):
            for niter in ((1, 3) if q else (1, 3, 6)):
                for how in ("func", "result", "reread"):
                    if niter == n * 0 + 6 and n > 3:
                        continue
                    cs.append(dict(n=n, bands=bands, niter=niter, ids=ids, how=how))
    cs += [dict(n=17, bands=["F3", "F1", "F2"], niter=m, ids=[31 - k if k % 2 else k for k in range(17)], how=h) for h, m in (("func", 12), ("result", 2), ("reread", 1))]
    cs += [dict(n=7, bands=["F1"], niter=2, ids=[3, 1, 8, 0, 5, 9, 4], how=h) for h in ("func", "result")]
    cs += [dict(n=8, bands=["F2", "F1"], niter=8, ids=[3, 1, 8, 0, 5, 9, 4, 7], how="func")]
    bs = [dict(n=n, bands=b, refsel=r) for n in ((1, 2, 3) if q else (1, 2, 3, 5)) for b in (["F1"], ["F2", "F1"], ["F3", "F1", "F2"]) for r in (0, 1)]
    bs += [dict(n=17, bands=["F3", "F1", "F2"], refsel=0)]
    zs = [dict(n=n, how=h) for n in ((1, 2, 3) if q else (1, 2, 3, 4)) for h in ("given", "median")]
    zs += [dict(n=17, how="given")]
    gs = [dict(n=3, niter=2, groups=g) for g in ([[0, 2]], [[2, 0], [1]], [[0, 1, 2]])]
    kw = dict(functions=["utils.chain.make_chaincat/get_sample_cat", "fitting.Result.fill/get_sample_cat/get_map/_reconstruct", "superscene.bounds_vectors",
                         "Patch.zerocoords/unzerocoords", "utils.catalog.combine_chains", "Scene.set_all_source_params"], validate=1)
    return [Harness("chain", h_chain, cs, bounds="up to %d sources (some cases 17 and 12 iterations), 3 bands in any order, %d iterations; every value symbolic" % ((3, 3) if q else (6, 6)), **kw),
            Harness("bounds", h_bounds, bs, bounds="up to %d (one case 17) sources, band subsets and orders" % (3 if q else 5), **kw),
            Harness("zerocoords", h_zero, zs, bounds="up to 4 sources", **kw),
            Harness("combine", h_combine, gs, bounds="3 sources, 2 samples", **kw)]
