"""C13 automatically generated bounds bracket the starting parameters."""
import types

import numpy as np

from vf.harness import Harness
from vf import scenes as Z
from vf import skystub

import forcepho.superscene as SS

B = ["F1", "F2"]
SHAPES = ["ra", "dec", "q", "pa", "sersic", "rhalf"]


def cat(I, n, dec=True, flux=(-8, 8)):
    c = I.zeros(n, SS.sourcecat_dtype(bands=list(B)))
    for i in range(n):
        c["source_index"][i] = i
        c["ra"][i] = I.real("ra%d" % i, 0, 360)
        c["dec"][i] = I.real("dec%d" % i, -80, 80) if dec else 1.0
        for f in ("q", "pa", "sersic", "rhalf"):
            c[f][i] = 0.5
        for b in B:
            c[b][i] = I.real("%s_%d" % (b, i), *flux)
    return c


def cosd(I, x):
    c = np.cos(np.deg2rad(x))
    if I.symbolic:
        I.assume_fact(c > 0.125)          # |dec| <= 80 deg
    return c


def h_make(I, n, unc, dpos):
    c = cat(I, n)
    orig = {f: [c[f][i] for i in range(n)] for f in c.dtype.names}
    cosdec = [cosd(I, c["dec"][i]) for i in range(n)]
    nsig = I.real("nsig", 0.125, 8)
    kw = dict(n_sig_flux=nsig)
    rng = {"sqrtq_range": (I.real("qlo", 0, 0.4), I.real("qhi", 0.5, 1)), "pa_range": (I.real("plo", -2, -1), I.real("phi", 1, 2)),
           "rhalf_range": (I.real("rlo", 0, 0.1), I.real("rhi", 0.25, 1)), "sersic_range": (I.real("slo", 0.5, 1), I.real("shi", 2, 6))}
    kw.update(rng)
    if unc:
        u = I.zeros(n, SS.sourcecat_dtype(bands=list(B)))
        for i in range(n):
            for b in B:
                u[b][i] = I.real("u%s_%d" % (b, i), 0.015625, 4)
        kw["unccat"] = u
    if dpos == "pix":
        kw.update(n_pix=I.real("npix", 0.5, 4), pixscale=I.real("scale", 0.015625, 0.25))
        w = [[kw["n_pix"] * kw["pixscale"]] * n] * 2
    elif dpos == "vec":
        d = [I.real("da", 0.015625, 2), I.real("dd", 0.015625, 2)]
        kw["dpos"] = I.array(d)
        w = [[d[0]] * n, [d[1]] * n]
    else:
        w = [[I.real("d%d_%d" % (k, i), 0.015625, 2) for i in range(n)] for k in range(2)]
        kw["dpos"] = I.array(w)
    b = SS.make_bounds(c, list(B), list(SHAPES), **kw)
    I.true(len(b) == n, "one row of bounds per source")
    for i in range(n):
        for f, k in (("q", "sqrtq_range"), ("pa", "pa_range"), ("rhalf", "rhalf_range"), ("sersic", "sersic_range")):
            I.eq(b[f][i][0], rng[k][0], "lower bound of %s is the requested one" % f)
            I.eq(b[f][i][1], rng[k][1], "upper bound of %s is the requested one" % f)
        for f, half in (("ra", w[0][i] / 3600.0 / cosdec[i]), ("dec", w[1][i] / 3600.0)):
            lo, hi, v = b[f][i][0], b[f][i][1], orig[f][i]
            I.eq(lo, v - half, "lower bound of %s is one half-width below" % f, rtol=1e-13, atol=1e-10)
            I.eq(hi, v + half, "upper bound of %s is one half-width above" % f, rtol=1e-13, atol=1e-10)
        for f in B:
            lo, hi, v = b[f][i][0], b[f][i][1], orig[f][i]
            I.lt(lo, v, "flux is above its lower bound", atol=0)
            I.lt(v, hi, "flux is below its upper bound", atol=0)
            I.lt(lo, hi, "lower flux bound below upper", atol=0)
            if unc:
                half = nsig * np.maximum(u[f][i], 0.05 * np.abs(v))
                I.eq(hi - v, half, "upper flux bound is n_sig_flux sigmas away")
                I.eq(v - lo, half, "lower flux bound is n_sig_flux sigmas away")
            else:
                I.lt(0.0, hi, "flux can be positive", atol=0)
    for f in orig:
        for i in range(n):
            I.eq(c[f][i], orig[f][i], "catalog is not modified")


def h_flux(I, n, span):
    f = I.reals("f", n, -span, span)
    u = I.real("u", 0.125, 8)
    lo, hi = SS.flux_bounds(f.copy() if hasattr(f, "copy") else f, u)
    for i in range(n):
        I.true(np.isfinite(lo[i]) & np.isfinite(hi[i]), "flux bounds are finite")
        I.lt(lo[i], f[i], "flux is above its lower bound", atol=0)
        I.lt(f[i], hi[i], "flux is below its upper bound", atol=0)
        I.lt(0.0, hi[i], "flux can be positive", atol=0)
        half = u * np.sqrt(np.abs(f[i]))
        I.le(f[i] + half, hi[i], "upper half-width at least that of the reference S/N", atol=1e-7)
        I.le(lo[i], f[i] - half, "lower half-width at least that of the reference S/N", atol=1e-7)
        # a flux well above the noise is bracketed symmetrically with exactly that half-width
        fm = (u / 2.0) ** 2
        wlo = np.where(f[i] > fm, f[i] - half, np.minimum(f[i] - half, -fm))
        I.eq(hi[i], np.maximum(f[i] + half, fm), "upper flux bound", rtol=1e-7, atol=1e-8)
        I.eq(lo[i], wlo, "lower flux bound", rtol=1e-7, atol=1e-8)


def h_missing(I, n, bad):
    """sources without a measured flux still get finite bounds, the others keep theirs"""
    f = [np.nan if i == bad else I.real("f%d" % i, -8, 8) for i in range(n)]
    u = 2.0
    lo, hi = SS.flux_bounds(I.array(f), u)
    good = [i for i in range(n) if i != bad]
    gl, gh = SS.flux_bounds(I.array([f[i] for i in good]), u)
    for k, i in enumerate(good):
        I.eq(lo[i], gl[k], "a missing flux leaves the other bounds alone")
        I.eq(hi[i], gh[k], "a missing flux leaves the other bounds alone")
    I.true(np.isfinite(lo[bad]) & np.isfinite(hi[bad]), "a missing flux has finite bounds")
    I.le(lo[bad], 0.0, "a missing flux can be zero", atol=0)
    for k in range(len(good)):
        I.le(gh[k], hi[bad], "a missing flux may be as large as any other", atol=0)


def h_prec(I, n):
    f = I.reals("f", n, -8, 8)
    u = I.real("u", 0.125, 8)
    snr = I.real("snr", 1, 20)
    a = [I.real("a%d" % i, 0.5, 4) for i in range(n)]
    if n == 1:
        P = I.array([[a[0]]])
        var = [1.0 / a[0]]
    else:
        r = I.real("r", -0.25, 0.25)
        P = I.array([[a[0], r], [r, a[1]]])
        d = a[0] * a[1] - r * r
        var = [a[1] / d, a[0] / d]
    lo, hi = SS.flux_bounds(f, u, snr_max=snr, precisions=P)
    for i in range(n):
        sig = np.maximum(np.sqrt(var[i]), f[i] / snr)
        I.lt(lo[i], f[i], "flux is above its lower bound", atol=0)
        I.lt(f[i], hi[i], "flux is below its upper bound", atol=0)
        I.lt(0.0, hi[i], "flux can be positive", atol=0)
        I.eq(lo[i], f[i] - u * sig, "lower flux bound is the requested number of sigmas away", rtol=1e-6, atol=1e-7)
        I.eq(hi[i], np.maximum(f[i] + u * sig, u * sig), "upper flux bound is the requested number of sigmas away", rtol=1e-6, atol=1e-7)


def bcat(I, n, names, tag="b", lo=(-3, 3), w=(0.25, 3)):
    dt = [("source_index", np.int32)] + [(c, np.float64, (2,)) for c in names]
    b = I.zeros(n, np.dtype(dt))
    for i in range(n):
        b["source_index"][i] = i
        for c in names:
            x = I.real("%slo_%s_%d" % (tag, c, i), *lo)
            b[c][i, 0] = x
            b[c][i, 1] = x + I.real("%sw_%s_%d" % (tag, c, i), *w)
    return b


def h_check(I, n, cols, via):
    b = bcat(I, n, cols)
    dt = [("source_index", np.int32), ("is_valid", np.int32)] + [(c, np.float64) for c in cols]
    c = I.zeros(n, np.dtype(dt))
    inside = True
    for i in range(n):
        c["source_index"][i] = i + 7
        for f in cols:
            v = I.real("v_%s_%d" % (f, i), -4, 7)
            c[f][i] = v
            inside = inside & (v > b[f][i, 0]) & (v < b[f][i, 1])
    try:
        if via == "method":
            s = SS.SuperScene.__new__(SS.SuperScene)
            s.sourcecat, s.bounds_catalog = c, b
            s.check_bounds()
        else:
            SS.check_bounds(c, b)
        ok = True
    except AssertionError:
        ok = False
    if ok:
        I.true(inside, "a catalog that passes is strictly inside its bounds")
    else:
        I.true(np.logical_not(inside), "a catalog that is rejected is not strictly inside its bounds")


def h_adjust(I, n, how, minflux, factor, eps):
    b = bcat(I, n, B + ["q"])
    dt = [("source_index", np.int32), ("q", np.float64)] + [(c, np.float64) for c in B]
    c = I.zeros(n, np.dtype(dt))
    for i in range(n):
        c["source_index"][i] = i
        for f in B:
            c[f][i] = I.real("v_%s_%d" % (f, i), -4, 7)
            if how == "db":
                I.assume(c[f][i] > b[f][i, 0])
                I.assume(c[f][i] < b[f][i, 1])
        c["q"][i] = b["q"][i, 0] + 0.0625
    b0 = {(f, i): (b[f][i, 0], b[f][i, 1]) for f in B + ["q"] for i in range(n)}
    v0 = {(f, i): c[f][i] for f in B + ["q"] for i in range(n)}
    mf = I.real("minflux", -4, 4) if minflux else None
    mx = I.real("factor", 0.25, 4) if factor else 0.0
    cfg = types.SimpleNamespace(minflux=mf, maxfluxfactor=mx)
    if how == "db":
        s = SS.SuperScene.__new__(SS.SuperScene)
        s.sourcecat, s.bounds_catalog = c, b
        out = SS.adjust_bounds(s, list(B), config=cfg)
        I.true(out is s, "returns the scene database")
    elif how == "config":
        out = SS.adjust_bounds(b, list(B), config=cfg, active=c, eps=eps)
        I.true(out is b, "returns the bounds")
    else:
        out = SS.adjust_bounds(b, list(B), active=c, eps=eps, minflux=mf, maxfluxfactor=mx,
                               config=types.SimpleNamespace(minflux=None, maxfluxfactor=0.0))
    for i in range(n):
        for f in B + ["q"]:
            lo, hi = b[f][i, 0], b[f][i, 1]
            I.le(lo, b0[f, i][0], "lower bound is only lowered", atol=0)
            I.le(b0[f, i][1], hi, "upper bound is only raised", atol=0)
            wl, wh = b0[f, i]
            if f in B:
                if mf is not None:
                    wl = np.minimum(wl, mf)
                if factor:
                    wh = np.maximum(wh, v0[f, i] * mx)
            I.eq(lo, wl, "lower bound is the smaller of the old one and minflux")
            I.eq(hi, wh, "upper bound is the larger of the old one and maxfluxfactor times the flux")
            if f in B:
                I.lt(lo, c[f][i], "adjusted flux is above its lower bound", atol=0)
                I.lt(c[f][i], hi, "adjusted flux is below its upper bound", atol=0)
                inside = (v0[f, i] > lo + eps) & (v0[f, i] < hi - eps)
                I.true(np.logical_not(inside) | (np.abs(c[f][i] - v0[f, i]) <= 1e-12), "a flux inside its bounds is kept")
            else:
                I.eq(c[f][i], v0[f, i], "other parameters are kept")


def h_ingest(I, n):
    """the scene database starts with bounds that pass its own check"""
    c = Z.catalog(I, n, bands=B, rh=(0.06, 0.25))
    for i in range(n):
        for b in B:
            c[b][i] = I.real("%s_%d" % (b, i), -8, 8)
        c["sersic"][i] = I.real("n%d" % i, 1.0625, 4.5)
        c["q"][i] = I.real("q%d" % i, 0.4375, 0.9375)
        c["pa"][i] = I.real("pa%d" % i, -1.75, 1.75)
    s = SS.SuperScene(sourcecat=c, bands=list(B), bounds_kwargs=dict(n_sig_flux=I.real("nsig", 0.125, 8)))
    try:
        s.check_bounds()
    except AssertionError as e:
        I.true(False, "starting parameters are strictly inside the starting bounds", str(e))
    lo, hi = SS.bounds_vectors(s.bounds_catalog, s.bands, s.shape_cols)
    I.true(len(lo) == n * 8 and len(hi) == n * 8, "one bound per parameter")
    I.lt(lo, hi, "lower bounds below upper bounds", atol=0)


def harnesses(tier):
    q = tier == "quick"
    ns = (1, 2) if q else (1, 2, 3)
    mk = [dict(n=n, unc=u, dpos=d) for n in ns for u in (False, True) for d in ("pix", "vec", "each")]
    fl = [dict(n=n, span=s) for n in ns for s in (4, 64)]
    pr = [dict(n=n) for n in (1, 2)]
    ck = [dict(n=n, cols=c, via=v) for n in ns for c in (["F1"], ["F1", "ra"]) for v in ("method", "func")]
    ad = [dict(n=n, how=h, minflux=m, factor=f, eps=e) for n in ns[:2] for h in ("db", "config", "args") for m in (0, 1) for f in (0, 1)
          for e in ((0.001,) if q else (0.001, 0.03125))]
    ing = [dict(n=n) for n in (1, 2)]
    kw = dict(functions=["superscene.make_bounds", "flux_bounds", "check_bounds", "adjust_bounds", "SuperScene.ingest", "bounds_vectors"])
    return [Harness("make_bounds", h_make, mk, bounds="1-%d sources, 2 bands, |dec|<=80 deg, |flux|<=8, all widths and ranges symbolic" % ns[-1], **kw),
            Harness("flux_bounds", h_flux, fl, bounds="|flux|<=64, half-width unit 1/8..8", **kw),
            Harness("missing", h_missing, [dict(n=2, bad=0), dict(n=3, bad=1)], bounds="one missing (NaN) flux among 2-3, half-width unit 2", **kw),
            Harness("precisions", h_prec, pr, bounds="1-2 sources, positive-definite precision", **kw),
            Harness("check_bounds", h_check, ck, bounds="1-%d sources, 1-2 columns" % ns[-1], **kw),
            Harness("adjust_bounds", h_adjust, ad, bounds="initial widths >= 1/4", max_paths=600, **kw),
            Harness("ingest", h_ingest, ing, stubs=skystub.STUBS, np_overrides=Z.NPO, bounds="1-2 sources near the equator (flat sky)", **kw)]
