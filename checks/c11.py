"""C11 scene vector, sources, catalog export and kernel proposal agree."""
import itertools
import warnings

import numpy as np

from vf.harness import Harness
from vf import fmodel as FM
from vf.wcsstub import sub

import forcepho.sources as FS

ALL = ["F1", "F2", "F3"]
SH = ["ra", "dec", "q", "pa", "sersic", "rhalf"]


def galaxies(I, nsrc, orders, fixed, nrad, sym_spline=False, span=None):
    out = []
    radii = I.array([0.25 * (r + 1) for r in range(nrad)]) if not sym_spline else I.reals("rad", nrad, 0.125, 4)
    for s in range(nsrc):
        if sym_spline:
            spl = [FM.Spline([I.real("sp%d_%d_%d" % (s, r, k), -2, 2) for k in range(4)]) for r in range(nrad)]
        else:
            spl = [FM.Spline([0.5 + r + s, 0.25 * (r + 1), -0.125 * (r + 2), 0.0625]) for r in range(nrad)]
        g = FM.galaxy(orders[s % len(orders)], radii, spl)
        g.fixed = bool(fixed[s]) if fixed else False
        out.append(g)
    return out


def vec(I, nb, s, nshape=6, lo=0.625, hi=3):
    v = [I.real("t%d_f%d" % (s, b), -5, 5) for b in range(nb)]
    v += [I.real("t%d_%s" % (s, c), *((lo, hi) if c in ("sersic", "rhalf", "q") else (-5, 5))) for c in SH[:nshape]]
    return v


def attrs(I, src, want, fl, cols, who):
    for b in range(len(fl)):
        I.eq(src.flux[b], want[b], "flux of band %d of the %s source" % (b, who))
    for k, c in enumerate(cols):
        I.eq(getattr(src, c), want[len(fl) + k], "%s of the %s source" % (c, who))


def h_scene(I, nsrc, orders, fixed, nrad):
    srcs = galaxies(I, nsrc, orders, fixed, nrad)
    sc = FS.Scene(srcs)
    I.true([s.id for s in sc.sources] == list(range(nsrc)), "each source gets its own id")
    act = [s for s in range(nsrc) if not (fixed and fixed[s])]
    old = {}
    for s in range(nsrc):
        if s not in act:
            old[s] = [0.5 + s + k for k in range(srcs[s].n_params)]
            srcs[s].set_params(np.array(old[s]))
    vs = {s: vec(I, srcs[s].n_bands, s) for s in act}
    theta = I.array([x for s in act for x in vs[s]])
    keep = [theta[k] for k in range(len(theta))]
    sc.set_all_source_params(theta)
    for s in range(nsrc):
        attrs(I, srcs[s], vs[s] if s in act else old[s], srcs[s].filternames, SH, "same" if s in act else "fixed")
    back = sc.get_all_source_params()
    I.true(len(back) == len(keep), "vector length")
    for k in range(len(keep)):
        I.eq(back[k], keep[k], "vector read back is the vector set")
        I.eq(theta[k], keep[k], "the given vector is not modified")
    # later changes of the vector, or of the returned one, do not leak into the scene
    theta[0] = 99.0
    back[len(back) - 1] = -99.0
    again = sc.get_all_source_params()
    for k in range(len(keep)):
        I.eq(again[k], keep[k], "sources keep their own values")
    everything = sc.get_all_source_params(active=False)
    want = [x for s in range(nsrc) for x in (vs[s] if s in act else old[s])]
    I.true(len(everything) == len(want), "length of the vector of all sources")
    for k in range(len(want)):
        I.eq(everything[k], want[k], "vector of all sources, fixed ones included, in scene order")
    # names follow the same order
    if not any(fixed or []):
        names = list(sc.parameter_names)
        want = ["%s_%d" % (n, s) for s in act for n in list(srcs[s].filternames) + SH]
        I.true(names == want, "parameter names follow the vector")
    # index bookkeeping
    start = 0
    for s in range(nsrc):
        if s not in act:
            continue
        nb = srcs[s].n_bands
        for b, f in enumerate(srcs[s].filternames):
            inds = [int(i) for i in sc.param_indices(s, f)]
            I.true(inds == [start + b] + list(range(start + nb, start + nb + 6)), "param_indices point at this source's flux in the band and its shapes")
        inds = [int(i) for i in sc.param_indices(s)]
        I.true(inds == list(range(start, start + nb + 6)), "param_indices without filter cover the source")
        start += nb + 6
    # kernel proposal
    pr = sc.get_proposal()
    I.true(len(pr) == len(act), "one proposal row per active source")
    for k, s in enumerate(act):
        nb = srcs[s].n_bands
        for b in range(nb):
            I.eq(pr["fluxes"][k, b], vs[s][b], "proposal flux slot")
        for c, f in zip(SH, FM.PN):
            I.eq(pr[f][k], vs[s][nb + SH.index(c)], "proposal %s" % f)
        n, r = vs[s][nb + 4], vs[s][nb + 5]
        for g in range(nrad):
            sp = srcs[s].splines[g]
            I.eq(pr["mixture_amplitudes"][k, g], sp.val(n, r), "proposal amplitudes are the source's own splines at its sersic and rhalf")
            I.eq(pr["damplitude_dnsersic"][k, g], sp.dn(n, r), "amplitude derivative with sersic index")
            I.eq(pr["damplitude_drh"][k, g], sp.dr(n, r), "amplitude derivative with rhalf")
    # catalog
    if len({tuple(s.filternames) for s in srcs}) == 1:
        cat = sc.to_catalog()
        I.true(len(cat) == nsrc, "one catalog row per source")
        for s in range(nsrc):
            w = vs[s] if s in act else old[s]
            for b, f in enumerate(srcs[s].filternames):
                I.eq(cat[f][s], w[b], "catalog flux column")
            for c in SH:
                I.eq(cat[c][s], w[srcs[s].n_bands + SH.index(c)], "catalog column %s" % c)
            I.eq(cat["id"][s], s, "catalog id")
        new = FS.Scene(catalog=cat, filternames=list(srcs[0].filternames),
                       source_type=lambda filternames: FM.galaxy(filternames, srcs[0].radii, srcs[0].splines))
        for s in range(nsrc):
            attrs(I, new.sources[s], vs[s] if s in act else old[s], srcs[s].filternames, SH, "re-read")


def h_amps(I, nrad, region):
    g = galaxies(I, 1, [ALL[:1]], None, nrad, sym_spline=True)[0]
    g.sersic_range = (I.real("nmin", 0.5, 1), 6.0)
    n = I.real("n", 0, 6)
    r = I.real("r", -1, 4)
    if region == "inside":
        I.assume(n >= g.sersic_range[0])
        I.assume(r >= 0)
    elif region == "lown":
        I.assume(n < g.sersic_range[0])
    else:
        I.assume(n >= g.sersic_range[0])
        I.assume(r < 0)
    g.set_params(I.array([1.0, 0.0, 0.0, 0.5, 0.25, n, r]))
    pr = g.proposal()
    a = [pr["mixture_amplitudes"][0, k] for k in range(nrad)]
    dn = [pr["damplitude_dnsersic"][0, k] for k in range(nrad)]
    dr = [pr["damplitude_drh"][0, k] for k in range(nrad)]
    for k in range(nrad):
        if region == "inside":
            I.eq(a[k], g.splines[k].val(n, r), "amplitude is the spline value")
            I.eq(dn[k], g.splines[k].dn(n, r), "derivative with sersic index")
            I.eq(dr[k], g.splines[k].dr(n, r), "derivative with rhalf")
        else:
            I.eq(dn[k], 0.0, "constant amplitudes have no derivative")
            I.eq(dr[k], 0.0, "constant amplitudes have no derivative")
            I.true((np.abs(a[k]) < 1e-9) | (np.abs(a[k] - 1) < 1e-9), "point-like amplitudes are 0 or 1")
    if region != "inside":
        tot = a[0]
        for k in range(1, nrad):
            tot = tot + a[k]
        I.eq(tot, 1.0, "exactly one component is used below the table")
        for k in range(nrad):
            if region == "lown":
                near = True
                for j in range(nrad):
                    near = near & (np.abs(r - g.radii[k]) <= np.abs(r - g.radii[j]) + 1e-9)
                I.true((np.abs(a[k]) < 1e-9) | near, "the component used is the nearest in radius")
            else:
                I.eq(a[k], 1.0 if k == 0 else 0.0, "the first component is used for negative radius")


def h_single(I, kind, nb, which):
    """one-filter and all-filter access of every kind of source"""
    bands = ALL[:nb]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "star":
            g, cols = FS.Star(list(bands)), ["ra", "dec"]
        elif kind == "simple":
            g, cols = FS.SimpleGalaxy(list(bands)), ["ra", "dec", "q", "pa"]
        elif kind == "galaxy":
            g, cols = FS.Galaxy(filternames=list(bands)), SH
        elif kind == "galaxy4":
            g, cols = FS.Galaxy(filternames=list(bands), free_sersic=False), SH[:4]
        else:
            g, cols = FS.ConformalShearGalaxy(filternames=list(bands)), ["ra", "dec", "ep", "ec", "sersic", "rhalf"]
    I.true(g.n_params == nb + len(cols), "number of parameters")
    v = [I.real("f%d" % b, -5, 5) for b in range(nb)] + [I.real(c, 0.25, 5) for c in cols]
    given = I.array(v)
    g.set_params(given)
    given[0] = 77.0
    attrs(I, g, v, bands, cols, kind)
    for absent in ("Z9", "F"):
        try:
            g.get_param_vector(filtername=absent)
            I.true(False, "a filter the source does not have is refused")
        except (ValueError, IndexError, KeyError, AssertionError):
            pass
    p = g.get_param_vector()
    I.true(len(p) == len(v), "length of the parameter vector")
    for k in range(len(v)):
        I.eq(p[k], v[k], "parameter vector round trip (%s)" % kind)
    f = bands[which]
    p1 = g.get_param_vector(filtername=f)
    I.true(len(p1) == 1 + len(cols), "one-filter vector length")
    I.eq(p1[0], v[which], "one-filter vector has that filter's flux")
    for k in range(len(cols)):
        I.eq(p1[1 + k], v[nb + k], "one-filter vector has the shapes")
    w = [I.real("g", -5, 5)] + [I.real("n_" + c, 0.25, 5) for c in cols]
    g.set_params(I.array(w), filtername=f)
    for b in range(nb):
        I.eq(g.flux[b], w[0] if b == which else v[b], "only the named filter's flux changes")
    for k, c in enumerate(cols):
        I.eq(getattr(g, c), w[1 + k], "shape %s set with one filter" % c)
    for bad in (len(v) - 1, len(v) + 1):
        try:
            g.set_params(I.array((v + [1.0])[:bad]))
            I.true(False, "a vector of the wrong length is refused")
        except AssertionError:
            pass
    row = g.to_catalog_row()
    for b, name in enumerate(bands):
        I.eq(row[0][name], w[0] if b == which else v[b], "catalog row flux")
    for k, c in enumerate(cols):
        I.eq(row[0][c], w[1 + k], "catalog row %s" % c)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        h = type(g)(list(bands)) if kind in ("star", "simple") else type(g)(filternames=list(bands), free_sersic=(kind != "galaxy4"))
    h.from_catalog_row(row[0])
    if nb > 1:
        # only the requested filters, in the requested order
        sel = [bands[-1], bands[0]]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h2 = type(g)(list(bands)) if kind in ("star", "simple") else type(g)(filternames=list(bands), free_sersic=(kind != "galaxy4"))
        h2.from_catalog_row(row[0], filternames=list(sel), extra_parameters=[bands[1]])
        I.true(len(h2.flux) == 2 and list(h2.filternames) == sel, "the requested filters")
        for j, b in enumerate(sel):
            I.eq(h2.flux[j], row[0][b], "flux of the requested filter")
        I.eq(getattr(h2, bands[1]), row[0][bands[1]], "extra parameters are set from their column")
    p2, p3 = g.get_param_vector(), h.get_param_vector()
    for k in range(len(v)):
        I.eq(p3[k], p2[k], "catalog row round trip (%s)" % kind)


class Table:
    """stands for the hdf5 spline file"""
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        return self.d

    def __exit__(self, *a):
        return False


class Scatter:
    """stands for SmoothBivariateSpline: exact at its points"""
    def __init__(self, x, y, z, s=None, **k):
        self.at = {(float(a), float(b)): v for a, b, v in zip(x, y, z)}

    def __call__(self, a, b, dx=0, dy=0, grid=True):
        v = self.at[float(a), float(b)] if not (dx or dy) else 0.0
        from vf import symnp
        return symnp.sarr([[v]]) if symnp.has_sym(v) else np.array([[v]])


class Grid:
    """stands for RectBivariateSpline: interpolates, so exact at the nodes"""
    def __init__(self, x, y, z, s=None, **k):
        self.x, self.y, self.z = x, y, z

    def __call__(self, a, b, dx=0, dy=0, grid=True):
        i = [float(v) for v in self.x].index(float(a))
        j = [float(v) for v in self.y].index(float(b))
        v = self.z[i][j] if not (dx or dy) else 0.0
        from vf import symnp
        return symnp.sarr([[v]]) if symnp.has_sym(v) else np.array([[v]])


TABLE = {}


class H5:
    @staticmethod
    def File(name, mode="r"):
        return Table(TABLE[name])


def h_table(I, nn, nr, nrad, smooth=False):
    """splines are built from the table's own rows"""
    ng = [0.75 + 0.5 * i for i in range(nn)]
    rg = [0.125 + 0.25 * j for j in range(nr)]
    A = [[I.real("A%d_%d_%d" % (i, j, g), -2, 2) for g in range(nrad)] for i in range(nn) for j in range(nr)]
    TABLE["tab"] = dict(nsersic=np.array([n for n in ng for r in rg]), rh=np.array([r for n in ng for r in rg]),
                        amplitudes=I.array(A), radii=np.array([0.25 * (g + 1) for g in range(nrad)]))
    with warnings.catch_warnings(), sub((FS, "h5py", H5), (FS, "RectBivariateSpline", Grid), (FS, "SmoothBivariateSpline", Scatter)):
        warnings.simplefilter("ignore")
        g = FS.Galaxy(filternames=["F1"], splinedata="tab")
        if smooth:
            g.initialize_splines("tab", spline_type="smooth")
    I.true(hasattr(g, "splines") and len(g.splines) == nrad, "one spline per radius")
    I.true(float(g.sersic_range[0]) == ng[0] and float(g.rh_range[0]) == rg[0], "table ranges")
    I.true(float(g.sersic_range[1]) == ng[-1] and float(g.rh_range[1]) == rg[-1], "table ranges")
    for i, n in enumerate(ng):
        for j, r in enumerate(rg):
            g.sersic, g.rhalf = n, r
            a = np.atleast_1d(g.amplitudes)
            for k in range(nrad):
                I.eq(a[k], A[i * nr + j][k], "amplitude at a table node is the tabulated one")
    for k in range(nrad):
        I.eq(g.radii[k], 0.25 * (k + 1), "radii of the table")


FPS = {np.dtype(np.float64): (11, 53), np.dtype(np.float32): (8, 24), np.dtype(np.float16): (5, 11)}


def h_precision(I, col):
    """storing a double in the exported catalog column loses nothing (bit-exact
    floating-point query on the column's own format)"""
    import z3
    x = I.real("x", 0, 360)
    if I.symbolic:
        with I.eng.patches.suspended():
            dt = FS.Star(["F1"]).to_catalog_row().dtype[col]
        if dt not in FPS:
            I.true(False, "catalog column %s holds floating point numbers" % col)
        v = z3.FP("v", z3.Float64())
        r = z3.RNE()
        w = z3.fpToFP(r, z3.fpToFP(r, v, z3.FPSort(*FPS[dt])), z3.Float64())
        sol = z3.Solver()
        sol.add(v >= 1.0, v <= 360.0, z3.Not(z3.fpEQ(v, w)))
        if sol.check() == z3.unsat:
            I.true(True, "catalog column %s keeps double precision" % col)
            return
        m = sol.model()
        val = z3.simplify(z3.fpToReal(m[v]))
        I.c.add(I.vars["x"] == val)
        I.true(False, "catalog column %s keeps double precision" % col)
        return
    g = FS.Star(["F1"])
    setattr(g, col, x)
    got = float(g.to_catalog_row()[0][col])
    I.true(got == float(x), "catalog column %s keeps double precision" % col, "stored %r as %r" % (float(x), got))


def harnesses(tier):
    q = tier == "quick"
    cs = []
    one = [["F1"]]
    two = [["F1", "F2"]]
    mix = [["F2", "F1"], ["F1", "F2"]]
    het = [["F1"], ["F1", "F2", "F3"], ["F3", "F1"]]
    for nsrc in ((1, 2, 3) if q else (1, 2, 3, 4, 6)):
        for orders in (one, two, mix, het, [ALL]):
            for nrad in ((1, 2) if q else (1, 2, 3, 10)):
                fx = [None]
                if nrad == 2:
                    fx += [f for f in itertools.product((0, 1), repeat=nsrc) if 0 < sum(f) < nsrc] if nsrc <= 3 else [(1, 0) * (nsrc // 2)]
                for f in fx:
                    cs.append(dict(nsrc=nsrc, orders=orders, fixed=f, nrad=nrad))
    cs += [dict(nsrc=18, orders=het, fixed=(1, 0, 0) * 6, nrad=1), dict(nsrc=18, orders=[ALL], fixed=None, nrad=2), dict(nsrc=9, orders=mix, fixed=(0,) * 8 + (1,), nrad=10)]
    am = [dict(nrad=r, region=g) for r in ((1, 2, 3) if q else (1, 2, 3, 4, 5)) for g in ("inside", "lown", "negr")]
    sg = [dict(kind=k, nb=nb, which=w) for k in ("star", "simple", "galaxy", "galaxy4", "shear") for nb in (1, 2, 3) for w in range(nb)]
    tb = [dict(nn=a, nr=b, nrad=c) for a, b, c in ((2, 3, 1), (3, 2, 2), (2, 2, 3))]
    kw = dict(functions=["Scene.set_all_source_params/get_all_source_params/get_proposal/to_catalog/from_catalog/param_indices/parameter_names",
                         "Galaxy.set_params/get_param_vector/proposal/amplitudes/damplitude_*/initialize_splines", "Star, SimpleGalaxy, ConformalShearGalaxy", "Source.to_catalog_row/from_catalog_row"])
    return [Harness("precision", h_precision, [dict(col="ra"), dict(col="dec")], bounds="every double in [1, 360]", **kw),
            Harness("scene", h_scene, cs, bounds="up to %d (some cases 18) sources, 1-3 bands in any order, any subset fixed; every parameter symbolic" % (3 if q else 6), validate=1, **kw),
            Harness("amplitudes", h_amps, am, bounds="up to 5 radii, arbitrary bilinear splines", **kw),
            Harness("source", h_single, sg, bounds="every source class, 1-3 bands", validate=1, **kw),
            Harness("table", h_table, tb + [dict(t, smooth=True) for t in tb], bounds="tables up to 3x3 nodes, 3 radii", **kw)]
