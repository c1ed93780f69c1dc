"""C04 the pure-Python renderer: closed form and exact derivatives."""
import types
import warnings

import numpy as np

from vf.harness import Harness

import forcepho.slow.gaussmodel as G
import forcepho.slow.likelihood as L
import forcepho.slow.stamp as ST
import forcepho.slow.psf as PS
import forcepho.sources as SRC
import forcepho.model as M

FB = ["A", "B"]
# angles with rational cosines and sines
PAS = [float(np.arctan2(3, 4)), float(np.arctan2(4, 3)), float(np.arctan2(-5, 12))]


class Gauss:
    pass


def counts(g, x, y, second, det):
    """documented counts: Gaussian at the pixel centre with second-order pixel integration"""
    amp, xc, yc, fxx, fyy, fxy = g
    dx, dy = x - xc, y - yc
    q = fxx * dx * dx + 2 * fxy * dx * dy + fyy * dy * dy
    c = amp * np.exp(-0.5 * q)
    if second:
        v1, v2 = fxx * dx + fxy * dy, fxy * dx + fyy * dy
        c = c * (1 + (v1 * v1 + v2 * v2 - fxx - fyy) / 24.0)
    if det:
        c = c * np.sqrt(fxx * fyy - fxy * fxy)
    return c


def h_counts(I, second, det, npix, zero):
    amp = 0.0 if zero else I.real("amp", -10, 10)
    p = [amp, I.real("xc", -3, 3), I.real("yc", -3, 3), I.real("fxx", 0.125, 4), I.real("fyy", 0.125, 4), I.real("fxy", -1, 1)]
    I.assume(p[3] * p[4] - p[5] * p[5] > 0.01)
    xs = [I.real("px%d" % i, -3, 3) for i in range(npix)]
    ys = [I.real("py%d" % i, -3, 3) for i in range(npix)]

    def run(q, deriv=True):
        g = Gauss()
        g.amp, g.xcen, g.ycen, g.fxx, g.fyy, g.fxy = q
        kw = {}
        if not second:
            kw["second_order"] = False
        if det:
            kw["use_det"] = True
        return G.compute_gaussian(g, I.array(xs), I.array(ys), compute_deriv=deriv, **kw)

    C, gr = run(p)
    C2 = run(p, False)
    I.true(np.shape(gr) == (6, npix) and np.shape(C) == (npix,) and np.shape(C2) == (npix,), "one value and six gradients per pixel")
    for i in range(npix):
        I.eq(C[i], counts(p, xs[i], ys[i], second, det), "counts are the documented integrated Gaussian", rtol=1e-7)
        I.eq(C2[i], C[i], "counts do not depend on asking for gradients")
        for j in range(6):
            def f(q):
                return run(list(q), False)[i]
            if zero and j == 0:
                want = counts([1.0] + p[1:], xs[i], ys[i], second, det)
            elif zero:
                want = 0.0
            else:
                want = I.derivative(f, p, j)
            I.eq(gr[j][i], want, "gradient %d is the derivative of the counts" % j, rtol=1e-5, atol=1e-7)


class Spline:
    """amplitude surface with its derivatives: c0 + c1 n + c2 r + c3 n r"""

    def __init__(self, c):
        self.c = c

    def __call__(self, n, r, dx=0, dy=0):
        c0, c1, c2, c3 = self.c
        v = {(0, 0): c0 + c1 * n + c2 * r + c3 * n * r, (1, 0): c1 + c3 * r, (0, 1): c2 + c3 * n}[dx, dy]
        return [[v]]


class Psf:
    units = "pixels"


def make_psf(I, npsf, units, sym):
    p = Psf()
    p.n_gauss, p.units = npsf, units
    cov, mean, amp = [], [], []
    for j in range(npsf):
        if sym:
            a, b, c = I.real("pa%d" % j, 0.5, 3), I.real("pb%d" % j, -0.5, 0.5), I.real("pc%d" % j, 0.5, 3)
            I.assume_fact(a * c - b * b > 0)
            m, t = [I.real("mx%d" % j, -1, 1), I.real("my%d" % j, -1, 1)], I.real("pamp%d" % j, 0.125, 1)
        else:
            a, b, c = 1.0 + 0.5 * j, 0.25 - 0.125 * j, 0.75 + j
            m, t = [0.125 * (j + 1), -0.25 * j], 0.75 - 0.5 * j
        cov.append([[a, b], [b, c]])
        mean.append(m)
        amp.append(t)
    p.covariances, p.means, p.amplitudes = I.array(cov), I.array(mean), I.array(amp)
    return p


def make_source(I, kind, ng, sym, ident=0, bands=FB):
    pre = "s%d_" % ident
    radii = [0.25 * (i + 1) for i in range(ng)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "star":
            s = SRC.Star(filters=list(bands))
        elif kind == "simple":
            s = SRC.SimpleGalaxy(filters=list(bands), radii=I.array(radii) if I.symbolic else np.array(radii))
        elif kind == "conformal":
            s = SRC.ConformalShearGalaxy(filters=list(bands), radii=np.array(radii))
        else:
            s = SRC.Galaxy(filters=list(bands), radii=np.array(radii))
    s.id = ident
    s.flux = I.array([3.0 + ident, 5.0 - ident][:len(bands)]) if not I.symbolic else I.array([I.real(pre + "dummy", 3, 3)] * len(bands))
    names = {"star": [], "simple": ["q", "pa"], "conformal": ["ep", "ec", "sersic", "rhalf"]}.get(kind, ["q", "pa", "sersic", "rhalf"])
    names = ["ra", "dec"] + names
    lim = dict(ra=(-0.5, 0.5), dec=(-0.5, 0.5), q=(0.5, 1), pa=(-2, 2), sersic=(1, 4), rhalf=(0.125, 0.5), ep=(0.125, 1), ec=(-1, -0.125))
    dflt = dict(ra=0.125, dec=-0.25 + 0.5 * ident, q=0.75, pa=0.0, sersic=2.0, rhalf=0.25, ep=0.5, ec=-0.25)
    vals = []
    for k, b in enumerate(bands):
        vals.append(I.real(pre + "f%d" % k, -4, 4) if "flux" in sym else 3.0 + ident - k)
    for n in names:
        vals.append(I.real(pre + n, *lim[n]) if n in sym else dflt[n])
    if kind in ("galaxy", "conformal"):
        s.sersic_range = (0.5, 8.0)
        s.rh_range = (0.0, 2.0)
        s.splines = [Spline([0.25 + 0.125 * i, 0.0625, -0.125 * (i + 1), 0.125 - 0.25 * i]) for i in range(ng)]
    return s, names, vals


class Flat(np.ndarray):
    """pixel coordinates whose .flat supports arithmetic with symbolic centers"""

    @property
    def flat(self):
        return np.asarray(self).reshape(-1)


def flatten_pixels(I, s):
    if I.symbolic:
        s.xpix, s.ypix = s.xpix.view(Flat), s.ypix.view(Flat)


def make_stamp(I, sym, psf, nx=1, ny=1, band="A"):
    s = ST.PostageStamp(nx=nx, ny=ny, filtername=band)
    s.id = 7
    flatten_pixels(I, s)
    if "astro" in sym:
        D = [[I.real("d%d%d" % (i, j), -2, 2) for j in range(2)] for i in range(2)]
        I.assume(D[0][0] * D[1][1] - D[0][1] * D[1][0] > 0.1)
        W = [[I.real("w%d%d" % (i, j), -2, 2) for j in range(2)] for i in range(2)]
        s.crpix = I.array([I.real("crx", -2, 2), I.real("cry", -2, 2)])
        s.crval = I.array([I.real("cvx", -1, 1), I.real("cvy", -1, 1)])
        s.photocounts = I.real("G", 0.5, 4)
    else:
        D = [[2.0, 0.25], [-0.5, 1.5]]
        W = [[-1.5, 0.25], [0.5, 2.0]]
        s.crpix, s.crval, s.photocounts = np.array([0.5, 0.25]), np.array([0.0625, -0.125]), (I.real("G", 0.5, 4) if "G" in sym else 2.5)
    s.scale, s.dpix_dsky = I.array(D), I.array(W)
    s.psf = psf
    return s, D, W


def mul(A, B):
    return [[A[i][0] * B[0][j] + A[i][1] * B[1][j] for j in range(2)] for i in range(2)]


def tr(A):
    return [[A[0][0], A[1][0]], [A[0][1], A[1][1]]]


def attach(src, stamps):
    """the per-source form of the same metadata (stamp given by its index)"""
    src.stamp_scales = [s.scale for s in stamps]
    src.stamp_psfs = [[s.psf] for s in stamps]
    src.stamp_cds = [s.dpix_dsky for s in stamps]
    src.stamp_crpixs = [s.crpix for s in stamps]
    src.stamp_crvals = [s.crval for s in stamps]
    src.stamp_zps = [s.photocounts for s in stamps]
    src.stamp_filterindex = [src.filter_index(s.filtername) for s in stamps]


def gaussians(I, src, stamp, by_index, deriv):
    st = stamp
    if by_index:
        attach(src, [stamp])
        st = 0
    return G.convert_to_gaussians(src, st, compute_deriv=deriv)


def h_gaussians(I, kind, ng, npsf, sym, units, band, by_index):
    psf = make_psf(I, npsf, units, "psf" in sym)
    stamp, D, W = make_stamp(I, sym, psf, band=band)
    src, names, vals = make_source(I, kind, ng, sym)
    src.set_params(I.array(vals))
    gig = gaussians(I, src, stamp, by_index, True)
    gs = gig.gaussians
    n = len(src.radii)
    I.true(len(gs) == n * npsf, "one image Gaussian per source component and PSF component")
    par = dict(zip(names, vals[len(FB):]))
    k = FB.index(band)
    flux = vals[k]
    q, pa = par.get("q", 1.0), par.get("pa", 0.0)
    c, s = np.cos(pa), np.sin(pa)
    T = mul(D, mul([[c, -s], [s, c]], [[1 / q, 0.0], [0.0, q]]))
    cx = [W[a][0] * (par["ra"] - stamp.crval[0]) + W[a][1] * (par["dec"] - stamp.crval[1]) + stamp.crpix[a] for a in range(2)]
    rad = [0.0] if kind == "star" else [0.25 * (i + 1) for i in range(ng)]
    for i in range(n):
        if kind == "galaxy":
            am = Spline.__call__(src.splines[i], par["sersic"], par["rhalf"])[0][0]
        else:
            am = 1.0 / n
        S = mul(T, tr(T))
        for j in range(npsf):
            g = gs[i * npsf + j]
            P = [[psf.covariances[j][a][b] for b in range(2)] for a in range(2)]
            m = [psf.means[j][0], psf.means[j][1]]
            if units == "arcsec":
                P = mul(D, mul(P, tr(D)))
                m = [D[a][0] * m[0] + D[a][1] * m[1] for a in range(2)]
            V = [[rad[i] ** 2 * S[a][b] + P[a][b] for b in range(2)] for a in range(2)]
            det = V[0][0] * V[1][1] - V[0][1] * V[0][1]
            I.eq(g.fxx * det, V[1][1], "inverse covariance is that of the sheared source convolved with the PSF")
            I.eq(g.fyy * det, V[0][0], "inverse covariance is that of the sheared source convolved with the PSF")
            I.eq(g.fxy * det, -V[0][1], "inverse covariance is that of the sheared source convolved with the PSF")
            I.eq(g.xcen, cx[0] + m[0], "x center is the source position plus the PSF offset")
            I.eq(g.ycen, cx[1] + m[1], "y center is the source position plus the PSF offset")
            w = np.sqrt(1.0 / det) * flux * stamp.photocounts * am * psf.amplitudes[j] / (2 * np.pi)
            I.eq(g.amp, w, "amplitude carries flux, counts conversion, mixture and PSF weights", rtol=1e-6)
    # derivatives of every Gaussian parameter with respect to the source parameters
    order = ["flux", "ra", "dec", "q", "pa", "sersic", "rhalf"]
    att = ["amp", "xcen", "ycen", "fxx", "fyy", "fxy"]

    def at(x, i, a):
        s2, _, _ = make_source_from(I, src, kind, x)
        return getattr(gaussians(I, s2, stamp, by_index, False).gaussians[i], a)
    for t, name in enumerate(order):
        if name == "flux":
            slot = k
        elif name in names:
            slot = len(FB) + names.index(name)
        else:
            slot = None
        if slot is not None and name not in sym:
            continue
        for i in range(n * npsf):
            d = gs[i].derivs
            I.true(np.shape(d) == (7, 6), "seven by six derivative matrix")
            for u, a in enumerate(att):
                if slot is None:
                    I.eq(d[t][u], 0.0, "no derivative for parameters the source does not have")
                    continue
                want = I.derivative(lambda x: at(x, i, a), vals, slot)
                I.eq(d[t][u], want, "d %s / d %s is the exact derivative" % (a, name), rtol=1e-5, atol=1e-6)


def make_source_from(I, src, kind, vals):
    import copy
    s2 = copy.copy(src)
    s2.flux = I.array(list(vals[:len(FB)]))
    s2.set_params(I.array(list(vals)))
    return s2, None, None


def h_render(I, kind, ng, npsf, sym, ny, kw):
    """Source.render: image and gradient of the image"""
    psf = make_psf(I, npsf, "pixels", False)
    stamp, D, W = make_stamp(I, sym, psf, 1, ny)
    src, names, vals = make_source(I, kind, ng, sym)
    src.set_params(I.array(vals))
    im, gr = stamp.render(src, **kw)
    im0, none = src.render(stamp, compute_deriv=False, **kw)
    I.true(none is None, "no gradients when not asked for")
    I.true(np.shape(im) == (ny,) and np.shape(gr) == (1 + len(names), ny), "image per pixel, gradients for flux and each parameter")
    gs = gaussians(I, src, stamp, False, False).gaussians
    for p in range(ny):
        w = 0.0
        for g in gs:
            w = w + counts([g.amp, g.xcen, g.ycen, g.fxx, g.fyy, g.fxy], 0.0, float(p), kw.get("second_order", True), False)
        I.eq(im[p], w, "image is the sum of the component Gaussians", rtol=1e-6)
        I.eq(im0[p], im[p], "image does not depend on asking for gradients")

        def f(x):
            s2, _, _ = make_source_from(I, src, kind, x)
            return s2.render(stamp, compute_deriv=False, **kw)[0][p]
        for t, nm in enumerate(["flux"] + names):
            if nm not in sym:
                continue
            slot = 0 if t == 0 else len(FB) + t - 1
            I.eq(gr[t][p], I.derivative(f, vals, slot), "d image / d %s is the exact derivative" % nm, rtol=1e-5, atol=1e-6)


class Stamp(ST.PostageStamp):
    cover = None

    def coverage(self, source):
        return self.cover[source.id]


def h_like(I, nsrc, cover, bands, fast, sym, index):
    """lnlike_multi over several stamps and sources: exact value and gradient"""
    pl = L.FastWorkPlan if fast else L.WorkPlan
    srcs, vals = [], []
    for i in range(nsrc):
        s, names, v = make_source(I, "simple", 1, sym if i == 0 else sym - {"q", "pa"}, ident=i)
        s.fixed = all(c[i] < 2 for c in cover)
        s.set_params(I.array(v))
        srcs.append(s)
        vals.append(v)
    scene = SRC.Scene(srcs)
    for i, s in enumerate(srcs):
        s.id = i
    stamps = []
    for k, b in enumerate(bands):
        psf = make_psf(I, 1, "pixels", False)
        st = Stamp(nx=1, ny=2, filtername=b)
        st.cover = cover[k]
        st.id = k
        flatten_pixels(I, st)
        st.scale, st.dpix_dsky = np.array([[2.0, 0.25], [-0.5, 1.5 + k]]), np.array([[-1.5, 0.25], [0.5 + k, 2.0]])
        st.crpix, st.crval, st.photocounts, st.psf = np.array([0.5, 0.25]), np.array([0.0625, -0.125]), I.real("G%d" % k, 0.5, 4), psf
        st.pixel_values = I.array([[I.real("D%d_%d" % (k, p), -5, 5) for p in range(2)]])
        st.ierr = I.array([I.real("E%d_%d" % (k, p), 0, 2) for p in range(2)])
        stamps.append(st)
    for s in srcs:
        attach(s, stamps)
    theta = [x for s, v in zip(srcs, vals) if not s.fixed for x in v]
    plans = [pl(s) for s in stamps]
    lnp, g = L.lnlike_multi(I.array(theta), scene, plans, source_meta=index)
    # expected value
    want = 0.0
    dwant = [0.0] * len(theta)
    for k, st in enumerate(stamps):
        ims, grs = [], []
        for s in srcs:
            if st.cover[s.id] <= 0:
                ims.append([0.0, 0.0])
                grs.append(None)
                continue
            im, gr = s.render(st)
            ims.append([im[0], im[1]])
            grs.append(gr)
        for p in range(2):
            r = st.pixel_values[0][p]
            for im in ims:
                r = r - im[p]
            e = st.ierr[p]
            want = want - 0.5 * (r * e) * (r * e)
            start = 0
            for s, gr in zip(srcs, grs):
                if s.fixed:
                    continue
                if st.cover[s.id] > 1:
                    fi = FB.index(st.filtername)
                    for t in range(5):
                        slot = start + fi if t == 0 else start + len(FB) + t - 1
                        dwant[slot] = dwant[slot] + r * e * e * gr[t][p]
                start += s.n_params
    I.eq(lnp, want, "ln-likelihood is minus half chi-square of data minus all sources", rtol=1e-6, atol=1e-6)
    I.true(len(g) == len(theta), "one gradient entry per parameter")
    for j in range(len(theta)):
        I.eq(g[j], dwant[j], "gradient entry %d belongs to that parameter" % j, rtol=1e-6, atol=1e-6)
    v2 = L.lnlike_multi(I.array(theta), scene, [pl(s) for s in stamps], grad=False, source_meta=index)
    I.eq(v2, lnp, "value does not depend on asking for gradients", rtol=1e-7)
    if not index:
        n, ng = L.negative_lnlike_multi(I.array(theta), scene=scene, plans=[pl(s) for s in stamps])
        I.eq(n, -lnp, "negative ln-likelihood", rtol=1e-7)
        I.eq(ng[0], -g[0], "negative gradient", rtol=1e-7)


def h_image(I, sym, nsrc):
    """make_image: model image of the scene and its gradients"""
    srcs, vals = [], []
    for i in range(nsrc):
        s, names, v = make_source(I, "simple", 1, sym, ident=i)
        s.set_params(I.array(v))
        srcs.append(s)
        vals.append(v)
    scene = SRC.Scene(srcs)
    psf = make_psf(I, 1, "pixels", False)
    stamp, D, W = make_stamp(I, set(), psf, 2, 2, band="B")
    im, gr = L.make_image(scene, stamp, Theta=I.array([x for v in vals for x in v]))
    I.true(np.shape(im) == (2, 2) and np.shape(gr) == (5 * nsrc, 4), "an image of the stamp's shape and a gradient per parameter")
    tot = [0.0] * 4
    for i, s in enumerate(srcs):
        a, g = s.render(stamp)
        for p in range(4):
            tot[p] = tot[p] + a[p]
            for t in range(5):
                I.eq(gr[5 * i + t][p], g[t][p], "image gradients are those of each source")
    for p in range(4):
        I.eq(im[p // 2][p % 2], tot[p], "model image is the sum of the sources")
    # residuals of the slow posterior at the queried parameters
    stamp.pixel_values = I.reals("pv", 4, -2, 2).reshape(2, 2)
    for query in (False, True):
        th = I.array([x for v in vals for x in v])
        scene.set_all_source_params(th if not query else th + 0.5)
        post = M.SlowPosterior(scene=scene, plans=[types.SimpleNamespace(stamp=stamp)])
        res = post.residuals(th) if query else post.residuals()
        I.true(len(res) == 1 and np.shape(res[0]) == (2, 2), "a residual image per stamp")
        for p in range(4):
            I.eq(res[0][p // 2][p % 2], stamp.pixel_values[p // 2][p % 2] - tot[p], "slow residuals are data minus the model of the queried parameters")


def h_shear(I, ng, sign):
    """conformal shear: q, pa and their jacobian"""
    src, names, vals = make_source(I, "conformal", ng, {"ep", "ec"})
    for k, n in ((0, "shear_p"), (1, "shear_c")):
        vals[4 + k] = I.real(n, 0.125, 1) if sign[k] > 0 else I.real(n, -1, -0.125)
    src.set_params(I.array(vals))
    ep, ec = vals[4], vals[5]
    eta = np.hypot(ep, ec)
    I.eq(src.q, np.exp(-eta / 2.0), "axis ratio from the shear modulus", rtol=1e-6)
    I.eq(eta * np.cos(2 * src.pa), ep, "position angle from the direction of the shear (plus)", rtol=1e-6, atol=1e-7)
    I.eq(eta * np.sin(2 * src.pa), ec, "position angle from the direction of the shear (cross)", rtol=1e-6, atol=1e-7)
    J = src.ds_deta
    I.true(np.shape(J) == (2, 2), "two by two jacobian")

    def f(attr):
        def g(x):
            s2, _, _ = make_source_from(I, src, "conformal", x)
            return getattr(s2, attr)
        return g
    for a in range(2):
        for b, attr in enumerate(("q", "pa")):
            I.eq(J[a][b], I.derivative(f(attr), vals, 4 + a), "jacobian of (q, pa) with respect to the shear", rtol=1e-5, atol=1e-7)


def h_shear_render(I, ng):
    """conformal shear galaxies render as the galaxy of the same q and pa; shear gradients through the jacobian"""
    psf = make_psf(I, 1, "pixels", False)
    stamp, D, W = make_stamp(I, {"G"}, psf)
    src, names, vals = make_source(I, "conformal", ng, {"flux"})
    src.set_params(I.array(vals))
    gal, gnames, gvals = make_source(I, "galaxy", ng, set(), ident=1)
    gvals[:4] = vals[:4]
    gvals[4:6] = [src.q, src.pa]
    gvals[6:] = vals[6:]
    gal.set_params(I.array(gvals))
    gal.splines = src.splines
    im, gr = src.render(stamp)
    im2, gr2 = gal.render(stamp)
    J = src.ds_deta
    I.eq(im, im2, "shear image is the image for the same axis ratio and angle")
    for t in (0, 1, 2, 5, 6):
        I.eq(gr[t][0], gr2[t][0], "gradient %d does not depend on the shape parameters used" % t)
    for a in range(2):
        I.eq(gr[3 + a][0], J[a][0] * gr2[3][0] + J[a][1] * gr2[4][0], "shear gradient by the chain rule", rtol=1e-6, atol=1e-7)


def h_zero(I, ng):
    """zero flux or zero mixture weight: finite derivatives"""
    psf = make_psf(I, 1, "pixels", False)
    stamp, D, W = make_stamp(I, {"astro"}, psf)
    src, names, vals = make_source(I, "galaxy", ng, set())
    which = I.choose("which", ["flux", "amplitude", "below"])
    vals = list(vals)
    if which == "flux":
        vals[0] = I.choose("zero", [0.0])
    if which == "amplitude":
        src.splines[0].c = [0.0, 0.0, 0.0, 0.0]
    if which == "below":
        vals[6] = 0.25
    src.set_params(I.array(vals))
    gs = gaussians(I, src, stamp, False, True).gaussians
    for g in gs:
        s = np.sqrt(g.fxx * g.fyy - g.fxy * g.fxy)
        if which == "flux":
            I.eq(g.amp, 0.0, "no flux, no amplitude")
            I.eq(g.derivs[5][0], 0.0, "no flux, no sersic derivative")
        I.true(g.derivs[0][0] == g.derivs[0][0], "flux derivative is a number")
    i = 0
    if which == "flux":
        a0 = src.splines[i](2.0, 0.25)[0][0]
        s = np.sqrt(gs[i].fxx * gs[i].fyy - gs[i].fxy * gs[i].fxy)
        I.eq(gs[i].derivs[0][0], s * stamp.photocounts * a0 * 0.75 / (2 * np.pi), "flux derivative at zero flux", rtol=1e-6)
    else:
        j = int(np.argmax([0 if which == "amplitude" and k == 0 else 1 for k in range(ng)])) if which == "amplitude" else None
        z = [k for k in range(ng) if which == "amplitude" and k == 0]
        for k in z:
            I.eq(gs[k].derivs[0][0], 0.0, "component without weight has no flux derivative")


def h_psf(I, n):
    """PSF parameters survive the conversions"""
    dt = np.dtype([(c, np.float64) for c in ("Cxx", "Cyy", "Cxy", "xcen", "ycen", "amp")])
    old = I.choose("names", ["xcen", "xcr"])
    if old == "xcr":
        dt = np.dtype([(c, np.float64) for c in ("amp", "xcr", "ycr", "Cxx", "Cyy", "Cxy")])
    rec = I.zeros(n, dt)
    v = {}
    for i in range(n):
        for c in dt.names:
            v[c, i] = I.real("%s%d" % (c, i), -5, 5)
            rec[c][i] = v[c, i]
    p = PS.PointSpreadFunction(rec)
    t = p.as_tuplelist()
    I.true(p.n_gauss == n and len(t) == n, "every component is kept")
    x, y = ("xcr", "ycr") if old == "xcr" else ("xcen", "ycen")
    for i in range(n):
        want = [v["amp", i], v[x, i], v[y, i], v["Cxx", i], v["Cyy", i], v["Cxy", i]]
        for a, b in zip(t[i], want):
            I.eq(a, b, "components are (a, x, y, cxx, cyy, cxy)")
    f = I.real("fwhm", 0.5, 5)
    d = PS.get_psf(fwhm=f)
    for a, b, w in ((0, 0, 1), (1, 1, 1), (0, 1, 0)):
        I.eq(d.covariances[0][a][b], w * (f / 2.355) ** 2, "default PSF has the requested width", rtol=1e-3)


FN = ("convert_to_gaussians", "_convert_to_gaussians", "get_gaussian_gradients", "_get_gaussian_gradients", "compute_gaussian", "compute_gig",
      "Source.render", "ConformalShearGalaxy.ds_deta", "lnlike_multi", "plan_sources", "WorkPlan", "FastWorkPlan", "make_image")


def harnesses(tier):
    th = tier == "thorough"
    ga = []
    for by in (False, True):
        ga += [dict(kind="star", ng=1, npsf=2, sym={"flux", "ra", "dec", "astro", "psf"}, units="pixels", band="B", by_index=by),
               dict(kind="galaxy", ng=2, npsf=2, sym={"flux", "ra", "dec", "sersic", "rhalf", "astro"}, units="pixels", band="A", by_index=by),
               dict(kind="simple", ng=1, npsf=1, sym={"astro"}, units="pixels", band="A", by_index=by),
               dict(kind="galaxy", ng=2, npsf=1, sym={"q"}, units="pixels", band="B", by_index=by),
               dict(kind="simple", ng=1, npsf=2, sym={"pa"}, units="pixels", band="A", by_index=by),
               dict(kind="simple", ng=1, npsf=1, sym={"q", "pa"}, units="pixels", band="A", by_index=by)]
    ga += [dict(kind="star", ng=1, npsf=3, sym={"flux", "ra", "dec", "astro", "psf"}, units="arcsec", band="A", by_index=False),
           dict(kind="simple", ng=2, npsf=2, sym={"q"}, units="arcsec", band="A", by_index=False)]
    re = [dict(kind="star", ng=1, npsf=2, sym={"flux", "ra", "dec", "G"}, ny=2, kw={}),
          dict(kind="galaxy", ng=2, npsf=1, sym={"flux", "ra", "dec", "sersic", "rhalf", "G"}, ny=1, kw={}),
          dict(kind="simple", ng=1, npsf=1, sym={"q"}, ny=1, kw={}),
          dict(kind="simple", ng=1, npsf=1, sym={"pa"}, ny=1, kw={}),
          dict(kind="simple", ng=1, npsf=1, sym={"flux", "ra", "G"}, ny=1, kw=dict(second_order=False)),
          dict(kind="conformal", ng=2, npsf=1, sym={"flux", "ra", "sersic", "G"}, ny=1, kw={})]
    li = []
    for fast in (False, True):
        for idx in (False, True):
            li += [dict(nsrc=2, cover=[[2, 2], [2, 2]], bands=["B", "A"], fast=fast, sym={"flux"}, index=idx)]
        li += [dict(nsrc=2, cover=[[2, 1], [2, 1]], bands=["A", "B"], fast=fast, sym={"flux"}, index=False),
               dict(nsrc=3, cover=[[2, 0, 2], [0, 2, 2]], bands=["A", "A"], fast=fast, sym={"flux"}, index=False),
               dict(nsrc=2, cover=[[2, 1], [2, 2], [1, 2], [2, 2]], bands=["A", "B", "A", "A"], fast=fast, sym={"flux"}, index=False),
               dict(nsrc=1, cover=[[2]], bands=["A"], fast=fast, sym={"flux", "ra", "dec"}, index=False)]
    return [
        Harness("counts", h_counts, [dict(second=s, det=d, npix=n, zero=False) for s in (True, False) for d in (True, False) for n in ((1, 2) if th else (1,))]
                + [dict(second=s, det=False, npix=2, zero=True) for s in (True, False)], functions=FN, div_check=False, pi_symbolic=False,
                bounds="one Gaussian, 1-2 pixels, all parameters symbolic"),
        Harness("gaussians", h_gaussians, ga, functions=FN, div_check=False, pi_symbolic=False,
                bounds="1-2 source components, 1-3 PSF components; groups of source, astrometry and PSF parameters symbolic together"),
        Harness("render", h_render, re, functions=FN, div_check=False, pi_symbolic=False, bounds="1-2 components, 1-2 pixels"),
        Harness("likelihood", h_like, li, functions=FN, div_check=False, pi_symbolic=False, bounds="1-3 sources, 1-4 stamps of 2 pixels, symbolic data, uncertainties and fluxes"),
        Harness("image", h_image, [dict(sym={"flux"}, nsrc=2), dict(sym={"flux", "ra"}, nsrc=1)], functions=FN, div_check=False, pi_symbolic=False, bounds="1-2 sources, 2x2 stamp"),
        Harness("shear", h_shear, [dict(ng=1, sign=(a, b)) for a in (1, -1) for b in (1, -1)], functions=FN, div_check=False, pi_symbolic=False, bounds="shear components away from zero, all quadrants"),
        Harness("shear_render", h_shear_render, [dict(ng=2)], functions=FN, div_check=False, pi_symbolic=False, bounds="two components, one pixel"),
        Harness("zero", h_zero, [dict(ng=2)], functions=FN, div_check=False, pi_symbolic=False, bounds="zero flux, zero mixture weight, sersic index below range"),
        Harness("psf", h_psf, [dict(n=2)], functions=("PointSpreadFunction", "get_psf"), bounds="2 components"),
    ]


ASSUMPTIONS = ["real arithmetic; mixture amplitudes are a bilinear surface with its exact derivatives (the splines themselves are scipy's)"]
