"""C29 Sersic profile measures agree with one profile, and regions with the catalog."""
import glob
import os
import re
import tempfile
import types

import numpy as np
from scipy import special

from vf.harness import Harness
from vf.sym import s_gammainc, s_gamma, s_gammaincinv
from vf.wcsstub import sub

import forcepho.utils.profile as P
import forcepho.utils.ds9 as D
import forcepho.postprocess as PP

P0 = dict(r=(0.125, 8), R=(0.125, 8), h=(0.125, 4), L=(0.25, 16))


def gi(a, x):
    return s_gammainc(a, x)


STUBS = {("forcepho.utils.profile", "gammainc"): gi, ("forcepho.utils.profile", "gamma"): s_gamma,
         ("forcepho.utils.profile", "gammaincinv"): s_gammaincinv}


def K(I, n):
    return s_gammaincinv(2 * n, 0.5) if I.symbolic else special.gammaincinv(2 * n, 0.5)


def G(I, a):
    return s_gamma(a) if I.symbolic else special.gamma(a)


def prof(I, r, h, n):
    """exp of the profile relative to its value at the half-light radius, without the constant exp(k)"""
    k = K(I, n)
    return np.exp(-k * (r / h) ** (1 / n))


def h_frac(I, n):
    h = I.real("h", *P0["h"])
    r = I.real("r", *P0["r"])
    c = I.real("c", 0.25, 4)
    k = K(I, n)
    f = P.frac_sersic(r, rhalf=h, sersic=n)
    I.lt(0, f, "fraction is positive", atol=0)
    I.le(f, 1, "fraction is at most one", atol=0)
    I.eq(P.frac_sersic(h, rhalf=h, sersic=n), 0.5, "half of the flux falls within the half-light radius")
    # the growth of the enclosed flux is the profile on rings, 2 pi r I(r)
    d = I.derivative(lambda x: P.frac_sersic(x[0], rhalf=h, sersic=n), [r], 0)
    Ie = P.I_eff(1.0, h, sersic=n)
    I.eq(d, 2 * np.pi * r * Ie * np.exp(k) * prof(I, r, h, n), "enclosed flux grows as the surface brightness on rings", rtol=1e-5, atol=1e-8)
    if n == 2.0:
        I.eq(P.frac_sersic(r, rhalf=h), f, "default index is 2")


def h_kron(I, n):
    h = I.real("h", *P0["h"])
    R = I.real("R", *P0["R"])
    F = lambda x: P.frac_sersic(x, rhalf=h, sersic=n)
    # kron(R) F(R) = int_0^R r dF
    g = I.derivative(lambda x: P.kron_radius(h, n, rmax=x[0]) * F(x[0]), [R], 0)
    d = I.derivative(lambda x: F(x[0]), [R], 0)
    I.eq(g, R * d, "Kron radius is the flux-weighted mean radius within rmax", rtol=1e-4, atol=1e-7)
    k = K(I, n)
    I.eq(P.kron_radius(h, n), h * (G(I, 3 * n) / G(I, 2 * n) / k ** n), "Kron radius without limit is that of the whole profile")
    if I.symbolic:
        return
    big = P.kron_radius(1.0, n, rmax=1e12) / P.kron_radius(1.0, n)
    I.eq(big, 1.0, "the limit of large rmax is the Kron radius of the whole profile")


def h_iso(I, n, within):
    h = I.real("h", *P0["h"])
    L = I.real("L", *P0["L"])
    R = I.real("R", *P0["R"])
    iso = I.real("iso", 0.0009765625, 1)
    k = K(I, n)
    kw = dict(flux_radius=R) if within else {}
    Ie = P.I_eff(L, h, sersic=n, **kw)
    # total flux of the profile
    tot = L / P.frac_sersic(R, rhalf=h, sersic=n) if within else L
    q = 2 * np.pi * (n * G(I, 2 * n) * np.exp(k) / k ** (2 * n)) * h * h
    I.eq(Ie * q, tot, "the profile integrates to the flux", rtol=1e-6, atol=1e-8)
    lg = np.log(iso / Ie)
    I.assume(lg < 0.984375 * k)
    r = P.isophotal_radius(iso, L, h, sersic=n, **kw)
    I.eq(k * (1 - (r / h) ** (1 / n)), lg, "at the isophotal radius the profile has the isophote's surface brightness", rtol=1e-6, atol=1e-8)


class Sky:
    def __init__(self, ra, dec, unit=None, frame=None):
        self.v = ra, dec, unit


class Reg:
    def __init__(self, center=None, height=None, width=None, angle=None):
        self.c, self.h, self.w, self.a = center, height, width, angle
        self.meta, self.visual = {}, {}


def h_regions(I, n, ellipse, roi, via):
    cat = I.zeros(n, dtype=[("id", "i4"), ("ra", "f8"), ("dec", "f8"), ("q", "f8"), ("pa", "f8"), ("rhalf", "f8"), ("sersic", "f8"), ("roi", "f8"), ("F", "f8")])
    for i in range(n):
        cat["id"][i] = 10 - 3 * i
        for c, lo, hi in (("ra", 1, 300), ("dec", -60, 60), ("q", 0.25, 1), ("pa", -1.5, 1.5), ("rhalf", 0.0625, 1), ("roi", 0.0625, 1)):
            cat[c][i] = I.real("%s%d" % (c, i), lo, hi)
    size = [I.real("s%d" % i, 0.0625, 2) for i in range(n)]
    import regions
    u = types.SimpleNamespace(arcsec=1.0, arcmin=60.0, deg=3600.0, degree=3600.0, rad=3600.0 * 180.0 / np.pi, radian=3600.0 * 180.0 / np.pi)
    got = {}

    class Regs(list):
        def write(self, fn, **kw):
            got["file"] = fn
    with sub((D, "SkyCoord", Sky), (D, "u", u), (regions, "EllipseSkyRegion", Reg), (regions, "Regions", Regs)):
        if via in ("file", "isophote"):
            kw, want, calls = {}, list(cat["rhalf"]), []
            if via == "isophote":
                kw = dict(isophote=("F", 0.25))
                want = size[:-1] + [cat["rhalf"][n - 1]]
                for i in range(n):
                    cat["F"][i] = I.real("F%d" % i, 0.5, 4)
                    cat["sersic"][i] = 1.0 + i

            def iso(iso, flux, r_half, flux_radius=None, sersic=1):
                calls.append((iso, list(flux), list(r_half), list(np.broadcast_to(sersic, (n,))), flux_radius))
                return I.array(size[:-1] + [np.nan])
            with tempfile.TemporaryDirectory(prefix="vfc29") as tmp:
                open(os.path.join(tmp, "outscene_x.fits"), "w").close()
                seen = []
                with sub((PP, "isophotal_radius", iso), (PP, "fits", types.SimpleNamespace(getdata=lambda f: seen.append(f) or cat))):
                    regs = PP.write_sourcereg(tmp, slist="s.reg", showid=True, **kw)
                I.true(os.path.dirname(os.path.abspath(got["file"])) == os.path.join(tmp, "image") and os.path.isdir(os.path.join(tmp, "image")), "region file goes to the run's image directory")
                I.true(os.path.basename(got["file"]) == "s.reg", "region file has the requested name")
                I.true(os.path.dirname(seen[0]) == tmp, "catalog is the run's own")
            if via == "isophote":
                if len(calls) != 1:
                    raise NotImplementedError("isophotal_radius is not called once")
                I.true(calls[0][0] == 0.25 and calls[0][4] is None, "isophote is the one requested")
                for i in range(n):
                    I.eq(calls[0][1][i], cat["F"][i], "isophote of the band requested")
                    I.eq(calls[0][2][i], cat["rhalf"][i], "isophote of the source's own profile")
                    I.eq(calls[0][3][i], 1.0 + i, "isophote of the source's own profile")
        else:
            regs = D.cat_to_regions(cat, roi=I.array(size) if roi else None, **(dict(ellipse=ellipse) if not (ellipse and roi) else {}))
            want = size if roi else list(cat["roi"])
    if n and not isinstance(regs[0], Reg):
        raise NotImplementedError("regions are not made with EllipseSkyRegion")
    I.true(len(regs) == n, "one region per source")
    for i in range(n):
        g = regs[i]
        I.eq(g.c.v[0], cat["ra"][i], "region is at the source (ra)")
        I.eq(g.c.v[1], cat["dec"][i], "region is at the source (dec)")
        q = cat["q"][i] if ellipse else 1.0
        I.eq(g.h * g.w, want[i] * want[i], "region has the requested mean size")
        # long and short axis, whichever of height and width they are
        tall = g.h > g.w
        big, small = (g.h, g.w) if tall else (g.w, g.h)
        I.eq(small, big * q * q, "region has the axis ratio of the source")
        if ellipse:
            # angles of sky regions are anticlockwise from W, where the height is
            # towards N; pa is N of E
            ang = g.a / 3600.0 + (90.0 if tall else 0.0) + np.rad2deg(cat["pa"][i])
            ok = cat["q"][i] == 1
            for k in range(-3, 4):
                ok = ok | ((ang > 180.0 * k - 1e-4) & (ang < 180.0 * k + 1e-4))
            I.true(ok, "region is elongated along the source")
        I.true(g.meta["text"] == "%d" % cat["id"][i], "region is labelled with its own source")


def h_patchreg(I, n):
    """region file of the patches: one circle each, at its place and of its size"""
    vals = {}
    for k in range(n):
        vals["/x/patch%d.h5" % k] = [I.real("%s%d" % (c, k), lo, hi) for c, lo, hi in (("ra", 0, 360), ("dec", -80, 80), ("rad", 0.001, 0.1))]

    files = [sorted(vals)[(k * 2 + 1) % n] for k in range(n)] if n % 2 else sorted(vals, reverse=True)
    used = []

    class Tok:
        """stands for a number in the text that is written"""
        def __init__(self, v):
            self.v = v

        def __format__(self, spec):
            used.append(self.v)
            return "<%d>" % (len(used) - 1)

        __str__ = __repr__ = lambda self: self.__format__("")

        def _no(self, *a):
            raise NotImplementedError("numbers are changed before they are written")
        __mul__ = __rmul__ = __add__ = __radd__ = __sub__ = __truediv__ = __float__ = _no
    mk = lambda f: types.SimpleNamespace(region=types.SimpleNamespace(**{c: Tok(v) for c, v in zip(("ra", "dec", "radius"), vals[f])}))
    with tempfile.TemporaryDirectory(prefix="vfc29") as tmp:
        f = os.path.join(tmp, "p.reg")
        with sub((PP, "Samples", mk)):
            PP.write_patchreg(list(files), plist=f)
        with open(f) as h:
            text = h.read()
    pat = r"fk5;circle\(<(\d+)>d,<(\d+)>d,<(\d+)>d\) # text=\"([^\"]*)\""
    got = [ln for ln in text.splitlines() if "circle" in ln]
    I.true(len(got) == n, "one circle per patch")
    for ln, f in zip(got, sorted(vals)):
        m = re.match(pat, ln)
        if m is None:
            raise NotImplementedError("unknown form of region: %r" % ln)
        for k, c in enumerate(("ra", "dec", "radius")):
            I.eq(used[int(m.group(k + 1))], vals[f][k], "circle has the %s of its patch" % c)
    I.true(len(set(re.match(pat, ln).group(4) for ln in got)) == n, "patches have labels of their own")


def harnesses(tier):
    ns = [0.5, 1.0, 2.0] if tier == "quick" else [0.25, 0.5, 1.0, 2.0]
    nk = ns + [4.0]
    kw = dict(stubs=STUBS)
    B = "Sersic index in %s, half-light radius [1/8,4], radii [1/8,8], flux [1/4,16] symbolic" % ns
    m = 2 if tier == "quick" else 3
    reg = [dict(n=k, ellipse=e, roi=r, via="cat") for k in range(1, m + 1) for e in (True, False) for r in (True, False)]
    reg += [dict(n=k, ellipse=True, roi=False, via=v) for k in range(1, m + 1) for v in ("file", "isophote")]
    return [Harness("fraction", h_frac, [dict(n=n) for n in ns], functions=["frac_sersic", "I_eff"], bounds=B, **kw),
            Harness("kron", h_kron, [dict(n=n) for n in nk], functions=["kron_radius"], bounds=B, **kw),
            Harness("isophote", h_iso, [dict(n=n, within=w) for n in ns for w in (False, True)], functions=["isophotal_radius", "I_eff"], bounds=B, **kw),
            Harness("regions", h_regions, reg, functions=["cat_to_regions", "annotate_regions", "write_sourcereg"], bounds="up to %d sources" % m),
            Harness("patches", h_patchreg, [dict(n=k) for k in (1, 2, 3)], functions=["write_patchreg"], bounds="1-3 patches")]
