"""C20 local astrometry matrices are the derivatives of the WCS."""
from types import SimpleNamespace as NS

import numpy as np
import astropy.wcs
from astropy.wcs import WCS as AWCS

from vf.harness import Harness
from vf.wcsstub import Affine, sub

import forcepho.utils.wcs as W
import forcepho.utils as U
import forcepho.slow.stamp as SS
import forcepho.postprocess as PO

TOL = dict(rtol=1e-6, atol=1e-6)


def matrix(I, sym):
    """d pixel / d sky of a locally affine WCS, any rotation/shear/parity within bounds"""
    s = -1.0 if sym == "flip" else 1.0
    return [[s * I.real("m00", 1, 5), I.real("m01", -0.5, 0.5)], [I.real("m10", -0.5, 0.5), I.real("m11", 1, 5)]]


def rot(I):
    """axes swapped: mostly off-diagonal"""
    return [[I.real("m00", -0.5, 0.5), I.real("m01", 1, 5)], [I.real("m10", -5, -1), I.real("m11", -0.5, 0.5)]]


class Dist(Affine):
    """both call styles of astropy (n x 2 array and origin, or two coordinates)"""

    def all_world2pix(self, *a, **kw):
        return self._go(self.world_to_pixel_values, a, kw, +1)

    def all_pix2world(self, *a, **kw):
        return self._go(self.pixel_to_world_values, a, kw, -1)

    def _go(self, f, a, kw, sgn):
        if len(a) == 2 or (len(a) == 1 and "origin" in kw):
            o = a[1] if len(a) == 2 else kw["origin"]
            p = np.asarray(a[0])
            x, y = p[:, 0], p[:, 1]
            if sgn < 0:
                x, y = x - o, y - o
            u, v = f(x, y)
            return np.stack([u, v], axis=1) + (o if sgn > 0 else 0)
        x, y = a[0], a[1]
        o = a[2] if len(a) > 2 else kw.get("origin", 0)
        if sgn < 0:
            u, v = f(x - o, y - o)
        else:
            u, v = f(x, y)
            u, v = u + o, v + o
        return np.array([u, v])


class Normal(AWCS):
    """an astropy WCS (by type) that is affine"""

    def __init__(self, core, dist, psm=None):
        self.core, self._d, self._psm = core, dist, psm

    has_distortion = property(lambda self: self._d)
    pixel_scale_matrix = property(lambda self: self._psm)

    def world_to_pixel_values(self, *a):
        return self.core.world_to_pixel_values(*a)

    def pixel_to_world_values(self, *a):
        return self.core.pixel_to_world_values(*a)

    def all_world2pix(self, *a, **k):
        return self.core.all_world2pix(*a, **k)

    def all_pix2world(self, *a, **k):
        return self.core.all_pix2world(*a, **k)


def position(I):
    ra, dec = I.real("ra", 0, 20), I.real("dec", -70, 70)
    c = np.cos(np.deg2rad(dec))
    I.assume_fact((c >= 0.25) & (c <= 1))
    return ra, dec, c


def check_mats(I, cw, D, M, c):
    I.true(np.shape(cw) == (2, 2) and np.shape(D) == (2, 2), "2x2 matrices")
    for i in range(2):
        for j in range(2):
            I.eq(cw[i, j], M[i][j], "CW is d(pixel)/d(ra, dec)", **TOL)
        I.eq(D[i, 0] * 3600.0 * c, M[i][0], "scale matrix is pixels per arcsec along ra", **TOL)
        I.eq(D[i, 1] * 3600.0, M[i][1], "scale matrix is pixels per arcsec along dec", **TOL)


def h_dist(I, sym, which, dpix, force):
    """numerical branch, for WCSs with distortion or on request"""
    ra, dec, c = position(I)
    M = rot(I) if sym == "rot" else matrix(I, sym)
    # M is the matrix of the inverse transformation (sky per pixel)
    det = M[0][0] * M[1][1] - M[0][1] * M[1][0]
    I.assume_fact((det >= 0.5) | (det <= -0.5))
    fwd = [[M[1][1] / det, -M[0][1] / det], [-M[1][0] / det, M[0][0] / det]]
    w = Dist(fwd, [10.0, -5.0], [I.real("px", -50, 50), 3.0], has_distortion=not force)
    w.Minv = M
    M = fwd
    if which == "stamp":
        cw, D = SS.scale_at_sky((ra, dec), w, dpix=dpix, make_approx=bool(force))
    elif which == "fwcs":
        f = W.FWCS(w)
        I.true(not f.is_normal and bool(f.has_distortion), "a generalised WCS is treated as distorted")
        cw, D = f.scale_at_sky((ra, dec), dpix=dpix, make_approx=bool(force))
    elif which == "astropy":
        cw, D = W.FWCS(Normal(w, not force)).scale_at_sky((ra, dec), dpix=dpix, make_approx=bool(force))
    elif which == "bare":
        class G:
            world_to_pixel_values = w.world_to_pixel_values
            pixel_to_world_values = w.pixel_to_world_values
        try:
            cw, D = W.scale_at_sky((ra, dec), G(), dpix=dpix)
        except AttributeError as e:
            # a generalised WCS offers no more than the two transformations
            I.true(False, "a WCS that does not say whether it is distorted is treated as distorted", str(e))
    else:
        cw, D = W.scale_at_sky((ra, dec), w, dpix=dpix, make_approx=bool(force))
    check_mats(I, cw, D, M, c)


def h_plain(I, sym, which):
    """WCSs without distortion: from the pixel scale matrix (degrees of arc per pixel)"""
    ra, dec, c = position(I)
    S = np.array(rot(I) if sym == "rot" else matrix(I, sym), dtype=object if I.symbolic else float)
    S = I.array(S.tolist())
    core = NS()
    w = Normal(core, False, psm=S)
    if which == "stamp":
        cw, D = SS.scale_at_sky((ra, dec), w)
    elif which == "fwcs":
        f = W.FWCS(w)
        I.true(f.is_normal and not f.has_distortion, "an astropy WCS keeps its distortion flag")
        cw, D = f.scale_at_sky((ra, dec))
    else:
        cw, D = W.scale_at_sky((ra, dec), w)
    # D @ (3600 S) = 1; CW = D 3600 diag(cos dec, 1)
    for i in range(2):
        for j in range(2):
            p = (D[i, 0] * S[0, j] + D[i, 1] * S[1, j]) * 3600.0
            I.eq(p, 1.0 if i == j else 0.0, "the scale matrix inverts the pixel scale matrix in arcsec", **TOL)
        I.eq(cw[i, 0], D[i, 0] * 3600.0 * c, "CW and scale matrix agree (ra)", **TOL)
        I.eq(cw[i, 1], D[i, 1] * 3600.0, "CW and scale matrix agree (dec)", **TOL)


def h_fwcs(I, normal, dist):
    """conversions through the wrapper are those of the wrapped WCS"""
    core = Affine(matrix(I, "pos"), [10.0, -5.0], [I.real("px", -50, 50), 3.0])
    w = Normal(core, dist, psm="P") if normal else core
    f = W.FWCS(w)
    I.true(bool(f.has_distortion) == (bool(dist) if normal else True), "distortion flag")
    u, v = I.real("u", -10, 10), I.real("v", -10, 10)
    for a, b in ((f.all_pix2world, core.pixel_to_world_values), (f.pixel_to_world_values, core.pixel_to_world_values),
                 (f.all_world2pix, core.world_to_pixel_values), (f.world_to_pixel_values, core.world_to_pixel_values)):
        for g, h in zip(a(u, v), b(u, v)):
            I.eq(g, h, "the wrapper converts as the WCS it wraps", **TOL)
    if normal:
        I.true(f.pixel_scale_matrix == "P", "pixel scale matrix of the wrapped WCS")
    else:
        try:
            f.pixel_scale_matrix
            ok = False
        except TypeError:
            ok = True
        I.true(ok, "no pixel scale matrix for a generalised WCS")


def h_skytopix(I, nast, nsrc, ref, via):
    """nast: astrometry entries stored; nsrc: positions"""
    CW = [matrix(I, "pos") if k == 0 else [[-3.0 - k, 0.5], [0.25 * k, 2.0]] for k in range(nast)]
    crval = [[I.real("cv%d" % k, -2, 2), 0.5 * k] for k in range(nast)]
    crpix = [[I.real("cp%d" % k, -9, 9), 4.0 - k] for k in range(nast)]
    rc = [150.0, 2.0] if ref else [0.0, 0.0]
    exp = {"CW": I.array(CW), "crval": I.array(crval), "crpix": I.array(crpix)}
    ra = [I.real("ra%d" % k, -3, 3) for k in range(nsrc)]
    dec = [I.real("dec%d" % k, -3, 3) for k in range(nsrc)]
    A, D = I.array([x + rc[0] for x in ra]), I.array([x + rc[1] for x in dec])
    if via == "func":
        pix = U.sky_to_pix(A, D, exp, ref_coords=np.array(rc)) if ref else U.sky_to_pix(A, D, exp)
    else:
        r = PO.Residuals.__new__(PO.Residuals)
        r.exposures = ["F/other", "F/e"]
        r.handle = {"F/e": exp}
        r.reference_coordinates = np.array(rc)
        pix = r.sky_to_pix(A, D, e=1) if via == "index" else r.sky_to_pix(A, D, exp="F/e")
    I.true(np.shape(pix) == (nsrc, 2), "one pixel position per source")
    for s in range(nsrc):
        k = s if nsrc == nast else 0
        for i in range(2):
            want = CW[k][i][0] * (ra[s] - crval[k][0]) + CW[k][i][1] * (dec[s] - crval[k][1]) + crpix[k][i]
            I.eq(pix[s, i], want, "pixel position from the stored astrometry", rtol=1e-6, atol=1e-5)


def h_stamp(I, sym):
    st = SS.PostageStamp(3, 2)
    st.dpix_dsky = I.array(rot(I) if sym == "rot" else matrix(I, sym))
    st.crval = I.array([I.real("cv", 0, 20), 3.0])
    st.crpix = I.array([I.real("cp", -9, 9), 1.5])
    sky = I.array([I.real("ra", 0, 20), I.real("dec", -70, 70)])
    pix = st.sky_to_pix(sky)
    for i in range(2):
        I.eq(pix[i], st.dpix_dsky[i, 0] * (sky[0] - st.crval[0]) + st.dpix_dsky[i, 1] * (sky[1] - st.crval[1]) + st.crpix[i], "stamp pixel position", **TOL)
    back = st.pix_to_sky(pix)
    for i in range(2):
        I.eq(back[i], sky[i], "sky to pixel to sky is the identity", rtol=1e-5, atol=1e-5)
    for x in range(3):
        for y in range(2):
            I.true(int(st.xpix[x, y]) == x and int(st.ypix[x, y]) == y, "stamp pixel coordinates are [x, y]")
    I.true(st.npix == 6 and list(st.shape) == [3, 2], "stamp size")


class FakeWCS:
    has_distortion = False

    def __init__(self, naxis=2, **k):
        self.wcs = NS(cdelt=np.ones(2), pc=np.eye(2))

    @property
    def pixel_scale_matrix(self):
        return np.matmul(np.diag(self.wcs.cdelt), self.wcs.pc)

    def all_pix2world(self, x, y, origin, **k):
        self.asked = (x, y, origin)
        return self.wcs.crval[0], self.wcs.crval[1]

    wcs_pix2world = all_pix2world

    def pixel_to_world_values(self, x, y):
        return self.wcs.crval[0], self.wcs.crval[1]


def h_stampwcs(I, sym):
    """the FITS WCS of a stamp describes the stamp's own astrometry"""
    ra, dec, c = position(I)
    st = SS.PostageStamp(3, 2)
    st.scale = I.array(rot(I) if sym == "rot" else matrix(I, sym))
    st.crval = I.array([ra, dec])
    st.crpix = I.array([I.real("cp", -9, 9), 1.5])
    with sub((astropy.wcs, "WCS", FakeWCS)):
        w = st.wcs
    S = w.pixel_scale_matrix
    for i in range(2):
        I.eq(w.wcs.crval[i], st.crval[i], "reference coordinates", **TOL)
        I.eq(w.wcs.crpix[i], st.crpix[i] + 1, "FITS reference pixels count from one", **TOL)
        for j in range(2):
            p = (st.scale[i, 0] * S[0, j] + st.scale[i, 1] * S[1, j]) * 3600.0
            I.eq(p, 1.0 if i == j else 0.0, "the pixel scale matrix inverts the stamp's scale", **TOL)
        I.eq(st.dpix_dsky[i, 0], st.scale[i, 0] * 3600.0 * c, "the stamp's CW matrix follows its scale (ra)", rtol=1e-5, atol=1e-5)
        I.eq(st.dpix_dsky[i, 1], st.scale[i, 1] * 3600.0, "the stamp's CW matrix follows its scale (dec)", rtol=1e-5, atol=1e-5)


def harnesses(tier):
    syms = ("pos", "flip", "rot")
    dist = [dict(sym=s, which=w, dpix=d, force=f) for s in syms for w, d, f in (("utils", 1.0, 0), ("utils", 0.25, 1), ("stamp", 1.0, 0), ("stamp", 2.0, 1), ("fwcs", 1.0, 0), ("astropy", 1.0, 0), ("astropy", 0.5, 1), ("bare", 1.0, 0))]
    plain = [dict(sym=s, which=w) for s in syms for w in ("utils", "stamp", "fwcs")]
    s2p = [dict(nast=a, nsrc=n, ref=r, via=v) for a, n in ((1, 1), (1, 3), (3, 3), (2, 3), (2, 1)) for r, v in ((0, "func"), (1, "func"), (1, "index"), (1, "name"))]
    kw = dict(validate=1)
    return [
        Harness("distorted", h_dist, dist, functions=["utils.wcs.scale_at_sky", "slow.stamp.scale_at_sky", "FWCS.scale_at_sky"], bounds="any affine WCS with scales 1-5, shear up to 0.5, three orientations; |dec| <= 70", **kw),
        Harness("plain", h_plain, plain, functions=["utils.wcs.scale_at_sky", "slow.stamp.scale_at_sky", "FWCS.has_distortion/pixel_scale_matrix"], bounds="any pixel scale matrix with entries 1-5, three orientations", **kw),
        Harness("fwcs", h_fwcs, [dict(normal=n, dist=d) for n in (0, 1) for d in (0, 1)], functions=["FWCS"], bounds="any affine WCS, any position", **kw),
        Harness("sky_to_pix", h_skytopix, s2p, functions=["utils.wcs.sky_to_pix", "Residuals.sky_to_pix"], bounds="1-3 positions, 1-3 stored astrometry entries", **kw),
        Harness("stamp", h_stamp, [dict(sym=s) for s in syms], functions=["PostageStamp.sky_to_pix/pix_to_sky"], bounds="any invertible matrix in range", **kw),
        Harness("stamp_wcs", h_stampwcs, [dict(sym=s) for s in syms], functions=["PostageStamp.wcs", "slow.stamp.scale_at_sky"], bounds="any scale matrix in range", **kw),
    ]
