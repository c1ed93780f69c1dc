"""C16 region containment, overlap and footprint geometry."""
from fractions import Fraction as F
from types import SimpleNamespace as NS

import numpy as np

from vf.harness import Harness
from vf.wcsstub import Affine, sub

import forcepho.region as R
import forcepho.patches.storage as ST


def imp(a, b):
    return np.logical_not(a) | b


# ---- oracle geometry (concrete shapes, exact rationals)

def hull(pts):
    """counter-clockwise convex hull, exact"""
    pts = sorted(set((F(x), F(y)) for x, y in pts))

    def half(ps):
        out = []
        for p in ps:
            while len(out) > 1 and ((out[-1][0] - out[-2][0]) * (p[1] - out[-2][1]) - (out[-1][1] - out[-2][1]) * (p[0] - out[-2][0])) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]
    return half(pts) + half(pts[::-1])


def halfplanes(poly):
    """(a, b, c): a x + b y + c > 0 inside, for the hull of poly; scaled so |(a, b)|_1 = 1"""
    h = hull(poly)
    out = []
    for (x0, y0), (x1, y1) in zip(h, h[1:] + h[:1]):
        a, b = -(y1 - y0), x1 - x0
        n = abs(a) + abs(b)
        out.append((float(a / n), float(b / n), float(-(a * x0 + b * y0) / n)))
    return out


def inside(poly, x, y, tol=1e-6):
    r = True
    for a, b, c in halfplanes(poly):
        r = r & (a * x + b * y + c > tol)
    return r


def outside(poly, x, y, tol=1e-6):
    r = False
    for a, b, c in halfplanes(poly):
        r = r | (a * x + b * y + c < -tol)
    return r


TRI = [(0, 0), (3, 0.5), (1, 2)]
SQ = [(0, 0), (1, 0), (1, 1), (0, 1)]
KITE = [(0, 0), (1, -0.5), (4, 0), (1, 3)]
PENT = [(0, 0), (2, -1), (4, 0), (3, 2), (1, 2.5)]
SLIM = [(0, 0), (8, 1), (8, 1.25), (0, 0.25)]
SHAPES = dict(tri=TRI, sq=SQ, kite=KITE, pent=PENT, slim=SLIM)


def h_point(I, shape, off):
    """point-in-polygon of concrete polygons, symbolic points and position"""
    P = SHAPES[shape]
    x, y = I.real("x", -10, 10), I.real("y", -10, 10)
    x2, y2 = I.real("x2", -10, 10), I.real("y2", -10, 10)
    poly = np.array([(a + off[0], b + off[1]) for a, b in P], dtype=float)
    pts = I.array([[x, y], [x2, y2]])
    res = {}
    n = len(P)
    for order in ((0, 1), (0, -1), (1, 1), (n - 1, -1)):
        idx = [(order[0] + order[1] * k) % n for k in range(n)]
        got = R.polygon_contains(poly[idx], pts)
        I.true(len(got) == 2, "one answer per point")
        for k, (u, v) in enumerate(((x, y), (x2, y2))):
            I.true(imp(inside(poly, u, v), got[k]), "a point inside the polygon is reported inside")
            I.true(imp(outside(poly, u, v), np.logical_not(got[k])), "a point outside the polygon is reported outside")


def h_par(I, cw):
    """any parallelogram: point v0 + s e1 + t e2 is inside exactly when 0 < s, t < 1"""
    v0 = [I.real("vx", -5, 5), I.real("vy", -5, 5)]
    e1 = [I.real("ax", 0.5, 2), I.real("ay", -1, 1)]
    e2 = [I.real("bx", -1, 1), I.real("by", 0.5, 2)]
    s, t = I.real("s", -2, 3), I.real("t", -2, 3)
    I.assume(e1[0] * e2[1] - e1[1] * e2[0] >= 0.1)
    add = lambda a, b, m, n: [v0[k] + m * a[k] + n * b[k] for k in (0, 1)]
    P = [v0, add(e1, e2, 1, 0), add(e1, e2, 1, 1), add(e1, e2, 0, 1)]
    if cw:
        P = P[::-1]
    got = R.polygon_contains(I.array(P), I.array([add(e1, e2, s, t)]))[0]
    m = 1e-3
    I.true(imp((s > m) & (s < 1 - m) & (t > m) & (t < 1 - m), got), "a point inside the polygon is reported inside")
    I.true(imp((s < -m) | (s > 1 + m) | (t < -m) | (t > 1 + m), np.logical_not(got)), "a point outside the polygon is reported outside")


def region(I, pts):
    return NS(bounding_box=(I.array([p[0] for p in pts]), I.array([p[1] for p in pts])))


def h_overlap(I, a, b, ra, rb):
    """two convex shapes at a symbolic relative position"""
    A, B = SHAPES[a], SHAPES[b]
    tx, ty = I.real("tx", -12, 12), I.real("ty", -12, 12)
    rot = lambda P, k: [P[(i * (-1 if k < 0 else 1) + abs(k)) % len(P)] for i in range(len(P))]
    ga = region(I, [(float(x), float(y)) for x, y in rot(A, ra)])
    gb = region(I, [(x + tx, y + ty) for x, y in rot(B, rb)])
    # A and B + t intersect exactly when t is in the Minkowski sum of A and -B
    mink = [(F(x) - F(u), F(y) - F(v)) for x, y in A for u, v in B]
    for p, q in ((ga, gb), (gb, ga)):
        got = R.polygons_overlap(p, q)
        I.true(imp(inside(mink, tx, ty), got), "intersecting shapes overlap")
        I.true(imp(outside(mink, tx, ty), np.logical_not(got)), "disjoint shapes do not overlap")


def rect(I, tag, wmin=0.25):
    x0, y0 = I.real(tag + "x", -5, 5), I.real(tag + "y", -5, 5)
    w, h = I.real(tag + "w", wmin, 6), I.real(tag + "h", wmin, 6)
    return x0, x0 + w, y0, y0 + h


def h_rects(I, order):
    """any two rectangular regions"""
    a, b = rect(I, "a"), rect(I, "b")
    p, q = R.RectangularRegion(*a), R.RectangularRegion(*b)
    if order:
        got = R.polygons_overlap(q, p)
    else:
        got = R.polygons_overlap(p, q)
    e = 1e-4
    I.true(imp((a[0] < b[1] - e) & (b[0] < a[1] - e) & (a[2] < b[3] - e) & (b[2] < a[3] - e), got), "intersecting regions overlap")
    I.true(imp((a[0] > b[1] + e) | (b[0] > a[1] + e) | (a[2] > b[3] + e) | (b[2] > a[3] + e), np.logical_not(got)), "disjoint regions do not overlap")


def h_rectbox(I):
    a = rect(I, "a")
    r = R.RectangularRegion(*a)
    bx = np.array(r.bounding_box)
    want = {(0, 0): (a[0], a[2]), (1, 0): (a[1], a[2]), (1, 1): (a[1], a[3]), (0, 1): (a[0], a[3])}
    I.true(bx.shape == (2, 4), "four corners")
    for k, c in enumerate(((0, 0), (1, 0), (1, 1), (0, 1))):
        I.eq(bx[0, k], want[c][0], "the bounding box is the rectangle, in order round it")
        I.eq(bx[1, k], want[c][1], "the bounding box is the rectangle, in order round it")


ROT = [[(1.0, 0.0), (0.0, 1.0)], [(0.6, -0.8), (0.8, 0.6)], [(-0.8, 0.6), (0.6, 0.8)], [(0.0, 1.0), (1.0, 0.0)]]


def sky_wcs(I, k, scale, cosd, pix0, sky0):
    """square pixels, any orientation and parity, cos(dec) of the field"""
    M = [[scale * ROT[k][i][0] * cosd, scale * ROT[k][i][1]] for i in (0, 1)]
    return Affine(M, sky0, pix0)


def corners(I, nx, ny, step, x0, y0):
    xc = np.empty((nx, ny, 4), dtype=object)
    yc = np.empty((nx, ny, 4), dtype=object)
    for i in range(nx):
        for j in range(ny):
            for k, (a, b) in enumerate(((0, 0), (0, 1), (1, 1), (1, 0))):
                xc[i, j, k] = x0 + step * (i + a)
                yc[i, j, k] = y0 + step * (j + b)
    return xc, yc


def selected(I, got, nx, ny):
    """np.where-style result -> list of cells, order and multiplicity checked"""
    g = [(int(a), int(b)) for a, b in zip(got[0], got[1])]
    I.true(len(set(g)) == len(g), "no superpixel is reported twice")
    return set(g)


def h_contains(I, kind, k, scale, cosd, nx, ny, step, free):
    dec0 = 60.0 if cosd == 0.5 else 0.0
    if free == "centre":
        cra, cdec = I.real("cra", 19.5, 21.5), I.real("cdec", dec0 - 1, dec0 + 1)
        x0, y0 = -0.5, 1.25
    else:
        cra, cdec = 20.625, dec0 - 0.25
        x0, y0 = I.real("x0", -8, 8), I.real("y0", -8, 8)
    w = sky_wcs(I, k, scale, cosd, [0.75, 1.0], [20.5, dec0])
    xc, yc = corners(I, nx, ny, step, x0, y0)
    if not I.symbolic:
        xc, yc = xc.astype(float), yc.astype(float)
    else:
        xc, yc = I.array(xc.tolist()), I.array(yc.tolist())
    if kind == "circle":
        rad = I.real("rad", 0.125, 1)
        reg = R.CircularRegion(cra, cdec, rad)
    else:
        ha, hd = I.real("ha", 0.0625, 1), I.real("hd", 0.0625, 1)
        reg = R.RectangularRegion(cra - ha, cra + ha, cdec - hd, cdec + hd)
    got = selected(I, reg.contains(xc, yc, w), nx, ny)
    for i in range(nx):
        for j in range(ny):
            ins, out = False, True
            for m in range(4):
                ra, dec = w.pixel_to_world_values(xc[i, j, m], yc[i, j, m])
                if kind == "circle":
                    d2 = ((ra - cra) * cosd) ** 2 + (dec - cdec) ** 2
                    a, b = d2 < rad * rad - 1e-4, d2 > rad * rad + 1e-4
                else:
                    e = 1e-6
                    da, dd = np.abs(ra - cra), np.abs(dec - cdec)
                    a, b = (da < ha - e) & (dd < hd - e), (da > ha + e) | (dd > hd + e)
                ins, out = ins | a, out & b
            f = (i, j) in got
            I.true(imp(ins, f), "a superpixel with a corner inside the region is reported")
            I.true(imp(out, not f), "a superpixel without a corner inside the region is not reported")


def h_circlebox(I):
    ra, dec, r = I.real("ra", 0, 360), I.real("dec", -75, 75), I.real("r", 0.001, 1)
    c = np.cos(np.deg2rad(dec))
    I.assume_fact(c >= 0.25)
    I.assume_fact(c <= 1)
    bx = np.array(R.CircularRegion(ra, dec, r).bounding_box)
    I.true(bx.shape == (2, 4), "four corners")
    for k, (sx, sy) in enumerate(((-1, -1), (1, -1), (1, 1), (-1, 1))):
        I.eq((bx[0, k] - ra) * c, sx * r, "the box reaches the circle's radius on the sky in ra", rtol=1e-6, atol=1e-6)
        I.eq(bx[1, k] - dec, sy * r, "the box reaches the circle's radius in dec", rtol=1e-6, atol=1e-6)


def h_overlaps(I, k, kind, imsize):
    """Region.overlaps(header)"""
    nx, ny = imsize
    w = sky_wcs(I, k, 4.0, 0.5, [I.real("px", -3, 3), 1.0], [20.5, 60.0])
    ra, dec = I.real("ra", 10, 30), I.real("dec", 55, 65)
    if kind == "rect":
        ha, hd = 0.75, 0.5
        reg = R.RectangularRegion(ra - ha, ra + ha, dec - hd, dec + hd)
    else:
        r = 0.5
        c = np.cos(np.deg2rad(dec))
        I.assume_fact((c >= 0.4) & (c <= 0.6))
        reg = R.CircularRegion(ra, dec, r)
        ha, hd = r / c, r
    hdr = {"NAXIS1": nx, "NAXIS2": ny}
    with sub((R, "WCS", lambda h, *a, **kw: w)):
        got = reg.overlaps(hdr)
    cs = [w.pixel_to_world_values(x, y) for x, y in ((0, 0), (nx, 0), (nx, ny), (0, ny))]
    mn = lambda v: np.minimum(np.minimum(v[0], v[1]), np.minimum(v[2], v[3]))
    mx = lambda v: np.maximum(np.maximum(v[0], v[1]), np.maximum(v[2], v[3]))
    e = 1e-4
    r0, r1, d0, d1 = mn([q[0] for q in cs]), mx([q[0] for q in cs]), mn([q[1] for q in cs]), mx([q[1] for q in cs])
    I.true(imp((ra + ha < r0 - e) | (ra - ha > r1 + e) | (dec + hd < d0 - e) | (dec - hd > d1 + e), np.logical_not(got)), "an image away from the region does not overlap it")
    # every point of the image inside the region's box is a witness of overlap: the image centre and corners
    for (x, y) in ((0, 0), (nx, 0), (nx, ny), (0, ny), (nx / 2, ny / 2)):
        u, v = w.pixel_to_world_values(x, y)
        I.true(imp((np.abs(u - ra) < ha - e) & (np.abs(v - dec) < hd - e), got), "an image with a point in the region overlaps it")
    # the region's centre on the image
    x, y = w.world_to_pixel_values(ra, dec)
    I.true(imp((x > e) & (x < nx - e) & (y > e) & (y < ny - e), got), "an image that holds the region's centre overlaps it")


class Axis3(Affine):
    naxis = 3

    def dropaxis(self, i):
        assert i == 2
        self.dropped = True
        return self._two


def h_footprint(I, exps, bandlist, imsize, sreg):
    """MetaStore.find_exposures: exposures whose image holds the position"""
    W, hdrs, made = {}, {}, []
    dec0 = 60.0
    for n, (band, eid, k, dx) in enumerate(exps):
        nx, ny = imsize if n % 2 == 0 else imsize[::-1]
        w = sky_wcs(I, k, 4.0, 0.5, [dx, 1.0], [20.5, dec0])
        h = {"NAXIS1": nx, "NAXIS2": ny, "ID": (band, eid)}
        if sreg:
            cs = [w.pixel_to_world_values(x, y) for x, y in ((0, 0), (nx, 0), (nx, ny), (0, ny))]
            h["S_REGION"] = "POLYGON ICRS " + " ".join("%r %r" % (float(a), float(b)) for a, b in cs)
        W[band, eid] = w
        hdrs.setdefault(band, {})[eid] = h
    st = ST.MetaStore()
    st.headers = hdrs
    st.wcs = {}

    def wcs(h, *a, **kw):
        made.append(h["ID"])
        w = W[h["ID"]]
        if h["ID"][1].startswith("c"):   # a spectral axis to be dropped
            w3 = Axis3(w.M, w.sky0, w.pix0)
            w3._two = w
            return w3
        return w
    ra, dec = I.real("ra", 10, 30), I.real("dec", 55, 65)
    with sub((ST, "WCS", wcs)):
        for rep in range(2):
            epaths, bands = st.find_exposures(I.array([ra, dec]), list(bandlist))
            got = list(zip(bands, epaths))
            I.true(len(set(got)) == len(got) and len(epaths) == len(bands), "each exposure is listed once")
            for n, (band, eid, k, dx) in enumerate(exps):
                nx, ny = imsize if n % 2 == 0 else imsize[::-1]
                f = (band, eid) in got
                if band not in bandlist:
                    I.true(not f, "exposures in other bands are not used")
                    continue
                x, y = W[band, eid].world_to_pixel_values(ra, dec)
                e = 1e-4
                I.true(imp((x > e) & (x < nx - e) & (y > e) & (y < ny - e), f), "an exposure whose image holds the position is found")
                I.true(imp((x < -e) | (x > nx + e) | (y < -e) | (y > ny + e), not f), "an exposure whose image does not hold the position is not found")
            I.true([b for b, _ in got] == sorted((b for b, _ in got), key=list(bandlist).index), "exposures are in band order")


def harnesses(tier):
    q = tier == "quick"
    pt = [dict(shape=s, off=o) for s in SHAPES for o in ((0, 0), (-2.5, 3))]
    names = list(SHAPES)
    ov = [dict(a=a, b=b, ra=i % 3, rb=(j % 3)) for i, a in enumerate(names) for j, b in enumerate(names)]
    cont = []
    for k in range(4):
        for cosd in (1.0, 0.5):
            for kind in ("circle", "rect"):
                cont.append(dict(kind=kind, k=k, scale=(4.0, 8.0)[k % 2], cosd=cosd, nx=1 + k % 2, ny=2 - k % 2, step=(1.0, 2.0)[k // 2], free=("centre", "pixels")[(k + (cosd == 1)) % 2]))
    if not q:
        cont += [dict(kind=kd, k=k, scale=4.0, cosd=0.5, nx=2, ny=2, step=1.5, free=fr) for k in range(4) for kd in ("circle", "rect") for fr in ("centre", "pixels")]
    ovl = [dict(k=k, kind=kd, imsize=s) for k in range(4) for kd in ("rect", "circle") for s in ((8, 8), (12, 4))]
    fp = [dict(exps=e, bandlist=b, imsize=s, sreg=r) for r in (0, 1) for e, b, s in (
        ([("A", "e1", 0, 3.0)], ["A"], (16, 4)), ([("B", "e1", 1, 0.0), ("A", "c2", 2, 5.0)], ["A", "B", "Z"], (6, 12)),
        ([("A", "e1", 3, 1.0), ("C", "e2", 0, 0.0), ("A", "e3", 1, -8.0)], ["B", "A"], (9, 20)))]
    kw = dict(validate=1, max_paths=4000)
    return [
        Harness("point", h_point, pt, functions=["polygon_contains"], bounds="5 convex polygons of 3-5 sides in every orientation, any point in a 20x20 field", **kw),
        Harness("parallelogram", h_par, [dict(cw=0), dict(cw=1)], functions=["polygon_contains"], bounds="every parallelogram with sides up to 2, any point", **kw),
        Harness("overlap", h_overlap, ov, functions=["polygons_overlap"], bounds="25 pairs of 5 convex shapes, any relative position", **kw),
        Harness("rects", h_rects, [dict(order=0), dict(order=1)], functions=["polygons_overlap", "RectangularRegion.bounding_box"], bounds="any two rectangles with sides in [0.25, 6]", **kw),
        Harness("rectbox", h_rectbox, [{}], functions=["RectangularRegion.bounding_box"], bounds="any rectangle", **kw),
        Harness("contains", h_contains, cont, functions=["CircularRegion.contains", "RectangularRegion.contains"], bounds="1x2, 2x1 (thorough 2x2) superpixels anywhere, square-pixel affine WCS of 4 orientations at dec 0 and 60", **kw),
        Harness("circlebox", h_circlebox, [{}], functions=["CircularRegion.bounding_box"], bounds="|dec| <= 75, radius up to 1 degree", **kw),
        Harness("overlaps", h_overlaps, ovl, functions=["Region.overlaps", "polygons_overlap"], bounds="square and oblong images in 4 orientations, any region position", **kw),
        Harness("footprint", h_footprint, fp, functions=["MetaStore.find_exposures", "polygon_contains"], bounds="up to 3 oblong exposures in 4 orientations, with and without S_REGION, any position", **kw),
    ]
