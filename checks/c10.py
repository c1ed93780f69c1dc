"""C10 friends-of-friends groups are the connected components of overlapping circles."""
import numpy as np

from vf.harness import Harness
from vf import scenes as Z
from vf import skystub
from vf.sym import Sym, s_hypot

import forcepho.superscene as SS

ROIS = [(1.0, 1.0, 1.0, 1.0), (0.5, 4.0, 2.0, 1.0), (6.0, 0.5, 3.0, 2.0)]
GUARD = 1e-6      # arcsec; keeps replay away from exact tangency


def build(I, n, roi, twod, maxactive=2, freeze=False):
    if isinstance(roi, str):
        pos, r = Z.LAYOUTS[roi]()
        cat = Z.catalog(I, n, rh=(0.1, 0.1), pos=pos)
        if freeze:
            r = [x[0] if isinstance(x, tuple) else x for x in r]
        r = I.array(Z.values(I, "roi", r))
    else:
        cat = Z.catalog(I, n, twod=twod, rh=(0.1, 0.1))
        r = I.farray(roi[:n]) if roi else I.reals("roi", n, 0.25, 6)
    s = SS.LinkedSuperScene(sourcecat=cat, bands=Z.BANDS, maxactive_per_patch=maxactive, boundary_radius=8.0, roi=r, buffer=0.3)
    return s, r


def And(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return b & a if not isinstance(a, Sym) else a & b
    return bool(a) and bool(b)


def Or(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return b | a if not isinstance(a, Sym) else a | b
    return bool(a) or bool(b)


def d2(p, q):
    dx, dy = p[0] - q[0], p[1] - q[1]
    return dx * dx + dy * dy


def within(I, p, q, r):
    """|p - q| < r, and keep clear of tangency"""
    dx, dy = p[0] - q[0], p[1] - q[1]
    if not isinstance(dy, Sym) and dy == 0:
        if isinstance(dx, Sym):
            I.assume_fact((dx - r > GUARD) | (dx - r < -GUARD))
            I.assume_fact((dx + r > GUARD) | (dx + r < -GUARD))
            return (dx < r) & (-dx < r)
        if abs(abs(dx) - r) < GUARD:
            I.assume(False)
        return bool(abs(dx) < r)
    if not isinstance(dx, Sym) and not isinstance(dy, Sym):
        e = float(np.hypot(dx, dy)) - r
    else:
        e = d2(p, q) - r * r
    I.assume_fact((e > 10 * GUARD) | (e < -10 * GUARD) if isinstance(e, Sym) else abs(e) > 10 * GUARD)
    return e < 0


def closure(I, s, r, n, layout=None):
    X = s.scene_coordinates
    if isinstance(layout, str):
        R = Z.adjacency(*Z.LAYOUTS[layout]())
    else:
        R = [[True if i == j else None for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(i):
                R[i][j] = R[j][i] = within(I, X[i], X[j], r[i] + r[j])
    A = [list(x) for x in R]
    for k in range(n):
        for i in range(n):
            for j in range(n):
                R[i][j] = Or(R[i][j], And(R[i][k], R[k][j]))
    return A, R


def iff(I, concrete, cond, label):
    if isinstance(cond, Sym):
        I.true(cond if concrete else ~cond, label)
    else:
        I.true(bool(cond) == bool(concrete), label)


def h_grow(I, n, roi, twod):
    s, r = build(I, n, roi, twod)
    A, R = closure(I, s, r, n, roi)
    i = I.choose("src", [0, n - 1, 3] if isinstance(roi, str) else list(range(n)))
    mem = [int(x) for x in s.grow_source(i)]
    I.true(len(set(mem)) == len(mem), "no duplicates in a group")
    I.true(i in mem, "the group contains the source itself")
    for j in range(n):
        iff(I, j in mem, R[i][j], "members are exactly the sources joined by a chain of overlapping circles")


def h_group(I, n, roi, twod):
    s, r = build(I, n, roi, twod)
    A, R = closure(I, s, r, n, roi)
    g = [int(x) for x in s.make_group_catalog()]
    I.true(len(g) == n, "one group per source")
    I.true(all(x >= 0 for x in g), "every source has a group")
    I.true(sorted(set(g)) == list(range(len(set(g)))), "groups are numbered from zero")
    for i in range(n):
        for j in range(i):
            iff(I, g[i] == g[j], R[i][j], "same group exactly when joined by a chain of overlaps")


def h_overlap(I, n, roi, twod, sort, seeded):
    s, r = build(I, n, roi, twod)
    X = s.scene_coordinates
    if seeded:
        i = I.choose("src", list(range(n)))
        c, rad = X[i], r[i]
    else:
        i = -1
        c = I.array([I.real("cx", -20, 20), I.real("cy", -20, 20) if twod else X[0][1]])
        rad = I.real("rad", 0.25, 8) if roi else 3.0
    exp = [within(I, X[j], c, r[j] + rad) if j != i else False for j in range(n)]
    kw = dict(seed_index=i) if seeded else {}
    out = [int(k) for k in s.find_overlaps(c, rad, sort=sort, **kw)]
    I.true(len(set(out)) == len(out), "no duplicates among the overlaps")
    for j in range(n):
        iff(I, j in out, exp[j], "overlaps are exactly the sources whose circle intersects")
    if sort:
        for a, b in zip(out, out[1:]):
            # nearest first in units of the summed radii
            ra, rb = r[a] + rad, r[b] + rad
            I.le(d2(X[a], c) * rb * rb, d2(X[b], c) * ra * ra, "overlaps are sorted nearest first", atol=1e-6)


def h_region(I, n, roi, twod, maxactive, buf):
    s, r = build(I, n, roi, twod, maxactive, freeze=True)
    if isinstance(buf, tuple):
        buf = I.real("buffer", *buf)
    s.buffer = buf
    X = s.scene_coordinates
    i = I.choose("src", [n - 1, 3] if isinstance(roi, str) else list(range(n)))
    region, act, fix = s.checkout_region(seed_index=i)
    I.true(act is not None, "free sources can be checked out")
    c = s.sky_to_scene(region.ra, region.dec)
    rad = region.radius * 3600.0
    ids = Z.int_list(act)
    for k in ids:
        rest = rad - r[k] - buf
        I.le(-1e-7, rest, "region radius exceeds every active radius of influence plus buffer")
        dx, dy = X[k][0] - c[0], X[k][1] - c[1]
        L = "region contains the influence circle of every active source plus the buffer"
        if I.symbolic and not isinstance(dy, Sym) and dy == 0:
            I.le(dx, rest + 1e-6, L)
            I.le(-dx, rest + 1e-6, L)
        else:
            I.le(s_hypot(dx, dy) if I.symbolic else np.hypot(dx, dy), rest + 1e-6, L)


def harnesses(tier):
    Fn = ["superscene.LinkedSuperScene.grow_source/find_overlaps/make_group_catalog/grow_scene/checkout_region"]
    k = dict(functions=Fn, stubs=skystub.STUBS, np_overrides=Z.NPO, max_paths=20000, validate=3,
             bounds="3 sources (thorough 4) on a line with symbolic positions and three radius assignments, 2 sources in the plane with symbolic radii; 12 to 15 sources in a star, a chain and two clumps with two or three symbolic radii; radii <= boundary radius; flat-sky stand-in")
    three = [dict(n=3, roi=x, twod=False) for x in ROIS]
    two = [dict(n=2, roi=None, twod=t) for t in (False, True)] + [dict(n=2, roi=ROIS[1], twod=True)]
    if tier != "quick":
        three = three + [dict(n=4, roi=x, twod=False) for x in ROIS]
    ov = [dict(c, sort=so, seeded=se) for c in three + two[1:] for so in (False, True) for se in (False, True)]
    rg = [dict(c, maxactive=m, buf=b) for c in three for m, b in ((1, 0.3), (3, 1.0))] + [dict(c, maxactive=2, buf=0.5) for c in two]
    crowd = [dict(n=len(Z.LAYOUTS[x]()[0]), roi=x, twod=True) for x in ("star", "string", "clumps")]
    c3 = [dict(c, maxactive=m, buf=(0, 2)) for c in crowd for m in (4, 15)] if tier != "quick" else []
    return [Harness("crowd_grow", h_grow, crowd, **k), Harness("crowd_groups", h_group, crowd, **k),
            Harness("grow_source", h_grow, three + two, **k), Harness("groups", h_group, three + two, **k),
            Harness("overlaps", h_overlap, ov, **k), Harness("region", h_region, rg + c3, **k)]
