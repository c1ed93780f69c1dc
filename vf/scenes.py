"""symbolic master catalogs for the superscene checks"""
import contextlib

import numpy as np

from . import symnp
from .sym import Infeasible

import forcepho.superscene as SS

BANDS = ["F1", "F2"]
RA0 = 10.0


def values(I, name, v):
    """[v0, (lo, hi), ...] -> numbers, and symbolic reals for the ranges"""
    return [I.real("%s%d" % (name, i), *x) if isinstance(x, (tuple, list)) else x for i, x in enumerate(v)]


def star(m=12, r=6.0):
    """a source in the middle of m that touch it and not each other; index 3 is the middle"""
    import math
    pos = [(r * math.cos(2 * math.pi * k / m + 0.1), r * math.sin(2 * math.pi * k / m + 0.1)) for k in range(m)]
    roi = [0.6] * m
    roi[1] = (0.5, 0.7)
    pos.insert(3, (0.0, 0.0))
    roi.insert(3, 5.9)
    return pos, roi


def string(m=14, step=1.5):
    """a chain of overlapping neighbours, in shuffled index order, and one source apart"""
    order = [(5 * k) % m if m % 5 else (3 * k) % m for k in range(m)]
    pos = [(step * (j - m / 2.0), 0.25 * (j % 2)) for j in order] + [(0.0, 12.0)]
    roi = [0.85] * (m + 1)
    roi[2] = (0.8, 0.9)
    return pos, roi


def clumps(m=6, sep=14.0):
    """two dense clumps with interleaved indices"""
    pos = [((k % 2) * sep + 0.45 * (k // 2), 0.3 * ((k // 2) % 3)) for k in range(2 * m)]
    roi = [0.5] * (2 * m)
    roi[5] = (0.45, 0.5)
    return pos, roi


def adjacency(pos, roi):
    """which circles overlap, for every radius in the ranges; None where the ranges do not decide it"""
    import math
    lo = [r[0] if isinstance(r, tuple) else r for r in roi]
    hi = [r[1] if isinstance(r, tuple) else r for r in roi]
    n = len(pos)
    A = [[i == j for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j:
                d = math.hypot(pos[i][0] - pos[j][0], pos[i][1] - pos[j][1])
                a, b = d < lo[i] + lo[j] - 1e-3, d < hi[i] + hi[j] + 1e-3
                assert a == b, (i, j)
                A[i][j] = a
    return A


LAYOUTS = {"star": star, "string": string, "clumps": clumps}


def catalog(I, n, bands=BANDS, twod=False, span=20, rh=(0.05, 0.3), sym_flux=False, pos=None):
    """n sources around RA0; positions symbolic (arcsec) in any order, or as given"""
    cat = I.zeros(n, SS.sourcecat_dtype(bands=list(bands)))
    for i in range(n):
        cat["id"][i] = 100 + i
        cat["source_index"][i] = i
        cat["ra"][i] = RA0 + (pos[i][0] if pos else I.real("x%d" % i, -span, span)) / 3600.0
        cat["dec"][i] = pos[i][1] / 3600.0 if pos else (I.real("y%d" % i, -span, span) / 3600.0) if twod else 0.0
        cat["q"][i] = 0.5 + 0.05 * i
        cat["pa"][i] = 0.1 * (i + 1)
        cat["sersic"][i] = 1.5 + 0.25 * i
        r = rh[i] if isinstance(rh, list) else rh
        cat["rhalf"][i] = I.real("rh%d" % i, *r) if isinstance(r, tuple) and r[0] < r[1] else r[0] if isinstance(r, tuple) else r
        for k, b in enumerate(bands):
            cat[b][i] = I.real("%s_%d" % (b, i), 0.5, 4) if sym_flux else 1.0 + i + 10 * k
        cat["is_valid"][i] = 1
    return cat


def median0(a, axis=None, **k):
    """scene centre: any fixed point will do in the flat-sky stand-in"""
    if isinstance(a, np.ndarray) and a.dtype != object:
        return float(np.median(a))
    return RA0


@contextlib.contextmanager
def draw(I, k):
    """np.random.choice returns index k, which must have positive probability"""
    def choice(n, size=None, replace=True, p=None):
        if p is not None:
            I.assume(p[k] > 0)
        return k
    real = np.random.choice
    if I.symbolic:
        DRAW["choice"] = choice
    else:
        np.random.choice = choice
    try:
        yield
    finally:
        np.random.choice = real
        DRAW.clear()


DRAW = {}


class _Random:
    def __getattr__(self, name):
        if name in DRAW:
            return DRAW[name]
        return getattr(np.random, name)


NPO = {"median": median0, "random": _Random()}


def snapshot(s):
    cat = s.sourcecat
    out = {f: [cat[f][i] for i in range(len(cat))] for f in cat.dtype.names}
    out["_n"] = [s.n_active, s.n_fixed]
    return out


def bsnapshot(s):
    out = {}
    b = s.bounds_catalog
    for f in b.dtype.names:
        for i in range(len(b)):
            out[f, i] = [b[f][i][k] for k in range(2)] if np.ndim(b[f][i]) else [b[f][i]]
    return out


def int_list(x):
    return [] if x is None else [int(v) for v in x["source_index"]]
