"""Affine stand-in for a WCS (both modes): pixel = M (sky - sky0) + pix0, and a
context manager to substitute names in the modules under test."""
import contextlib

import numpy as np


class Affine:
    naxis = 2

    def __init__(self, M, sky0, pix0, has_distortion=True, name=""):
        self.M, self.sky0, self.pix0 = M, sky0, pix0
        a, b, c, d = M[0][0], M[0][1], M[1][0], M[1][1]
        det = a * d - b * c
        self.Minv = [[d / det, -b / det], [-c / det, a / det]]
        self.has_distortion = has_distortion
        self.name = name

    def world_to_pixel_values(self, ra, dec, *extra):
        dx, dy = ra - self.sky0[0], dec - self.sky0[1]
        return (self.M[0][0] * dx + self.M[0][1] * dy + self.pix0[0],
                self.M[1][0] * dx + self.M[1][1] * dy + self.pix0[1])

    def pixel_to_world_values(self, x, y, *extra):
        dx, dy = x - self.pix0[0], y - self.pix0[1]
        return (self.Minv[0][0] * dx + self.Minv[0][1] * dy + self.sky0[0],
                self.Minv[1][0] * dx + self.Minv[1][1] * dy + self.sky0[1])

    def all_world2pix(self, ra, dec, origin=0):
        x, y = self.world_to_pixel_values(ra, dec)
        return x + origin, y + origin

    def all_pix2world(self, x, y, origin=0):
        return self.pixel_to_world_values(x - origin, y - origin)

    wcs_world2pix = all_world2pix
    wcs_pix2world = all_pix2world


_MISSING = object()
_ACTIVE = []


def _get(m, a):
    return m.get(a, _MISSING) if isinstance(m, dict) else getattr(m, a, _MISSING)


def _put(m, a, v):
    if not isinstance(m, dict):
        setattr(m, a, v)
    elif v is _MISSING:
        m.pop(a, None)
    else:
        m[a] = v


@contextlib.contextmanager
def sub(*items):
    """items: (module or dict, attr, value); missing attributes are skipped"""
    saved = []
    try:
        for m, a, v in items:
            old = _get(m, a)
            if old is not _MISSING:
                saved.append((m, a, old))
                _ACTIVE.append((m, a, old))
                _put(m, a, v)
        yield
    finally:
        for m, a, v in reversed(saved):
            _put(m, a, v)
            _ACTIVE.pop()


@contextlib.contextmanager
def unsubbed():
    """the modules under test as they are, whatever substitutions are in force
    (a replay runs nested in the symbolic run that asked for it)"""
    global _ACTIVE
    mine, now = _ACTIVE, []
    for m, a, old in reversed(mine):
        now.append((m, a, _get(m, a)))
        _put(m, a, old)
    _ACTIVE = []
    try:
        yield
    finally:
        _ACTIVE = mine
        for m, a, v in reversed(now):
            _put(m, a, v)


class Fits:
    """fits.getdata/getheader over a dict {(path, ext): array}, {path: header}"""

    def __init__(self, data, headers):
        self.data, self.headers = data, headers

    def getdata(self, path, *ext, **kw):
        e = ext[0] if ext else kw.get("ext", kw.get("extname"))
        return self.data[str(path), e].copy()

    def getheader(self, path, *ext, **kw):
        return self.headers[str(path)]
