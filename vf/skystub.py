"""Stand-ins (symbolic mode only) for astropy SkyCoord and scipy cKDTree: a
locally flat sky, and exact ball queries decided by the solver."""
import numpy as np

from . import sym as S
from . import symnp


class _Ang:
    def __init__(self, v):
        self.deg = self.degree = v
        self.arcsec = v * 3600.0


class _Frame:
    def __init__(self, ra, dec):
        self.ra, self.dec = ra, dec


class SkyCoord:
    def __init__(self, ra, dec, unit="deg", frame=None, **k):
        self._ra, self._dec = ra, dec

    @property
    def ra(self):
        return _Ang(self._ra)

    @property
    def dec(self):
        return _Ang(self._dec)

    def skyoffset_frame(self, **k):
        return _Frame(self._ra, self._dec)

    def transform_to(self, f):
        class R:
            pass
        r = R()
        r.lon = _Ang(self._ra - f.ra)
        r.lat = _Ang(self._dec - f.dec)
        return r

    def separation(self, other):
        dx, dy = self._ra - other._ra, self._dec - other._dec
        return _Ang(np.hypot(dx, dy))


class KDTree:
    def __init__(self, data, *a, **k):
        self.data = data

    def query_ball_point(self, x, r, p=2.0, **k):
        out = []
        for i in range(len(self.data)):
            dx = self.data[i][0] - x[0]
            dy = self.data[i][1] - x[1]
            if not isinstance(dy, S.Sym) and dy == 0:
                c = (dx <= r) & (-dx <= r) if isinstance(dx, S.Sym) else abs(dx) <= r
            elif not isinstance(dx, S.Sym) and dx == 0:
                c = (dy <= r) & (-dy <= r) if isinstance(dy, S.Sym) else abs(dy) <= r
            else:
                c = dx * dx + dy * dy <= r * r
            if bool(c):
                out.append(i)
        return out


STUBS = {("forcepho.superscene", "SkyCoord"): SkyCoord, ("forcepho.superscene", "cKDTree"): KDTree}
