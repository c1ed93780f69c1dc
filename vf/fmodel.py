"""Host-side harness pieces shared by the Python checks: real Galaxy/Scene
objects with symbolic splines, and a device emulator that stands for the
compiled kernel (whose own behaviour C01-C03 decide).  The emulator receives the
same raw pointers the real kernel gets and reads/writes that memory."""
import sys
import types
import warnings

import numpy as np

from . import sym as S
from . import symnp
from .sym import Sym

import forcepho.proposal as FP
import forcepho.sources as FS
from forcepho.kernel_limits import MAXSOURCES, NPARAMS

PN = ["ra", "dec", "q", "pa", "nsersic", "rh"]


class Spline:
    """amplitude spline of (sersic, rhalf): any bilinear function"""
    def __init__(self, c):
        self.c = c

    def val(self, n, r):
        c = self.c
        return c[0] + c[1] * n + c[2] * r + c[3] * n * r

    def dn(self, n, r):
        return self.c[1] + self.c[3] * r

    def dr(self, n, r):
        return self.c[2] + self.c[3] * n

    def __call__(self, x, y, dx=0, dy=0, grid=True, mth=None):
        f = {(0, 0): self.val, (1, 0): self.dn, (0, 1): self.dr}[(dx, dy)]
        v = f(x, y)
        v = [[v]] if grid else v
        return symnp.sarr(v) if symnp.has_sym(v) else np.array(v)

    ev = None


def _ev(self, x, y, dx=0, dy=0):
    return self(x, y, dx=dx, dy=dy, grid=False)


Spline.ev = _ev


class FlatGalaxy(FS.Galaxy):
    """mixture amplitudes do not matter to the property: constants"""
    amplitudes = property(lambda self: np.ones(len(self.radii)))
    damplitude_dsersic = property(lambda self: np.zeros(len(self.radii)))
    damplitude_drh = property(lambda self: np.zeros(len(self.radii)))


def galaxy(bands, radii, splines, sersic_range=(0.5, 6.0), rh_range=(0.01, 5.0), cls=None):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = (cls or FS.Galaxy)(filternames=list(bands), splinedata=None)
    g.radii = radii
    g.splines = splines
    g.sersic_range = sersic_range
    g.rh_range = rh_range
    return g


def concrete_splines(nrad):
    return [Spline([0.5 + r, 0.25 * (r + 1), -0.125 * (r + 2), 0.0625 * (r + 1)]) for r in range(nrad)]


def find_array(addr, *owners):
    seen = set()

    def walk(o, depth):
        if id(o) in seen or depth > 3:
            return None
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            return o if o.size and o.__array_interface__["data"][0] == addr else None
        if isinstance(o, dict):
            it = list(o.values())
        elif isinstance(o, (list, tuple)):
            it = o
        elif hasattr(o, "__dict__") and type(o).__module__.startswith(("forcepho", "checks", "vf")):
            it = list(vars(o).values())
        else:
            return None
        for v in it:
            r = walk(v, depth + 1)
            if r is not None:
                return r
    for o in owners:
        r = walk(o, 0)
        if r is not None:
            return r
    return None


class _View:
    pass


def raw_view(addr, shape, dtype):
    dtype = np.dtype(dtype)
    v = _View()
    v.__array_interface__ = dict(data=(int(addr), False), shape=tuple(shape), typestr=dtype.str, version=3)
    return np.asarray(v)


def read_proposal(addr, nsrc, symbolic, *owners):
    a = find_array(int(addr), *owners)
    if a is None:
        dt = FP.source_struct_dtype
        if symbolic:
            dt = symnp.obj_dtype(dt)
            n = dt.itemsize // 8
            flat = raw_view(addr, (nsrc * n,), object)
            out = []
            for s in range(nsrc):
                row, k = {}, s * n
                for f in dt.names:
                    w = dt[f].itemsize // 8
                    row[f] = list(flat[k:k + w]) if w > 1 else flat[k]
                    k += w
                out.append(row)
            return out
        buf = raw_view(addr, (nsrc * dt.itemsize,), np.uint8)
        a = np.array(buf).view(dt)
    return [{f: (list(a[f][s]) if np.ndim(a[f][s]) else a[f][s]) for f in a.dtype.names} for s in range(min(nsrc, len(a)))]


class Ret:
    pass


class Kernel:
    """stands for EvaluateProposal.  respond(call, band, proposals) ->
    chi2, {(s, j): dchi2}; pixel(model) optional, see PixelKernel"""

    def __init__(self, I, patch, respond, nsrc=None):
        self.I, self.patch, self.respond = I, patch, respond
        self.log = []
        self.proposer = None

    def __call__(self, band, patch_ptr, prop_ptr):
        n = int(self.patch.n_sources)
        props = read_proposal(prop_ptr, n, self.I.symbolic, self.proposer)
        call = len(self.log)
        self.log.append((band, props))
        chi2, d = self.respond(call, int(band), props)
        r = Ret()
        r.chi2 = chi2
        flat = [d.get((k // NPARAMS, k % NPARAMS), JUNK) for k in range(MAXSOURCES * NPARAMS)]
        r.dchi2_dp = self.I.array(flat)
        return r


JUNK = 977.0   # slots of sources that do not exist: must never be used


def make_proposer(kernel):
    """the real CPUProposer around the emulated kernel"""
    name = "forcepho.src.compute_gaussians_kernel"
    mod = types.ModuleType(name)
    mod.EvaluateProposal = kernel
    saved = {k: sys.modules.get(k) for k in ("forcepho.src", name)}
    if saved["forcepho.src"] is None:
        pk = types.ModuleType("forcepho.src")
        pk.__path__ = []
        sys.modules["forcepho.src"] = pk
    sys.modules[name] = mod
    try:
        p = FP.CPUProposer()
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    kernel.proposer = p
    return p
