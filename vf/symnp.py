"""numpy over symbolic scalars: object-dtype ndarray subclass + module proxy."""
import math
import itertools
import functools
import numpy as np

from . import sym as S
from .sym import Sym

_obj = np.dtype(object)


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype == _obj:
            return any(isinstance(v, Sym) for v in x.ravel())
        if x.dtype.names:
            return any(has_sym(np.ndarray.__getitem__(x, n)) for n in x.dtype.names if x.dtype[n].hasobject)
        return False
    if isinstance(x, np.void):
        return any(has_sym(x[n]) for n in (x.dtype.names or ()))
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def wrap(a):
    if isinstance(a, np.ndarray) and not isinstance(a, SArr) and (a.dtype == _obj or (a.dtype.names and a.dtype.hasobject)):
        return a.view(SArr)
    return a


def tidy(a):
    """object array without any Sym -> native array if homogeneous numeric."""
    if isinstance(a, np.ndarray) and a.dtype == _obj:
        vals = list(a.ravel())
        if vals and all(isinstance(v, (bool, np.bool_)) for v in vals):
            return np.array(vals, dtype=bool).reshape(a.shape)
    return a


# --- scalar implementations of ufuncs ---------------------------------------

def _arctan2(a, b):
    if S.isnum(a) and S.isnum(b):
        return np.arctan2(a, b)
    return Sym(S.uf("arctan2", 2)(S.rterm(a), S.rterm(b)))


def _logical(f):
    return lambda a, b: f(S.b_(a), S.b_(b))


def _num(f, g):
    """f on symbolic, g on concrete"""
    def h(*a):
        if any(isinstance(x, Sym) for x in a):
            return f(*a)
        return g(*a)
    return h


def _clip(a, lo, hi):
    r = a
    if lo is not None:
        r = S_max(r, lo)
    if hi is not None:
        r = S_min(r, hi)
    return r


def S_max(a, b):
    return S.s_max(a, b)


def S_min(a, b):
    return S.s_min(a, b)


def _fdiv(a, b):
    with np.errstate(all="ignore"):
        return np.true_divide(a, b).item()


TABLE = {
    "add": _num(S.s_add, lambda a, b: a + b),
    "subtract": _num(S.s_sub, lambda a, b: a - b),
    "multiply": _num(S.s_mul, lambda a, b: a * b),
    "divide": _num(S.s_div, _fdiv),
    "true_divide": _num(S.s_div, _fdiv),
    "floor_divide": _num(S.s_floordiv, lambda a, b: a // b),
    "remainder": _num(S.s_mod, lambda a, b: a % b),
    "mod": _num(S.s_mod, lambda a, b: a % b),
    "power": _num(S.s_pow, lambda a, b: np.power(a, b)),
    "float_power": _num(S.s_pow, lambda a, b: np.float_power(a, b)),
    "negative": S.s_neg,
    "positive": lambda a: a,
    "absolute": S.s_abs,
    "fabs": S.s_abs,
    "sign": S.s_sign,
    "square": lambda a: a * a,
    "reciprocal": lambda a: S.s_div(1.0, a),
    "sqrt": S.s_sqrt,
    "hypot": S.s_hypot,
    "exp": S.s_exp,
    "log": S.s_log,
    "log10": lambda a: S.s_div(S.s_log(a), Sym(S.uf("log")(S.z3.RealVal(10)))) if isinstance(a, Sym) else np.log10(a),
    "cos": S.s_cos,
    "sin": S.s_sin,
    "tan": S.s_tan,
    "arctan2": _arctan2,
    "deg2rad": lambda a: S.s_deg2rad(a),
    "radians": lambda a: S.s_deg2rad(a),
    "rad2deg": lambda a: S.s_rad2deg(a),
    "degrees": lambda a: S.s_rad2deg(a),
    "maximum": S_max, "minimum": S_min, "fmax": S_max, "fmin": S_min,
    "clip": _clip,
    "isfinite": S.s_isfinite, "isnan": S.s_isnan, "isinf": S.s_isinf,
    "logical_not": S.s_not,
    "logical_and": _logical(S.s_and), "logical_or": _logical(S.s_or),
    "logical_xor": _logical(lambda a, b: S.s_xor(a, b) if isinstance(a, Sym) or isinstance(b, Sym) else a != b),
    "bitwise_and": _num(S.s_bitand, lambda a, b: a & b),
    "bitwise_or": _num(S.s_bitor, lambda a, b: a | b),
    "bitwise_xor": _num(S.s_bitxor, lambda a, b: a ^ b),
    "invert": lambda a: S.s_invert(a) if not isinstance(a, bool) else (not a),
    "less": _num(lambda a, b: S.s_cmp(a, b, "<"), lambda a, b: a < b),
    "less_equal": _num(lambda a, b: S.s_cmp(a, b, "<="), lambda a, b: a <= b),
    "greater": _num(lambda a, b: S.s_cmp(a, b, ">"), lambda a, b: a > b),
    "greater_equal": _num(lambda a, b: S.s_cmp(a, b, ">="), lambda a, b: a >= b),
    "equal": lambda a, b: a == b,
    "not_equal": lambda a, b: a != b,
    "floor": S.s_floor, "ceil": S.s_ceil, "rint": S.s_rint,
    "trunc": lambda a: S.s_floor(a) if bool(a >= 0) else S.s_ceil(a),
    "conjugate": lambda a: a,
    "isclose": None,
    "arcsinh": S.s_generic("arcsinh", np.arcsinh),
    "sinh": S.s_sinh, "cosh": S.s_cosh, "tanh": S.s_tanh, "arctan": S.s_generic("arctan", np.arctan),
    "arccos": S.s_generic("arccos", np.arccos), "arcsin": S.s_generic("arcsin", np.arcsin),
    "expm1": lambda a: S.s_sub(S.s_exp(a), 1.0),
    "log1p": lambda a: S.s_log(S.s_add(a, 1.0)),
    "heaviside": None,
}

BOOLRES = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal",
           "isfinite", "isnan", "isinf", "logical_not", "logical_and", "logical_or", "logical_xor"}


def _plain(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    return x


def apply_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    fn = TABLE.get(name)
    out = kw.pop("out", None)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    where = kw.pop("where", True)
    if name in ("matmul", "vecdot"):
        r = _matmul(*[_asobj(x) for x in inputs])
        return _give(r, out)
    if fn is None:
        ins = [_plain(x) for x in inputs]
        r = getattr(ufunc, method)(*ins, **kw)
        return _give(wrap(r) if isinstance(r, np.ndarray) else r, out)
    if method == "__call__":
        arrs = [_asobj(x) for x in inputs]
        if all(a.ndim == 0 for a in arrs):
            r = fn(*[a.item() for a in arrs])
            if out is None:
                return r
            res = np.empty((), dtype=object)
            res[()] = r
            return _give(res, out, where)
        b = np.broadcast(*arrs)
        res = np.empty(b.shape, dtype=object)
        bs = np.broadcast_arrays(*arrs)
        flat = [x.ravel() for x in bs]
        if out is not None and where is not True:
            rf = None
        vals = [fn(*t) for t in zip(*flat)]
        for i, v in enumerate(vals):
            res.flat[i] = v
        if name in BOOLRES or name in ("invert", "bitwise_and", "bitwise_or"):
            res = tidy(res)
        return _give(wrap(res), out, where)
    if method == "reduce":
        return _give(_reduce(fn, _asobj(inputs[0]), name=name, **kw), out)
    if method == "accumulate":
        a = _asobj(inputs[0])
        axis = kw.get("axis", 0)
        r = np.empty(a.shape, dtype=object)
        am = np.moveaxis(a, axis, 0)
        rm = np.moveaxis(r, axis, 0)
        for i in range(am.shape[0]):
            if i == 0:
                rm[i] = am[i]
            else:
                p, q = np.atleast_1d(rm[i - 1]), np.atleast_1d(am[i])
                o = np.empty(p.shape, dtype=object)
                for j in np.ndindex(*p.shape):
                    o[j] = fn(p[j], q[j])
                rm[i] = o if np.ndim(rm[i]) else o.item()
        return wrap(r)
    if method == "outer":
        a, b = _asobj(inputs[0]), _asobj(inputs[1])
        r = np.empty(a.shape + b.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            for j in np.ndindex(*b.shape):
                r[i + j] = fn(a[i], b[j])
        return wrap(r)
    if method == "at":
        a, idx, b = inputs[0], inputs[1], inputs[2]
        idx = np.asarray(idx)
        bb = np.broadcast_to(_asobj(b), idx.shape)
        for i, v in zip(idx.ravel(), bb.ravel()):
            a[i] = fn(a[i], v)
        return None
    raise NotImplementedError("ufunc method %s.%s" % (name, method))


def _asobj(x):
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        if x.dtype == _obj:
            return x.view(np.ndarray)
        return np.asarray(x).astype(object)
    if isinstance(x, (list, tuple)):
        return _listarr(x)
    a = np.empty((), dtype=object)
    a[()] = x.item() if isinstance(x, np.generic) and not isinstance(x, np.float32) else x
    return a


def _listarr(x):
    """np.array(list) for nested lists with Syms/arrays, as object."""
    def shape(v):
        if isinstance(v, np.ndarray):
            return v.shape
        if isinstance(v, (list, tuple)):
            if len(v) == 0:
                return (0,)
            return (len(v),) + shape(v[0])
        return ()
    sh = shape(x)
    r = np.empty(sh, dtype=object)

    def fill(v, pre):
        if isinstance(v, np.ndarray):
            vo = _asobj(v)
            for i in np.ndindex(*v.shape):
                r[pre + i] = vo[i]
        elif isinstance(v, (list, tuple)):
            for i, w in enumerate(v):
                fill(w, pre + (i,))
        else:
            r[pre] = v.item() if isinstance(v, np.generic) else v
    fill(x, ())
    return r


def _give(r, out, where=True):
    if out is None:
        return r
    o = out[0] if isinstance(out, tuple) else out
    if where is not True:
        w = concrete_mask(where)
        o[w] = r[w]
    else:
        o[...] = r
    return o


_IDENT = {"add": 0.0, "multiply": 1.0, "logical_and": True, "logical_or": False, "maximum": None, "minimum": None}


def _reduce(fn, a, axis=0, keepdims=False, initial=None, name="add", **kw):
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(ax % a.ndim for ax in axis)
    else:
        axes = (axis % max(a.ndim, 1),) if a.ndim else ()
    if a.ndim == 0:
        return a.item()
    keep = [i for i in range(a.ndim) if i not in axes]
    t = np.transpose(a, keep + list(axes))
    ksh = t.shape[:len(keep)]
    t = t.reshape(ksh + (-1,))
    res = np.empty(ksh, dtype=object)
    for i in np.ndindex(*ksh):
        vals = list(t[i])
        if initial is not None and not isinstance(initial, type(np._NoValue)):
            vals = [initial] + vals
        if not vals:
            v = _IDENT.get(name)
            if v is None:
                raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
        else:
            v = vals[0]
            if name in ("logical_and", "logical_or"):
                v = S.b_(v)
            elif isinstance(v, (bool, np.bool_)) and name in ("add", "multiply"):
                v = int(v)
            for w in vals[1:]:
                v = fn(v, w)
        res[i] = v
    if keepdims:
        sh = [1 if i in axes else a.shape[i] for i in range(a.ndim)]
        return wrap(res.reshape(sh))
    if res.ndim == 0:
        return res.item()
    return wrap(tidy(res))


def _matmul(a, b):
    a1, b1 = a.ndim == 1, b.ndim == 1
    A = a[None, :] if a1 else a
    B = b[:, None] if b1 else b
    if A.shape[-1] != B.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from %d)" % (B.shape[-2], A.shape[-1]))
    bsh = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, bsh + A.shape[-2:])
    B = np.broadcast_to(B, bsh + B.shape[-2:])
    r = np.empty(bsh + (A.shape[-2], B.shape[-1]), dtype=object)
    n = A.shape[-1]
    for i in np.ndindex(*r.shape):
        v = 0.0
        for k in range(n):
            v = v + A[i[:-1] + (k,)] * B[i[:-2] + (k, i[-1])]
        r[i] = v
    if a1:
        r = r[..., 0, :]
    if b1:
        r = r[..., 0]
    return r.item() if r.ndim == 0 else wrap(r)


def concrete_mask(m):
    m = np.asarray(m)
    if m.dtype == _obj:
        return np.array([bool(v) for v in m.ravel()], dtype=bool).reshape(m.shape)
    return m


def concrete_index(k):
    """Make an index usable: object bool masks fork, Sym ints fork."""
    if isinstance(k, tuple):
        return tuple(concrete_index(x) for x in k)
    if isinstance(k, Sym):
        if S.z3.is_bool(k.e):
            return bool(k)
        return k.__index__()
    if isinstance(k, np.ndarray) and k.dtype == _obj:
        vals = list(k.ravel())
        if not vals:
            return np.zeros(k.shape, dtype=int)
        if all(S._isb(v) for v in vals):
            return concrete_mask(k)
        return np.array([v if isinstance(v, (int, np.integer)) else
                         (v.__index__() if isinstance(v, Sym) else _intexact(v)) for v in vals], dtype=int).reshape(k.shape)
    if isinstance(k, list) and any(isinstance(v, Sym) for v in k):
        return concrete_index(_listarr(k))
    if isinstance(k, SArr):
        return k.view(np.ndarray)
    if isinstance(k, slice):
        f = lambda v: v.__index__() if isinstance(v, Sym) else v
        return slice(f(k.start), f(k.stop), f(k.step))
    return k


def _intexact(v):
    raise IndexError("arrays used as indices must be of integer (or boolean) type")


def obj_dtype(dt):
    """dtype with all floats replaced by object"""
    if dt is None:
        return _obj
    dt = np.dtype(dt)
    if dt.names:
        return np.dtype([(n, obj_sub(dt[n])) if dt[n].shape == () else (n, obj_dtype(dt[n].base), dt[n].shape) for n in dt.names])
    return obj_sub(dt)


def obj_sub(dt):
    if dt.names:
        return obj_dtype(dt)
    if dt.kind == "f":
        return _obj
    return dt


class SArr(np.ndarray):
    """object ndarray with symbolic-aware semantics"""
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return apply_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        f = FUNCS.get(func.__name__) if getattr(np, func.__name__, None) is func else None
        if f is None and getattr(np.linalg, func.__name__, None) is func:
            f = LINALG.get(func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        return wrap(super().__array_function__(func, types, args, kwargs))

    def __getitem__(self, k):
        r = super().__getitem__(concrete_index(k))
        return r

    def __setitem__(self, k, v):
        k = concrete_index(k)
        if self.dtype == _obj and isinstance(v, (list, tuple)):
            v = _listarr(v)
        if isinstance(v, SArr):
            v = v.view(np.ndarray)
        if self.dtype != _obj and isinstance(v, np.ndarray) and v.dtype == _obj and not self.dtype.names:
            v = np.array([x for x in v.ravel()], dtype=self.dtype).reshape(v.shape)
        if isinstance(v, np.ndarray) and v.ndim == 0 and v.dtype == _obj:
            v = v.item()
        super().__setitem__(k, v)

    def astype(self, dtype, *a, **k):
        if self.dtype != _obj and not self.dtype.names:
            return super().astype(dtype, *a, **k)
        dt = np.dtype(dtype) if not isinstance(dtype, np.dtype) else dtype
        if dt.names:
            return super().astype(obj_dtype(dt), *a, **k)
        if dt.kind in "fO":
            r = self.copy()
            for i in np.ndindex(*r.shape):
                v = np.ndarray.__getitem__(r, i)
                if isinstance(v, Sym):
                    if S.z3.is_bool(v.e) or S.z3.is_int(v.e):
                        np.ndarray.__setitem__(r, i, S.mk(S.rterm(v)))
                else:
                    np.ndarray.__setitem__(r, i, float(v))
            return r
        if dt.kind == "b":
            r = np.empty(self.shape, dtype=object)
            for i in np.ndindex(*self.shape):
                v = np.ndarray.__getitem__(self, i)
                r[i] = S.b_(v)
            return wrap(tidy(r))
        out = np.empty(self.shape, dtype=dt)
        for i in np.ndindex(*self.shape):
            out[i] = int(np.ndarray.__getitem__(self, i))
        return out

    # methods which bypass __array_ufunc__
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce(TABLE["add"], _asobj(self), axis=axis, keepdims=keepdims, name="add")

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce(TABLE["multiply"], _asobj(self), axis=axis, keepdims=keepdims, name="multiply")

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(S_max, _asobj(self), axis=axis, keepdims=keepdims, name="maximum")

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(S_min, _asobj(self), axis=axis, keepdims=keepdims, name="minimum")

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else self.shape[axis]
        r = self.sum(axis=axis, keepdims=keepdims)
        return r / float(n) if not isinstance(r, Sym) else S.s_div(r, float(n))

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(TABLE["logical_or"], _asobj(self), axis=axis, keepdims=keepdims, name="logical_or")

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(TABLE["logical_and"], _asobj(self), axis=axis, keepdims=keepdims, name="logical_and")

    def dot(self, b, out=None):
        return f_dot(self, b)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return f_argsort(self, axis=axis)

    def sort(self, axis=-1, kind=None, order=None, **k):
        self[...] = f_sort(self, axis)

    def argmax(self, axis=None, out=None, **k):
        return f_argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        return f_argmin(self, axis)

    def clip(self, min=None, max=None, out=None, **k):
        return f_clip(self, min, max, out=out)

    def cumsum(self, axis=None, **k):
        a = self.ravel() if axis is None else self
        return apply_ufunc(np.add, "accumulate", (a,), dict(axis=axis or 0))

    def round(self, decimals=0, out=None):
        return np.rint(self)

    def nonzero(self):
        return concrete_mask(_boolify(self)).nonzero()

    def tolist(self):
        return super().tolist()

    def tobytes(self, *a, **k):
        return super().tobytes(*a, **k)

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel().view(np.ndarray)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __contains__(self, v):
        return any(bool(x == v) for x in self.ravel())

    def __float__(self):
        return float(self.ravel().view(np.ndarray)[0])

    def __reduce__(self):
        raise TypeError("symbolic arrays are not picklable")


class IArr(np.ndarray):
    """native integer/bool array that accepts symbolic masks and indices"""

    def __getitem__(self, k):
        if has_sym(k) or isinstance(k, SArr) or (isinstance(k, tuple) and any(isinstance(x, SArr) for x in k)):
            k = concrete_index(k)
        return np.ndarray.__getitem__(self, k)

    def __setitem__(self, k, v):
        if has_sym(k) or isinstance(k, SArr) or (isinstance(k, tuple) and any(isinstance(x, SArr) for x in k)):
            k = concrete_index(k)
        if has_sym(v):
            v = concrete_index(v)
        np.ndarray.__setitem__(self, k, v)


def iwrap(r):
    if type(r) is np.ndarray and r.dtype.kind in "iub":
        return r.view(IArr)
    return r


def _boolify(a):
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        r[i] = S.b_(np.ndarray.__getitem__(a, i))
    return r


# --- numpy functions ---------------------------------------------------------

def f_dot(a, b, out=None):
    A, B = _asobj(a), _asobj(b)
    if A.ndim == 0 or B.ndim == 0:
        return apply_ufunc(np.multiply, "__call__", (a, b), {})
    if B.ndim <= 2:
        return _matmul(A, B)
    raise NotImplementedError("dot nd")


def f_argsort(a, axis=-1, kind=None, order=None, **k):
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    A = _asobj(a)
    if axis is None:
        A = A.ravel()
    if A.ndim != 1:
        t = np.moveaxis(A, axis, -1)
        r = np.empty(t.shape, dtype=int)
        for i in np.ndindex(*t.shape[:-1]):
            r[i] = f_argsort(t[i])
        return np.moveaxis(r, -1, axis)
    # insertion sort with forked comparisons (stable)
    idx = []
    for j in range(len(A)):
        p = len(idx)
        while p > 0 and bool(A[j] < A[idx[p - 1]]):
            p -= 1
        idx.insert(p, j)
    return iwrap(np.array(idx, dtype=int))


def f_sort(a, axis=-1, **k):
    A = _asobj(a)
    if A.ndim != 1:
        t = np.moveaxis(A, axis, -1).copy()
        for i in np.ndindex(*t.shape[:-1]):
            t[i] = f_sort(t[i])
        return wrap(np.moveaxis(t, -1, axis))
    return wrap(A[f_argsort(A)])


def f_argmax(a, axis=None, out=None, **k):
    A = _asobj(a)
    if axis is None:
        A = A.ravel()
    if A.ndim > 1:
        t = np.moveaxis(A, axis, -1)
        r = np.empty(t.shape[:-1], dtype=int)
        for i in np.ndindex(*t.shape[:-1]):
            r[i] = f_argmax(t[i])
        return r
    best = 0
    for j in range(1, len(A)):
        if bool(A[j] > A[best]):
            best = j
    return best


def f_argmin(a, axis=None, out=None, **k):
    A = _asobj(a)
    if axis is None:
        A = A.ravel()
    if A.ndim > 1:
        t = np.moveaxis(A, axis, -1)
        r = np.empty(t.shape[:-1], dtype=int)
        for i in np.ndindex(*t.shape[:-1]):
            r[i] = f_argmin(t[i])
        return r
    best = 0
    for j in range(1, len(A)):
        if bool(A[j] < A[best]):
            best = j
    return best


def f_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = apply_ufunc(np.maximum, "__call__", (r, lo), {})
    if hi is not None:
        r = apply_ufunc(np.minimum, "__call__", (r, hi), {})
    return _give(r, out)


def f_where(c, x=None, y=None):
    c = np.asarray(c) if not isinstance(c, (np.ndarray, Sym)) else c
    if x is None and y is None:
        return np.where(concrete_mask(_boolify(c)) if isinstance(c, np.ndarray) and c.dtype == _obj else c)
    C, X, Y = _asobj(c), _asobj(x), _asobj(y)
    b = np.broadcast_arrays(C, X, Y)
    r = np.empty(b[0].shape, dtype=object)
    for i in np.ndindex(*r.shape):
        r[i] = S.s_ite(S.b_(b[0][i]), b[1][i], b[2][i])
    return r.item() if r.ndim == 0 else wrap(r)


def f_any(a, axis=None, out=None, keepdims=False, **k):
    return _reduce(TABLE["logical_or"], _asobj(a), axis=axis, keepdims=keepdims is True, name="logical_or")


def f_all(a, axis=None, out=None, keepdims=False, **k):
    return _reduce(TABLE["logical_and"], _asobj(a), axis=axis, keepdims=keepdims is True, name="logical_and")


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _reduce(TABLE["add"], _asobj(a), axis=axis, keepdims=keepdims is True, name="add")


def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _reduce(TABLE["multiply"], _asobj(a), axis=axis, keepdims=keepdims is True, name="multiply")


def f_max(a, axis=None, out=None, keepdims=False, **k):
    return _reduce(S_max, _asobj(a), axis=axis, keepdims=keepdims is True, name="maximum")


def f_min(a, axis=None, out=None, keepdims=False, **k):
    return _reduce(S_min, _asobj(a), axis=axis, keepdims=keepdims is True, name="minimum")


def f_mean(a, axis=None, **k):
    A = wrap(_asobj(a))
    return A.mean(axis=axis)


def f_std(a, axis=None, **k):
    return np.sqrt(f_var(a, axis))


def f_var(a, axis=None, **k):
    A = wrap(_asobj(a))
    m = A.mean(axis=axis, keepdims=True)
    return ((A - m) ** 2).mean(axis=axis)


def f_nanmax(a, axis=None, **k):
    A = _asobj(a).ravel()
    vals = [v for v in A if not (isinstance(v, float) and math.isnan(v))]
    return functools.reduce(S_max, vals) if vals else math.nan


def f_median(a, axis=None, **k):
    A = f_sort(_asobj(a).ravel())
    n = len(A)
    if n % 2:
        return A[n // 2]
    return (A[n // 2 - 1] + A[n // 2]) / 2.0


def f_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return np.abs(a - b) <= (atol + rtol * np.abs(b))


def f_allclose(a, b, **k):
    return f_all(f_isclose(wrap(_asobj(a)), wrap(_asobj(b)), **k))


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    A = _asobj(a).ravel()
    idx = f_argsort(A)
    vals, first = [], []
    for i in idx:
        if not vals or not bool(A[i] == vals[-1]):
            vals.append(A[i])
            first.append(i)
    r = wrap(_listarr(vals))
    if return_index:
        return r, np.array(first)
    return r


def f_count_nonzero(a, **k):
    return f_sum(_boolify(_asobj(a)))


def f_isfinite(a, **k):
    return apply_ufunc(np.isfinite, "__call__", (a,), {})


def f_diag(v, k=0):
    A = _asobj(v)
    if A.ndim == 1:
        n = len(A)
        r = np.empty((n, n), dtype=object)
        r[...] = 0.0
        for i in range(n):
            r[i, i] = A[i]
        return wrap(r)
    return wrap(np.diag(A, k))


def f_searchsorted(a, v, side="left", sorter=None):
    A = _asobj(a)
    V = _asobj(v)

    def one(x):
        n = 0
        for y in A:
            if (bool(y < x) if side == "left" else bool(y <= x)):
                n += 1
            else:
                break
        return n
    if V.ndim == 0:
        return one(V.item())
    return np.array([one(x) for x in V.ravel()]).reshape(V.shape)


def f_einsum(spec, *ops, **kw):
    ops = [_asobj(o) for o in ops]
    spec = spec.replace(" ", "")
    if "..." in spec:
        raise NotImplementedError
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = sorted(set(ins.replace(",", "")))
        out = "".join(l for l in letters if ins.count(l) == 1)
    ins = ins.split(",")
    dim = {}
    for s, o in zip(ins, ops):
        for l, d in zip(s, o.shape):
            dim[l] = d
    summed = [l for l in dim if l not in out]
    r = np.empty(tuple(dim[l] for l in out), dtype=object)
    for i in np.ndindex(*r.shape):
        env = dict(zip(out, i))
        tot = 0.0
        for j in itertools.product(*[range(dim[l]) for l in summed]):
            env.update(zip(summed, j))
            t = 1.0
            for s, o in zip(ins, ops):
                t = t * o[tuple(env[l] for l in s)]
            tot = tot + t
        r[i] = tot
    return r.item() if r.ndim == 0 else wrap(r)


def f_cross(a, b, **k):
    A, B = _asobj(a), _asobj(b)
    if A.shape[-1] == 2:
        return wrap(A[..., 0] * B[..., 1] - A[..., 1] * B[..., 0])
    raise NotImplementedError


def f_trace(a, *x, **k):
    A = _asobj(a)
    return sum((A[i, i] for i in range(min(A.shape[:2]))), 0.0)


def f_array_equal(a, b, **k):
    A, B = _asobj(a), _asobj(b)
    if A.shape != B.shape:
        return False
    return f_all(apply_ufunc(np.equal, "__call__", (A.view(SArr), B), {}))


def f_outer(a, b, **k):
    return apply_ufunc(np.multiply, "outer", (_asobj(a).ravel(), _asobj(b).ravel()), {})


def f_around(a, decimals=0, out=None):
    return apply_ufunc(np.rint, "__call__", (a,), {})


def f_isin(a, b, **k):
    A, B = _asobj(a), _asobj(b).ravel()
    r = np.array([any(bool(x == y) for y in B) for x in A.ravel()], dtype=bool)
    return r.reshape(A.shape)


def f_quantile(a, q, axis=None, **k):
    """linear interpolation between order statistics (numpy's default)"""
    A = _asobj(a)
    if axis is None:
        A, axis = A.ravel(), -1
    t = np.asarray(f_sort(np.moveaxis(A, axis, -1)), dtype=object)
    n = t.shape[-1]
    out = []
    for x in np.atleast_1d(np.asarray(q, dtype=float)):
        pos = float(x) * (n - 1)
        lo = min(int(np.floor(pos)), n - 1)
        hi = min(lo + 1, n - 1)
        w = pos - lo
        r = np.empty(t.shape[:-1], dtype=object)
        for i in np.ndindex(*t.shape[:-1]):
            r[i] = t[i][lo] if w == 0 else t[i][lo] * (1 - w) + t[i][hi] * w
        out.append(r)
    if np.ndim(q) == 0:
        return wrap(out[0]) if out[0].shape else out[0][()]
    return wrap(np.array(out, dtype=object))


def f_percentile(a, q, axis=None, **k):
    return f_quantile(a, np.asarray(q, dtype=float) / 100.0, axis=axis)


def f_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if y is not None or k.get("fweights") is not None or k.get("aweights") is not None:
        raise NotImplementedError("cov options")
    A = np.atleast_2d(_asobj(m))
    if not rowvar:
        A = A.T
    n = A.shape[1]
    d = (0 if bias else 1) if ddof is None else ddof
    mu = [sum((A[i, t] for t in range(1, n)), A[i, 0]) / float(n) for i in range(len(A))]
    r = np.empty((len(A), len(A)), dtype=object)
    for i in range(len(A)):
        for j in range(len(A)):
            v = 0.0
            for t in range(n):
                v = v + (A[i, t] - mu[i]) * (A[j, t] - mu[j])
            r[i, j] = v / float(n - d)
    return wrap(r) if len(A) > 1 else r[0, 0]


def f_average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return f_mean(a, axis=axis)
    if returned or np.ndim(a) != np.ndim(weights):
        raise NotImplementedError("average options")
    w = _asobj(weights)
    return f_sum(wrap(_asobj(a)) * wrap(w), axis=axis) / f_sum(w, axis=axis)


def f_inner(a, b):
    if np.ndim(a) == 1 and np.ndim(b) == 1:
        return f_dot(a, b)
    return f_dot(a, np.swapaxes(_asobj(b), -1, -2))


FUNCS = {
    "percentile": f_percentile, "quantile": f_quantile, "cov": f_cov, "vdot": f_inner,
    "dot": f_dot, "argsort": f_argsort, "sort": f_sort, "argmax": f_argmax, "argmin": f_argmin,
    "clip": f_clip, "where": f_where, "any": f_any, "all": f_all, "sum": f_sum, "prod": f_prod,
    "max": f_max, "amax": f_max, "min": f_min, "amin": f_min, "mean": f_mean, "average": f_average, "var": f_var, "std": f_std,
    "nanmax": f_nanmax, "median": f_median, "isclose": f_isclose, "allclose": f_allclose,
    "unique": f_unique, "count_nonzero": f_count_nonzero, "diag": f_diag, "searchsorted": f_searchsorted,
    "einsum": f_einsum, "cross": f_cross, "trace": f_trace, "array_equal": f_array_equal,
    "outer": f_outer, "around": f_around, "round": f_around, "isin": f_isin, "in1d": f_isin, "inner": f_inner,
}
FUNCS = {k: v for k, v in FUNCS.items() if v}


# --- linear algebra ----------------------------------------------------------

def _det(M):
    n = M.shape[-1]
    if n == 0:
        return 1.0
    if n == 1:
        return M[0, 0]
    if n == 2:
        return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
    tot = 0.0
    for j in range(n):
        minor = np.delete(np.delete(M, 0, 0), j, 1)
        t = M[0, j] * _det(minor)
        tot = tot + t if j % 2 == 0 else tot - t
    return tot


def _batched(f, nout):
    def g(a, *r, **k):
        A = _asobj(a)
        if A.ndim == 2:
            o = f(A)
            return wrap(o) if isinstance(o, np.ndarray) else o
        sh = A.shape[:-2]
        outs = np.empty(sh + A.shape[-2:][:nout], dtype=object)
        for i in np.ndindex(*sh):
            outs[i] = f(A[i])
        return wrap(outs)
    return g


def _inv(M):
    n = M.shape[0]
    d = _det(M)
    if isinstance(d, Sym):
        if S.ctx() is not None and S.ctx().div_check and S.div_zero(S.rterm(d)):
            raise np.linalg.LinAlgError("Singular matrix")
    elif d == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = _det(np.delete(np.delete(M, j, 0), i, 1))
            r[i, j] = S.s_div(m if (i + j) % 2 == 0 else S.s_neg(m), d)
    return r


def l_solve(a, b, **k):
    return _matmul(_asobj(_inv(_asobj(a))), _asobj(b))


def l_norm(x, ord=None, axis=None, keepdims=False):
    X = wrap(_asobj(x))
    vec = axis is None and X.ndim == 1 or np.ndim(axis) == 0 and axis is not None
    if ord == 1 and vec:
        return f_sum(np.abs(X), axis=axis, keepdims=keepdims)
    if not (ord is None or ord == 2 and vec or ord == "fro" and axis is None and X.ndim == 2):
        raise NotImplementedError("norm of order %r" % (ord,))
    return np.sqrt(f_sum(X * X, axis=axis, keepdims=keepdims))


def l_lstsq(a, b, rcond=None, **k):
    A, B = _asobj(a), _asobj(b)
    x = _matmul(_asobj(_inv(_asobj(_matmul(A.T, A)))), _asobj(_matmul(A.T, B)))
    return x, np.array([]), A.shape[1], None


def l_slogdet(a, **k):
    d = _det(_asobj(a))
    return np.sign(d), S.s_log(S.s_abs(d))


LINALG = {"det": _batched(_det, 0), "inv": _batched(_inv, 2), "pinv": _batched(_inv, 2),
          "solve": l_solve, "norm": l_norm, "lstsq": l_lstsq, "slogdet": l_slogdet, "trace": f_trace}


class LinalgProxy:
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        real = getattr(np.linalg, name)
        if not callable(real) or isinstance(real, type):
            return real

        def f(*a, **k):
            if any(has_sym(x) or (isinstance(x, np.ndarray) and x.dtype == _obj) for x in a):
                g = LINALG.get(name)
                if g is None:
                    raise NotImplementedError("linalg." + name)
                return g(*a, **k)
            return real(*a, **k)
        return f


class NPProxy:
    """Stands in for the `np` global of a module under symbolic execution."""

    def __init__(self, overrides=None, pi_symbolic=True, obj_create=True):
        self._ov = dict(overrides or {})
        self._pi = Sym(S.PI) if pi_symbolic else np.pi
        self._oc = obj_create
        self._linalg = LinalgProxy()

    def __getattr__(self, name):
        ov = object.__getattribute__(self, "_ov")
        if name in ov:
            return ov[name]
        if name == "pi":
            return self._pi
        if name == "linalg":
            return self._linalg
        c = CREATE.get(name)
        if c is not None and self._oc:
            return c
        real = getattr(np, name)
        if isinstance(real, np.ufunc):
            return _UfuncProxy(real)
        if callable(real) and not isinstance(real, type):
            return functools.partial(_call, name, real)
        return real


def _deepwrap(a):
    if isinstance(a, np.ndarray):
        return wrap(a)
    if isinstance(a, (list, tuple)) and has_sym(a):
        try:
            if all(not isinstance(v, (np.ndarray, list, tuple)) for v in a):
                return wrap(_listarr(a))
            return type(a)([_deepwrap(v) for v in a]) if type(a) in (list, tuple) else a
        except Exception:
            return a
    return a


_SEQ_FUNCS = {"concatenate", "stack", "hstack", "vstack", "column_stack", "dstack", "append", "ix_", "broadcast_arrays", "meshgrid", "block"}


def _call(name, real, *args, **kw):
    f = FUNCS.get(name)
    if f is not None and any(has_sym(x) for x in args):
        return f(*args, **kw)
    if name in _SEQ_FUNCS:
        args = tuple(_seqfix(a) for a in args)
        return wrap(real(*args, **kw))
    if any(isinstance(a, Sym) for a in args) or any(isinstance(a, (list, tuple)) and has_sym(a) for a in args):
        args = tuple(wrap(_asobj(a)) if has_sym(a) else a for a in args)
    else:
        args = tuple(_deepwrap(a) for a in args)
    r = real(*args, **kw)
    if isinstance(r, np.ndarray):
        return wrap(r)
    return r


def _seqfix(a):
    if isinstance(a, (list, tuple)):
        return type(a)([_seqfix(v) for v in a]) if type(a) in (list, tuple) else a
    if isinstance(a, Sym):
        return wrap(_asobj(a))
    if isinstance(a, np.ndarray):
        return wrap(a)
    return a


class _UfuncProxy:
    def __init__(self, u):
        self.u = u

    def __call__(self, *a, **k):
        ins = a[:self.u.nin]
        if any(has_sym(x) or (isinstance(x, np.ndarray) and x.dtype == _obj) for x in ins):
            if len(a) > self.u.nin:
                k["out"] = a[self.u.nin:]
            return apply_ufunc(self.u, "__call__", ins, k)
        if self.u.__name__ in ("deg2rad", "radians", "rad2deg", "degrees") and S.ctx() is not None:
            return apply_ufunc(self.u, "__call__", ins, k)
        return self.u(*a, **k)

    def __getattr__(self, name):
        real = getattr(self.u, name)
        if name in ("reduce", "accumulate", "outer", "at"):
            def g(*a, **k):
                if any(has_sym(x) for x in a):
                    return apply_ufunc(self.u, name, a, k)
                return real(*a, **k)
            return g
        return real


# --- creation ----------------------------------------------------------------

def _isfloat(dt):
    return dt is None or (np.dtype(dt).kind == "f" and not np.dtype(dt).names)


def _structured_float(dt):
    if dt is None:
        return False
    dt = np.dtype(dt)
    return bool(dt.names)


def _mkfill(name, val):
    real = getattr(np, name)

    def f(shape, dtype=None, *a, **k):
        shape = concrete_index(shape)
        if _isfloat(dtype):
            r = np.empty(shape, dtype=object)
            r[...] = val
            return r.view(SArr)
        if _structured_float(dtype):
            dt = obj_dtype(dtype)
            r = np.empty(shape, dtype=dt)
            _fill_struct(r, val)
            return r.view(SArr)
        return iwrap(real(shape, dtype=dtype, *a, **k))
    return f


def _fill_struct(r, val):
    for n in r.dtype.names:
        if r.dtype[n].names:
            _fill_struct(r[n], val)
        elif r.dtype[n].base == _obj:
            r[n] = val
        else:
            r[n] = 0


def _mklike(name, val):
    real = getattr(np, name)

    def f(a, dtype=None, *aa, **k):
        if dtype is None:
            if isinstance(a, np.ndarray) and a.dtype != _obj and a.dtype.kind != "f":
                return real(a, *aa, **k)
            r = np.empty(np.shape(a), dtype=object)
            r[...] = val
            return r.view(SArr)
        return CREATE[name.replace("_like", "")](np.shape(a), dtype=dtype)
    return f


def c_full(shape, fill, dtype=None, **k):
    r = np.empty(shape, dtype=object)
    if dtype is None and not isinstance(fill, (float, Sym, np.floating)):
        return np.full(shape, fill)
    if not _isfloat(dtype):
        return np.full(shape, fill, dtype=dtype)
    r[...] = fill
    return r.view(SArr)


def c_eye(n, m=None, k=0, dtype=None, **kw):
    r = np.eye(n, m, k).astype(object)
    return r.view(SArr)


def c_array(x, dtype=None, copy=True, **k):
    if isinstance(x, np.ndarray):
        if x.dtype == _obj or (x.dtype.names and x.dtype.hasobject):
            x = wrap(x)
            if dtype is None:
                return x.copy()
            return x.astype(dtype)
        if x.dtype.kind == "f" and _isfloat(dtype):
            return x.astype(object).view(SArr)
        r = np.array(x, dtype=dtype)
        return iwrap(r)
    if has_sym(x):
        if isinstance(dtype, np.dtype) and dtype.names or (dtype is not None and not _isfloat(dtype) and np.dtype(dtype).names):
            return np.array(x, dtype=obj_dtype(dtype)).view(SArr)
        if isinstance(x, Sym):
            r = _asobj(x)
        else:
            r = _listarr([list(v) if isinstance(v, np.void) else v for v in x])
        r = r.view(SArr)
        if dtype is not None and not _isfloat(dtype) and np.dtype(dtype) != _obj:
            return r.astype(dtype)
        return tidy(r) if r.size else r
    r = np.array(x, dtype=dtype)
    if r.dtype.kind == "f":
        return r.astype(object).view(SArr)
    if r.dtype == _obj:
        return r.view(SArr)
    return iwrap(r)


def c_asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and (dtype is None or _isfloat(dtype)):
        return x
    if isinstance(x, np.ndarray) and x.dtype != _obj and not _isfloat(dtype):
        return np.asarray(x, dtype=dtype)
    if isinstance(x, np.ndarray) and dtype is None:
        return wrap(x)
    return c_array(x, dtype)


def c_linspace(*a, **k):
    r = np.linspace(*[float(x) for x in a], **k)
    return r


def c_arange(*a, **k):
    return iwrap(np.arange(*[concrete_index(x) if isinstance(x, Sym) else x for x in a], **k))


def c_atleast_1d(x):
    if isinstance(x, Sym):
        return wrap(_asobj(x)).reshape(1)
    if isinstance(x, (list, tuple)) and has_sym(x):
        return wrap(_listarr(x))
    return wrap(np.atleast_1d(x))


def c_squeeze(x, **k):
    return wrap(np.squeeze(x, **k)) if isinstance(x, np.ndarray) else x


def c_isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def c_copy(x, **k):
    return c_array(x)


CREATE = {"zeros": _mkfill("zeros", 0.0), "ones": _mkfill("ones", 1.0), "empty": _mkfill("empty", 0.0),
          "zeros_like": _mklike("zeros_like", 0.0), "ones_like": _mklike("ones_like", 1.0),
          "empty_like": _mklike("empty_like", 0.0), "full": c_full, "eye": c_eye, "identity": c_eye,
          "array": c_array, "asarray": c_asarray, "atleast_1d": c_atleast_1d, "squeeze": c_squeeze,
          "isscalar": c_isscalar, "copy": c_copy, "arange": c_arange, "ascontiguousarray": c_asarray}


def sarr(vals):
    """object SArr from nested list"""
    return _listarr(vals).view(SArr)


def _elementwise(f):
    def g(x):
        if isinstance(x, Sym):
            return f(x)
        A = _asobj(x)
        r = np.empty(A.shape, dtype=object)
        for i in np.ndindex(*A.shape):
            r[i] = f(A[i])
        return r.item() if r.ndim == 0 else wrap(r)
    return g


# scipy.special
SPECIAL = {"expit": _elementwise(S.s_expit),
           "logit": _elementwise(lambda y: S.s_log(S.s_div(y, S.s_sub(1.0, y))))}
