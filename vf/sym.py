"""Symbolic scalars (z3 terms) and the re-execution path explorer.

A `Sym` wraps a z3 Real, Int or Bool term.  Truth-testing a symbolic Bool forks
the exploration (both feasible sides are eventually run); using a symbolic Int
as an index forks over all its feasible values.  Floats are modelled by the
real numbers; transcendental functions are uninterpreted functions constrained
by algebraic axioms that are instantiated for every application built.
"""
import math
import os
import time
from fractions import Fraction

import numpy as np
import z3

# --------------------------------------------------------------------------
# constants
# --------------------------------------------------------------------------

PI = z3.Real("pi!")
_R = z3.RealSort()
_UF = {}


def uf(name, arity=1):
    key = (name, arity)
    if key not in _UF:
        _UF[key] = z3.Function(name + "!", *([_R] * (arity + 1)))
    return _UF[key]


_FRAC_CACHE = {}


def nice_fraction(f, rel=5e-16, maxden=10**6):
    """The exact rational of a float, or the simple rational it rounds."""
    key = (f, rel, maxden)
    got = _FRAC_CACHE.get(key)
    if got is not None:
        return got
    x = Fraction(f)
    out = x
    if x.denominator > 1024 and x != 0:
        n = x.limit_denominator(maxden)
        if n != 0 and abs(n - x) <= abs(x) * Fraction(rel):
            out = n
        else:
            inv = (1 / x).limit_denominator(maxden)
            if inv != 0 and abs(1 / inv - x) <= abs(x) * Fraction(rel):
                out = 1 / inv
    _FRAC_CACHE[key] = out
    return out


_PI_MULT = [Fraction(a, b) for a in (1, 2, 3, 4) for b in
            (1, 2, 3, 4, 180, 360, 648000, 10800)]


def pi_form(f, rel=5e-16):
    """If float f is k*pi or k/pi for a simple k, the z3 term; else None."""
    if f == 0 or not math.isfinite(f):
        return None
    a = abs(f)
    for k in _PI_MULT:
        for kk in (k, 1 / k):
            v = float(kk) * math.pi
            if abs(v - a) <= rel * 4 * a:
                t = z3.RealVal(kk) * PI
                return t if f > 0 else -t
            v = float(kk) / math.pi
            if abs(v - a) <= rel * 4 * a:
                t = z3.RealVal(kk) / PI
                return t if f > 0 else -t
    return None


# --------------------------------------------------------------------------
# exploration context
# --------------------------------------------------------------------------

class Infeasible(BaseException):
    """the current path is infeasible / abandoned"""


class BudgetExceeded(BaseException):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.branches = 0
        self.concretised = []
        self.obligations = 0
        self.discharged = 0
        self.inconclusive = []
        self.spurious = []

    def merge(self, o):
        for k in ("queries", "unsat", "sat", "unknown", "solver_s", "paths",
                  "branches", "obligations", "discharged"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.concretised += o.concretised
        self.inconclusive += o.inconclusive
        self.spurious += o.spurious


STATS = Stats()


class Ctx:
    """One path of one exploration."""

    def __init__(self, prefix=(), timeout_ms=5000, div_check=True):
        self.prefix = list(prefix)
        self.trace = []
        self.alts = []
        self.facts = []
        self.syms = {}
        self.timeout_ms = timeout_ms
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.div_check = div_check
        self.seen_axiom = set()
        self.raw = False      # transcendental applications without axioms / rewriting
        self.oracle = None    # optional decision procedure for branch conditions
        self.fresh = 0
        self.refs = []
        self.add(PI > z3.RealVal("3.14159265358979"))
        self.add(PI < z3.RealVal("3.14159265358980"))

    def add(self, e):
        self.facts.append(e)
        self.solver.add(e)

    def check(self, *extra, timeout_ms=None, keep=False):
        t = time.time()
        STATS.queries += 1
        s = self.solver
        if timeout_ms is not None:
            s.set("timeout", timeout_ms)
        r = s.check(*extra)
        if r == z3.sat and keep:
            self.last_model = s.model()
        if timeout_ms is not None:
            s.set("timeout", self.timeout_ms)
        if r == z3.unknown:
            # a fresh solver run, non-incremental (nlsat)
            s2 = z3.Solver()
            s2.set("timeout", timeout_ms or self.timeout_ms)
            s2.add(*self.facts)
            s2.add(*extra)
            r = s2.check()
            if r == z3.sat and keep:
                self.last_model = s2.model()
        dt = time.time() - t
        STATS.solver_s += dt
        if r == z3.unsat:
            STATS.unsat += 1
        elif r == z3.sat:
            STATS.sat += 1
        else:
            STATS.unknown += 1
        return r

    # ---- decisions
    def branch(self, cond):
        if self.oracle is not None:
            r = self.oracle(cond)
            if r is not None:
                return r
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.add(cond if d else z3.Not(cond))
            return d
        STATS.branches += 1
        rt = self.check(cond)
        if rt == z3.unsat:
            # forced false: no alternative
            self.trace.append(False)
            self.add(z3.Not(cond))
            return False
        rf = self.check(z3.Not(cond))
        if rf == z3.unsat:
            self.trace.append(True)
            self.add(cond)
            return True
        self.alts.append(self.trace + [False])
        self.trace.append(True)
        self.add(cond)
        return True

    def pick_int(self, e):
        """Fork over the feasible values of an integer term."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]
                self.trace.append(d)
                kind, v = d
                if kind == "eq":
                    self.add(e == v)
                    return v
                self.add(e != v)
                continue
            STATS.branches += 1
            r = self.check(keep=True)
            if r != z3.sat:
                raise Infeasible()
            v = self.last_model.eval(e, model_completion=True).as_long()
            if self.check(e != v) != z3.unsat:
                self.alts.append(self.trace + [("ne", v)])
            self.trace.append(("eq", v))
            self.add(e == v)
            return v

    def concretise(self, e, why):
        """Under-approximate: pin a real term to one feasible value."""
        es = z3.simplify(e)
        v = num_or_none(es)
        if v is not None:
            return v
        STATS.concretised.append(why)
        r = self.check(keep=True)
        if r != z3.sat:
            raise Infeasible()
        m = self.last_model.eval(e, model_completion=True)
        f = model_float(m)
        q = nice_fraction(f)
        self.add(e == z3.RealVal(q))
        if self.check() == z3.unsat:
            raise Infeasible()
        return float(q)

    def axiom(self, key, *facts):
        if key in self.seen_axiom:
            return
        self.seen_axiom.add(key)
        for f in facts:
            self.add(f)

    def newname(self, base):
        self.fresh += 1
        return "%s!%d" % (base, self.fresh)


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def num_or_none(e):
    if z3.is_rational_value(e):
        return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    if z3.is_int_value(e):
        return e.as_long()
    # expressions in pi only
    if not has_vars_other_than_pi(e):
        try:
            return eval_float(e, {})
        except Exception:
            return None
    return None


def has_vars_other_than_pi(e):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if not x.eq(PI):
                return True
        stack.extend(x.children())
    return False


def model_float(m):
    if z3.is_algebraic_value(m):
        m = m.approx(30)
    if z3.is_rational_value(m):
        return float(Fraction(m.numerator_as_long(), m.denominator_as_long()))
    if z3.is_int_value(m):
        return m.as_long()
    return eval_float(m, {})


# --------------------------------------------------------------------------
# Sym
# --------------------------------------------------------------------------

def to_z3(x):
    """Any python/numpy scalar or Sym -> z3 Real/Int/Bool term."""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, np.float32):
        f = float(x)
        p = pi_form(f, 1.2e-7) if abs(f) not in (0.0,) else None
        if p is not None and f != int(f):
            return p
        return z3.RealVal(nice_fraction(f, 1.2e-7, 1000))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if f != int(f):
            p = pi_form(f)
            if p is not None:
                return p
        return z3.RealVal(nice_fraction(f))
    if z3.is_expr(x):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_z3(x.item())
    raise TypeError("to_z3: %r" % type(x))


def rterm(x):
    e = to_z3(x)
    if z3.is_int(e):
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    if z3.is_bool(e):
        if z3.is_true(e):
            return z3.RealVal(1)
        if z3.is_false(e):
            return z3.RealVal(0)
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    return e


def iterm(x):
    e = to_z3(x)
    if z3.is_bool(e):
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def bterm(x):
    e = to_z3(x)
    if z3.is_bool(e):
        return e
    return e != 0


def nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def isnum(x):
    return isinstance(x, (bool, int, float, np.number, np.bool_, Fraction)) and not isinstance(x, Sym)


def _zero(e):
    return z3.is_rational_value(e) and e.numerator_as_long() == 0 or \
        (z3.is_int_value(e) and e.as_long() == 0)


def _one(e):
    return (z3.is_rational_value(e) and e.numerator_as_long() == 1 and e.denominator_as_long() == 1) or \
        (z3.is_int_value(e) and e.as_long() == 1)


def mk(e):
    """Wrap; numerals stay symbolic Sym only if not plain constants."""
    if z3.is_rational_value(e):
        fr = Fraction(e.numerator_as_long(), e.denominator_as_long())
        f = float(fr)
        if Fraction(f) == fr or nice_fraction(f) == fr:
            return f
        return Sym(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return Sym(e)


def coerce2(a, b):
    """z3 terms of a common arithmetic sort"""
    ea, eb = to_z3(a), to_z3(b)
    if z3.is_bool(ea):
        ea = iterm(a)
    if z3.is_bool(eb):
        eb = iterm(b)
    if z3.is_int(ea) and z3.is_int(eb):
        return ea, eb
    return rterm(mkraw(ea)), rterm(mkraw(eb))


def mkraw(e):
    return e


def _sign_nonneg(x):
    """concrete decision of x>=0 (forks if symbolic)"""
    return bool(x >= 0)


def s_add(a, b):
    if nonfinite(a) or nonfinite(b):
        return _nf(a, b, lambda p, q: p + q)
    ea, eb = coerce2(a, b)
    if _zero(ea) and z3.is_real(eb):
        return mk(eb)
    if _zero(eb) and z3.is_real(ea):
        return mk(ea)
    return mk(ea + eb)


def s_sub(a, b):
    if nonfinite(a) or nonfinite(b):
        return _nf(a, b, lambda p, q: p - q)
    ea, eb = coerce2(a, b)
    if _zero(eb):
        return mk(ea)
    if _zero(ea):
        return mk(-eb)
    if ea.eq(eb):
        return 0.0 if z3.is_real(ea) else 0
    return mk(ea - eb)


def s_mul(a, b):
    if nonfinite(a) or nonfinite(b):
        return _nf_mul(a, b)
    ea, eb = coerce2(a, b)
    if _zero(ea) or _zero(eb):
        return 0.0 if z3.is_real(ea) else 0
    if _one(ea):
        return mk(eb)
    if _one(eb):
        return mk(ea)
    return mk(ea * eb)


def _sgn(x):
    """sign of x as concrete -1,0,1 (forks)"""
    if isnum(x):
        return (x > 0) - (x < 0)
    if bool(x > 0):
        return 1
    if bool(x == 0):
        return 0
    return -1


def _nf(a, b, op):
    fa = float(a) if isnum(a) else 0.0
    fb = float(b) if isnum(b) else 0.0
    return op(fa, fb)


def _nf_mul(a, b):
    fa = float(a) if isnum(a) else float(_sgn(a))
    fb = float(b) if isnum(b) else float(_sgn(b))
    return fa * fb


def s_div(a, b):
    if nonfinite(a) and nonfinite(b):
        return math.nan
    if nonfinite(b):
        return math.nan if math.isnan(b) else 0.0
    if nonfinite(a):
        s = _sgn(b)
        return a * s if s else a
    ea, eb = rterm(a), rterm(b)
    if _one(eb):
        return mk(ea)
    isz = False
    if z3.is_rational_value(eb):
        isz = _zero(eb)
    elif CTX is not None and CTX.div_check:
        isz = div_zero(eb)
    if isz:
        s = _sgn(a)
        return math.nan if s == 0 else s * math.inf
    if _zero(ea):
        return 0.0
    return mk(ea / eb)


def div_zero(eb):
    c = CTX
    key = ("nz", eb.get_id())
    if key in c.seen_axiom:
        return False
    es = z3.simplify(eb)
    if z3.is_rational_value(es):
        return _zero(es)
    # syntactically nonzero products of known-nonzero factors
    if c.branch(es == 0):
        return True
    c.seen_axiom.add(key)
    c.refs.append(eb)
    return False


def s_floordiv(a, b):
    ea, eb = coerce2(a, b)
    if z3.is_int(ea) and z3.is_int_value(eb) and eb.as_long() > 0:
        return mk(ea / eb)
    q = s_div(a, b)
    return s_floor(q)


def s_mod(a, b):
    ea, eb = coerce2(a, b)
    if z3.is_int(ea) and z3.is_int_value(eb) and eb.as_long() > 0:
        return mk(ea % eb)
    q = s_floor(s_div(a, b))
    return s_sub(a, s_mul(q, b))


def s_floor(x):
    if isnum(x):
        return np.floor(x)
    if z3.is_int(x.e):
        return x
    return mk(z3.ToReal(z3.ToInt(rterm(x))))


def s_ceil(x):
    if isnum(x):
        return np.ceil(x)
    return s_neg(s_floor(s_neg(x)))


def s_rint(x):
    if isnum(x):
        return np.rint(x)
    # round-half-to-even
    f = s_floor(x)
    d = s_sub(x, f)
    if bool(d < 0.5):
        return f
    if bool(d > 0.5):
        return s_add(f, 1)
    even = mk(z3.ToInt(rterm(f)) % 2 == 0)
    return f if bool(even) else s_add(f, 1)


def s_neg(a):
    if isnum(a):
        return -a
    e = a.e
    if z3.is_bool(e):
        e = iterm(a)
    return mk(-e)


def s_abs(a):
    if isnum(a):
        return abs(a)
    e = a.e
    if z3.is_bool(e):
        e = iterm(a)
    if CTX is not None:
        if CTX.check(e < 0, timeout_ms=1000) == z3.unsat:
            return mk(e)
        if CTX.check(e > 0, timeout_ms=1000) == z3.unsat:
            return mk(-e)
    return mk(z3.If(e >= 0, e, -e))


def s_ite(c, a, b):
    """merge without forking where both sides are terms"""
    if not isinstance(c, Sym):
        return a if c else b
    if nonfinite(a) or nonfinite(b):
        return a if bool(c) else b
    try:
        ea, eb = to_z3(a), to_z3(b)
    except TypeError:
        return a if bool(c) else b
    if z3.is_bool(ea) and z3.is_bool(eb):
        return mk(z3.If(bterm(c), ea, eb))
    if ea.eq(eb):
        return a
    ea, eb = coerce2(a, b)
    return mk(z3.If(bterm(c), ea, eb))


def s_cmp(a, b, op):
    if nonfinite(a) or nonfinite(b):
        fa = float(a) if isnum(a) else 0.0
        fb = float(b) if isnum(b) else 0.0
        return {"<": fa < fb, "<=": fa <= fb, ">": fa > fb, ">=": fa >= fb,
                "==": fa == fb, "!=": fa != fb}[op]
    ea, eb = to_z3(a), to_z3(b)
    if z3.is_bool(ea) and z3.is_bool(eb) and op in ("==", "!="):
        return mk(z3.simplify(ea == eb if op == "==" else ea != eb))
    ea, eb = coerce2(a, b)
    if op in ("==", "!=") and ea.eq(eb):
        return op == "=="
    r = {"<": ea < eb, "<=": ea <= eb, ">": ea > eb, ">=": ea >= eb,
         "==": ea == eb, "!=": ea != eb}[op]
    return mk(z3.simplify(r))


def s_max(a, b):
    if isnum(a) and isnum(b):
        return np.maximum(a, b)
    if nonfinite(a) or nonfinite(b):
        if (isnum(a) and math.isnan(a)) or (isnum(b) and math.isnan(b)):
            return math.nan
        return _nf(a, b, max) if _nf(a, b, max) == math.inf else (b if nonfinite(a) else a)
    return s_ite(s_cmp(a, b, ">="), a, b)


def s_min(a, b):
    if isnum(a) and isnum(b):
        return np.minimum(a, b)
    if nonfinite(a) or nonfinite(b):
        if (isnum(a) and math.isnan(a)) or (isnum(b) and math.isnan(b)):
            return math.nan
        return _nf(a, b, min) if _nf(a, b, min) == -math.inf else (b if nonfinite(a) else a)
    return s_ite(s_cmp(a, b, "<="), a, b)


def s_pow(a, n):
    if isinstance(n, Sym):
        v = num_or_none(z3.simplify(n.e))
        if v is None:
            if isnum(a) and a == 10:
                return s_exp(s_mul(n, mk(uf("log")(z3.RealVal(10)))))
            return mk(uf("pow", 2)(rterm(a), rterm(n)))
        n = v
    n = n.item() if isinstance(n, np.generic) else n
    if n == int(n):
        n = int(n)
        if n == 0:
            return 1.0
        r = a
        for _ in range(abs(n) - 1):
            r = s_mul(r, a)
        return r if n > 0 else s_div(1.0, r)
    if n * 2 == int(n * 2):
        r = s_sqrt(a)
        k = int(abs(n) * 2)
        out = r
        for _ in range(k - 1):
            out = s_mul(out, r)
        return out if n > 0 else s_div(1.0, out)
    if isnum(a):
        return float(a) ** n
    if n * 4 == int(n * 4):
        r = s_sqrt(s_sqrt(a))
        k = int(abs(n) * 4)
        out = r
        for _ in range(k - 1):
            out = s_mul(out, r)
        return out if n > 0 else s_div(1.0, out)
    fl = math.floor(n)
    fr = nice_fraction(float(n)) - fl
    r = _pow_atom(a, fr)
    return r if fl == 0 else s_mul(r, s_pow(a, fl))


def _pow_atom(a, fr):
    """a**fr for 0 < fr < 1, with the product rule between the atoms that occur"""
    e = z3.simplify(rterm(a), som=True)
    f = z3.RealVal(fr)
    t = uf("pow", 2)(e, f)
    if CTX is None:
        return Sym(t)
    lst = CTX.__dict__.setdefault("pow_atoms", {}).setdefault(fr, [])
    for e1, t1 in lst:
        if e1.eq(e):
            return t1
    from . import ratio

    def same(x, y):
        return ratio.is_identically_zero(x - y, CTX) is True

    def nonneg(x):
        return CTX.check(x < 0, timeout_ms=2000) == z3.unsat
    for e1, t1 in lst:
        if same(e1, e):
            return t1
    for i, (e1, t1) in enumerate(lst):
        for e2, t2 in lst[i:]:
            if same(e1 * e2, e) and nonneg(e1) and nonneg(e2):
                return s_mul(t1, t2)
    CTX.axiom(("pow", t.get_id()), z3.Implies(e > 0, t > 0), z3.Implies(e == 0, t == 0))
    CTX.refs.append(t)
    t = Sym(t)
    for e1, t1 in lst:
        for e2, t2 in lst:
            if same(e1 * e, e2):
                CTX.axiom(("powp", t1.e.get_id(), t.e.get_id()), z3.Implies(z3.And(e1 >= 0, e >= 0), rterm(t1) * t.e == rterm(t2)))
    lst.append((e, t))
    return t


def s_sqrt(a):
    if CTX is not None and CTX.raw and isinstance(a, Sym):
        return _rawapp("sqrt", a)
    if isnum(a):
        if a >= 0:
            r = math.sqrt(a)
            fr = nice_fraction(float(a))
            rr = nice_fraction(r)
            if rr * rr == fr:
                return r
            if CTX is None:
                return r
            e = rterm(float(a))
            t = uf("sqrt")(e)
            CTX.axiom(("sqrt", t.get_id()), t > 0, t * t == e)
            CTX.refs.append(t)
            return Sym(t)
        return math.nan
    e = z3.simplify(rterm(a))
    v = num_or_none(e)
    if v is not None and z3.is_rational_value(e):
        return s_sqrt(v)
    # perfect square x*x
    sq = perfect_square(e)
    if sq is not None:
        return s_abs(Sym(sq))
    t = uf("sqrt")(e)
    if CTX is not None:
        key = ("sqrt", t.get_id())
        if key not in CTX.seen_axiom:
            if CTX.div_check:
                if CTX.branch(e < 0):
                    return math.nan
            CTX.axiom(key, t >= 0, t * t == e)
            CTX.refs.append(t)
    return Sym(t)


def perfect_square(e):
    """e == r*r syntactically (after z3 simplification), else None"""
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_POWER:
        b, n = e.children()
        if z3.is_rational_value(n) and n.numerator_as_long() == 2 and n.denominator_as_long() == 1:
            return b
    if k == z3.Z3_OP_MUL:
        ch = e.children()
        coef = Fraction(1)
        rest = []
        for c in ch:
            if z3.is_rational_value(c):
                coef *= Fraction(c.numerator_as_long(), c.denominator_as_long())
            else:
                rest.append(c)
        if coef >= 0:
            rc = Fraction(math.isqrt(coef.numerator), math.isqrt(coef.denominator))
            if rc * rc == coef:
                r = None
                if len(rest) == 2 and rest[0].eq(rest[1]):
                    r = rest[0]
                elif len(rest) == 1:
                    r = perfect_square(rest[0])
                if r is not None:
                    return z3.RealVal(rc) * r
    return None


def s_hypot(a, b):
    if isnum(a) and isnum(b):
        return s_sqrt(float(a) ** 2 + float(b) ** 2) if CTX is not None else np.hypot(a, b)
    if isnum(a) and a == 0:
        return s_abs(b)
    if isnum(b) and b == 0:
        return s_abs(a)
    ea, eb = z3.simplify(rterm(a)), z3.simplify(rterm(b))
    if _zero(ea):
        return s_abs(b)
    if _zero(eb):
        return s_abs(a)
    return s_sqrt(s_add(s_mul(a, a), s_mul(b, b)))


def _fun1(name, a, axioms=None, concrete=None):
    if isnum(a):
        return concrete(a)
    e = z3.simplify(rterm(a), som=True)
    if not has_vars_other_than_pi(e):
        # keep pi-only arguments exact where known
        v = num_or_none(e)
        if v is not None:
            return concrete(v)
    t = uf(name)(e)
    if CTX is not None and axioms is not None:
        CTX.axiom((name, t.get_id()), *axioms(t, e))
        CTX.refs.append(t)
    return Sym(t)


def _lin_parts(e):
    """sum of coef*base with base a variable or log application; None otherwise"""
    ch = e.children() if z3.is_add(e) else [e]
    if len(ch) > 16:
        return None
    out = []
    const = Fraction(0)
    for t in ch:
        k, b = Fraction(1), t
        if z3.is_rational_value(t):
            const += Fraction(t.numerator_as_long(), t.denominator_as_long())
            continue
        if z3.is_mul(t) and len(t.children()) == 2 and z3.is_rational_value(t.children()[0]):
            c, b = t.children()
            k = Fraction(c.numerator_as_long(), c.denominator_as_long())
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
            k, b = Fraction(-1), t.children()[0]
        if not (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return None
        if b.children() and not b.decl().eq(uf("log")):
            return None
        if (2 * k).denominator != 1 or abs(2 * k) > 8:
            return None
        out.append((k, b))
    return const, out


def _exp_atom(e):
    t = uf("exp")(e)
    if CTX is not None:
        CTX.axiom(("exp", t.get_id()), t > 0, z3.Implies(e > 0, t > 1), z3.Implies(e < 0, t < 1), z3.Implies(e == 0, t == 1))
        CTX.refs.append(t)
    return Sym(t)


def _rawapp(name, a):
    t = uf(name)(rterm(a))
    CTX.refs.append(t)
    return Sym(t)


def s_exp(a):
    if CTX is not None and CTX.raw and isinstance(a, Sym):
        return _rawapp("exp", a)
    if nonfinite(a):
        return math.exp(a)
    if isnum(a):
        return float(np.exp(a))
    e = z3.simplify(rterm(a), som=True)
    v = num_or_none(e)
    if v is not None:
        return float(np.exp(v))
    lp = _lin_parts(e)
    if lp is None:
        return _exp_atom(e)
    const, parts = lp
    r = 1.0 if const == 0 else Sym(uf("exp")(z3.RealVal(const)))
    if const != 0:
        r = float(np.exp(float(const)))
    for k, b in parts:
        if b.children():
            base, n = Sym(b.children()[0]), k
            if n.denominator != 1:
                base, n = s_sqrt(base), 2 * n
        else:
            base, n = _exp_atom(b / 2), 2 * k
        n = int(n)
        f = base
        for _ in range(abs(n) - 1):
            f = s_mul(f, base)
        if n > 0:
            r = s_mul(r, f)
        else:
            save = CTX.div_check if CTX else None
            if CTX:
                CTX.div_check = False
            r = s_div(r, f)
            if CTX:
                CTX.div_check = save
    return r


def s_cosh(a):
    if isnum(a):
        return float(np.cosh(a))
    return s_div(s_add(s_exp(a), s_exp(s_neg(a))), 2.0)


def s_sinh(a):
    if isnum(a):
        return float(np.sinh(a))
    return s_div(s_sub(s_exp(a), s_exp(s_neg(a))), 2.0)


def s_tanh(a):
    if isnum(a):
        return float(np.tanh(a))
    return s_div(s_sinh(a), s_cosh(a))


def s_expit(a):
    if isnum(a):
        return 1.0 / (1.0 + math.exp(-a)) if a > -700 else 0.0
    E = s_exp(s_neg(a))
    return s_div(1.0, s_add(1.0, E))


def s_log(a):
    if CTX is not None and CTX.raw and isinstance(a, Sym):
        return _rawapp("log", a)
    if nonfinite(a):
        return float(np.log(a))
    if isinstance(a, Sym):
        e = z3.simplify(a.e)
        if e.decl().eq(uf("exp")):
            return mk(e.children()[0])
        if e.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
            # product of exponentials
            fs = [(c, 1) for c in e.children()] if e.decl().kind() == z3.Z3_OP_MUL else [tuple(e.children())]
            tot = []
            for c, n in fs:
                if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_POWER:
                    c, n = c.children()
                if not (z3.is_app(c) and c.decl().eq(uf("exp"))) or not (n == 1 if isinstance(n, int) else z3.is_rational_value(n)):
                    tot = None
                    break
                tot.append(c.children()[0] * n)
            if tot:
                return mk(z3.simplify(sum(tot)))
        if CTX is not None and CTX.div_check:
            if CTX.branch(rterm(a) <= 0):
                return -math.inf if CTX.branch(rterm(a) == 0) else math.nan
    return _fun1("log", a, lambda t, e: [z3.Implies(e > 1, t > 0), z3.Implies(z3.And(e > 0, e < 1), t < 0), z3.Implies(e == 1, t == 0)],
                 lambda v: float(np.log(v)))


def _cs_axioms(t, e):
    c, s = uf("cos")(e), uf("sin")(e)
    return [c * c + s * s == 1, c <= 1, c >= -1, s <= 1, s >= -1]


def _pi_coeff(e):
    """e = k*pi + rest -> (k Fraction, rest term) for simplification, or None"""
    return None


def _of_arctan2(a, i):
    """cos (i=1) and sin (i=0) of arctan2(y, x), away from the origin"""
    if CTX is None or isnum(a):
        return None
    e = z3.simplify(rterm(a), som=True)
    if e.decl().name() != "arctan2!":
        return None
    y, x = [Sym(c) for c in e.children()]
    r2 = s_add(s_mul(x, x), s_mul(y, y))
    if CTX.check(rterm(r2) <= 0, timeout_ms=2000) != z3.unsat:
        return None
    return s_div(x if i else y, s_sqrt(r2))


def s_cos(a):
    if CTX is not None and CTX.raw and isinstance(a, Sym):
        return _rawapp("cos", a)
    r = _of_arctan2(a, 1)
    if r is not None:
        return r
    return _fun1("cos", a, lambda t, e: _cs_axioms(t, e) if ("cs", e.get_id()) not in CTX.seen_axiom else [],
                 lambda v: float(np.cos(v)))


def s_sin(a):
    if CTX is not None and CTX.raw and isinstance(a, Sym):
        return _rawapp("sin", a)
    r = _of_arctan2(a, 0)
    if r is not None:
        return r
    return _fun1("sin", a, lambda t, e: _cs_axioms(t, e) if ("cs", e.get_id()) not in CTX.seen_axiom else [],
                 lambda v: float(np.sin(v)))


def s_tan(a):
    if isnum(a):
        return float(np.tan(a))
    return s_div(s_sin(a), s_cos(a))


def s_generic(name, np_f):
    def f(*args):
        if all(isnum(x) for x in args):
            return np_f(*args)
        return Sym(uf(name, len(args))(*[z3.simplify(rterm(x)) for x in args]))
    return f


def s_deg2rad(a):
    return s_mul(a, Sym(PI / 180))


def s_rad2deg(a):
    return s_mul(a, Sym(180 / PI))


def s_isfinite(a):
    if isinstance(a, Sym):
        return True
    return bool(np.isfinite(a))


def s_isnan(a):
    if isinstance(a, Sym):
        return False
    return bool(np.isnan(a))


def s_isinf(a):
    if isinstance(a, Sym):
        return False
    return bool(np.isinf(a))


def s_not(a):
    if not isinstance(a, Sym):
        return not a
    return mk(z3.simplify(z3.Not(bterm(a))))


def s_and(a, b):
    if not isinstance(a, Sym):
        return b_(b) if a else False
    if not isinstance(b, Sym):
        return b_(a) if b else False
    return mk(z3.simplify(z3.And(bterm(a), bterm(b))))


def s_or(a, b):
    if not isinstance(a, Sym):
        return True if a else b_(b)
    if not isinstance(b, Sym):
        return True if b else b_(a)
    return mk(z3.simplify(z3.Or(bterm(a), bterm(b))))


def s_xor(a, b):
    return mk(z3.simplify(z3.Xor(bterm(a), bterm(b))))


def b_(a):
    if isinstance(a, Sym):
        return mk(bterm(a))
    return bool(a)


def _isb(x):
    return isinstance(x, (bool, np.bool_)) or (isinstance(x, Sym) and z3.is_bool(x.e))


def s_bitand(a, b):
    if _isb(a) and _isb(b):
        return s_and(a, b)
    return int(a) & int(b)


def s_bitor(a, b):
    if _isb(a) and _isb(b):
        return s_or(a, b)
    return int(a) | int(b)


def s_bitxor(a, b):
    if _isb(a) and _isb(b):
        return s_xor(a, b)
    return int(a) ^ int(b)


def s_invert(a):
    if _isb(a):
        return s_not(a)
    # python/C two's complement on integers: ~x == -x-1
    if isinstance(a, Sym) and z3.is_int(a.e):
        return mk(-a.e - 1)
    return ~a


def s_sign(a):
    if isnum(a):
        return np.sign(a)
    e = rterm(a)
    return mk(z3.If(e > 0, z3.RealVal(1), z3.If(e < 0, z3.RealVal(-1), z3.RealVal(0))))


def _wrap_bin(f):
    def m(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if isinstance(o, np.ndarray):
            o = o.item()
        if o is None or isinstance(o, (str, bytes, list, tuple, dict)):
            return NotImplemented
        return f(self, o)
    return m


def _wrap_rbin(f):
    def m(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if isinstance(o, np.ndarray):
            o = o.item()
        if o is None or isinstance(o, (str, bytes, list, tuple, dict)):
            return NotImplemented
        return f(o, self)
    return m


class SymLeak(RuntimeError):
    """a symbolic value reached a concrete run: the harness cannot decide"""


class Sym:
    __slots__ = ("e",)
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        s = str(self.e)
        return "Sym(%s)" % (s if len(s) < 120 else s[:117] + "...")

    __add__ = _wrap_bin(s_add)
    __radd__ = _wrap_rbin(s_add)
    __sub__ = _wrap_bin(s_sub)
    __rsub__ = _wrap_rbin(s_sub)
    __mul__ = _wrap_bin(s_mul)
    __rmul__ = _wrap_rbin(s_mul)
    __truediv__ = _wrap_bin(s_div)
    __rtruediv__ = _wrap_rbin(s_div)
    __floordiv__ = _wrap_bin(s_floordiv)
    __rfloordiv__ = _wrap_rbin(s_floordiv)
    __mod__ = _wrap_bin(s_mod)
    __rmod__ = _wrap_rbin(s_mod)
    __pow__ = _wrap_bin(s_pow)
    __rpow__ = _wrap_rbin(s_pow)
    __and__ = _wrap_bin(s_bitand)
    __rand__ = _wrap_rbin(s_bitand)
    __or__ = _wrap_bin(s_bitor)
    __ror__ = _wrap_rbin(s_bitor)
    __xor__ = _wrap_bin(s_bitxor)
    __rxor__ = _wrap_rbin(s_bitxor)
    __lt__ = _wrap_bin(lambda a, b: s_cmp(a, b, "<"))
    __le__ = _wrap_bin(lambda a, b: s_cmp(a, b, "<="))
    __gt__ = _wrap_bin(lambda a, b: s_cmp(a, b, ">"))
    __ge__ = _wrap_bin(lambda a, b: s_cmp(a, b, ">="))

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, list, tuple, dict)):
            return False
        if isinstance(o, np.ndarray):
            if o.ndim > 0:
                return NotImplemented
            o = o.item()
        try:
            return s_cmp(self, o, "==")
        except TypeError:
            return False

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return s_not(r)

    def __hash__(self):
        return self.e.hash()

    def __neg__(self):
        return s_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __invert__(self):
        return s_invert(self)

    def __bool__(self):
        e = bterm(self)
        if CTX is None:
            e = z3.simplify(e)
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
            raise SymLeak("symbolic truth value outside exploration")
        return CTX.branch(e)

    def __index__(self):
        if z3.is_bool(self.e):
            return int(bool(self))
        if z3.is_int(self.e):
            return CTX.pick_int(self.e)
        raise TypeError("real used as index")

    def __int__(self):
        if z3.is_bool(self.e):
            return int(bool(self))
        if z3.is_int(self.e):
            return CTX.pick_int(self.e)
        es = z3.simplify(self.e)
        v = num_or_none(es)
        if v is not None:
            return int(v)
        # truncation toward zero, forked over feasible values
        t = z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))
        return CTX.pick_int(t)

    def __float__(self):
        if z3.is_bool(self.e):
            return float(bool(self))
        v = num_or_none(z3.simplify(self.e))
        if v is not None:
            return float(v)
        if z3.is_int(self.e):
            return float(CTX.pick_int(self.e))
        import traceback
        fr = [f for f in traceback.extract_stack(limit=12) if "/repo/" in f.filename]
        why = "%s:%s" % (os.path.basename(fr[-1].filename), fr[-1].lineno) if fr else "float()"
        return float(CTX.concretise(self.e, why))

    def __round__(self, n=None):
        return s_rint(self)

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return s_ceil(self)

    def __trunc__(self):
        return int(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("Sym is not picklable")

    # numpy scalar-ish api
    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    def astype(self, t, **k):
        if np.issubdtype(t, np.floating) or t is object:
            return self
        if np.issubdtype(t, np.bool_):
            return b_(self)
        return int(self)

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def sqrt(self):
        return s_sqrt(self)

    def exp(self):
        return s_exp(self)

    def log(self):
        return s_log(self)

    def cos(self):
        return s_cos(self)

    def sin(self):
        return s_sin(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnp
        return symnp.apply_ufunc(ufunc, method, inputs, kw)


# --------------------------------------------------------------------------
# evaluation & differentiation of z3 real terms
# --------------------------------------------------------------------------

_NPF = {"exp!": math.exp, "log!": math.log, "cos!": math.cos, "sin!": math.sin,
        "sqrt!": math.sqrt, "pow!": math.pow, "arctan2!": math.atan2,
        "arctan!": math.atan, "arcsinh!": math.asinh, "sinh!": math.sinh,
        "cosh!": math.cosh, "tanh!": math.tanh, "erf!": math.erf,
        "arccos!": math.acos, "arcsin!": math.asin, "gammainc!": lambda a, x: float(_gammainc(a, x)), "gamma!": math.gamma,
        "gammaincinv!": lambda a, y: float(_gammaincinv(a, y))}


def _gammaincinv(a, y):
    from scipy.special import gammaincinv
    return gammaincinv(a, y)


def _gammainc(a, x):
    from scipy.special import gammainc
    return gammainc(a, x)


def s_gamma(a):
    """Gamma function of a concrete argument, kept symbolic"""
    if not isnum(a):
        raise NotImplementedError("gamma of a symbolic argument")
    t = uf("gamma")(rterm(float(a)))
    if CTX is not None:
        CTX.axiom(("gamma", t.get_id()), t > 0)
        CTX.refs.append(t)
    return Sym(t)


def s_gammaincinv(a, y):
    """inverse incomplete gamma function of concrete arguments, kept symbolic"""
    if not (isnum(a) and isnum(y)):
        raise NotImplementedError("gammaincinv of symbolic arguments")
    t = uf("gammaincinv", 2)(rterm(float(a)), rterm(float(y)))
    if CTX is not None:
        q = uf("gammainc", 2)(rterm(float(a)), t)
        CTX.axiom(("gammaincinv", t.get_id()), t > 0, q == rterm(float(y)))
        CTX.refs.extend((t, q))
    return Sym(t)


def s_gammainc(a, x):
    """regularised lower incomplete gamma function of a concrete order"""
    if isnum(x) and isnum(a):
        return float(_gammainc(a, x))
    e = z3.simplify(rterm(x), som=True)
    t = uf("gammainc", 2)(z3.simplify(rterm(a)), e)
    if CTX is not None:
        CTX.axiom(("gammainc", t.get_id()), z3.Implies(e > 0, z3.And(t > 0, t < 1)), z3.Implies(e == 0, t == 0))
        CTX.refs.append(t)
    return Sym(t)


def eval_float(e, env, funcs=None):
    """Evaluate a term with python floats. env: {var name: float}"""
    memo = {}
    order = postorder(e)
    for x in order:
        memo[x.get_id()] = _eval_node(x, memo, env, funcs)
    return memo[e.get_id()]


def postorder(e):
    out, seen = [], set()
    stack = [(e, False)]
    while stack:
        x, done = stack.pop()
        i = x.get_id()
        if done:
            out.append(x)
            continue
        if i in seen:
            continue
        seen.add(i)
        stack.append((x, True))
        for c in x.children():
            if c.get_id() not in seen:
                stack.append((c, False))
    return out


def _eval_node(x, memo, env, funcs=None):
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_algebraic_value(x):
        return float(x.approx(20).as_fraction())
    k = x.decl().kind()
    ch = [memo[c.get_id()] for c in x.children()]
    if k == z3.Z3_OP_UNINTERPRETED:
        if not ch:
            n = x.decl().name()
            if x.eq(PI):
                return math.pi
            if n not in env:
                return env.get("__default__", 0.0)
            return env[n]
        n = x.decl().name()
        if funcs and n in funcs:
            return funcs[n](*ch)
        try:
            return _NPF[n](*ch)
        except OverflowError:
            return math.inf
        except ValueError:
            return math.nan
    if k == z3.Z3_OP_ADD:
        return sum(ch)
    if k == z3.Z3_OP_SUB:
        r = ch[0]
        for c in ch[1:]:
            r = r - c
        return r
    if k == z3.Z3_OP_UMINUS:
        return -ch[0]
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r
    if k in (z3.Z3_OP_DIV,):
        return ch[0] / ch[1] if ch[1] != 0 else math.nan
    if k == z3.Z3_OP_IDIV:
        return ch[0] // ch[1]
    if k == z3.Z3_OP_MOD:
        return ch[0] % ch[1]
    if k == z3.Z3_OP_POWER:
        return ch[0] ** ch[1]
    if k == z3.Z3_OP_TO_REAL:
        return float(ch[0])
    if k == z3.Z3_OP_TO_INT:
        return math.floor(ch[0])
    if k == z3.Z3_OP_ITE:
        return ch[1] if ch[0] else ch[2]
    if k == z3.Z3_OP_LE:
        return ch[0] <= ch[1]
    if k == z3.Z3_OP_LT:
        return ch[0] < ch[1]
    if k == z3.Z3_OP_GE:
        return ch[0] >= ch[1]
    if k == z3.Z3_OP_GT:
        return ch[0] > ch[1]
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
        same = ch[0] == ch[1]
        if not same and z3.is_real(x.children()[0]):
            same = abs(ch[0] - ch[1]) <= 1e-12 * max(1.0, abs(ch[0]), abs(ch[1]))
        return same if k == z3.Z3_OP_EQ else not same
    if k == z3.Z3_OP_AND:
        return all(ch)
    if k == z3.Z3_OP_OR:
        return any(ch)
    if k == z3.Z3_OP_NOT:
        return not ch[0]
    if k == z3.Z3_OP_IMPLIES:
        return (not ch[0]) or ch[1]
    if k == z3.Z3_OP_TRUE:
        return True
    if k == z3.Z3_OP_FALSE:
        return False
    raise NotImplementedError(str(x.decl()))


def diff(e, v, dmap=None):
    """d e / d v as a Sym/number (ite: derivative of the taken side).

    v is a z3 constant; dmap optionally maps other term ids to derivative
    seeds (for UF applications or intermediate atoms)."""
    memo = {}
    for x in postorder(e):
        memo[x.get_id()] = _diff_node(x, v, memo, dmap)
    return memo[e.get_id()]


def _w(e):
    return mk(e)


def _diff_node(x, v, memo, dmap):
    if dmap and x.get_id() in dmap:
        return dmap[x.get_id()]
    if x.eq(v):
        return 1.0
    if z3.is_rational_value(x) or z3.is_int_value(x):
        return 0.0
    k = x.decl().kind()
    cs = x.children()
    if k == z3.Z3_OP_UNINTERPRETED and not cs:
        return 0.0
    if z3.is_bool(x):
        return 0.0
    d = [memo[c.get_id()] for c in cs]

    def zero(q):
        return not isinstance(q, Sym) and q == 0
    if k == z3.Z3_OP_ITE:
        if zero(d[1]) and zero(d[2]):
            return 0.0
        return s_ite(mk(cs[0]), d[1], d[2])
    if all(zero(q) for q in d):
        return 0.0
    if k == z3.Z3_OP_ADD:
        r = d[0]
        for q in d[1:]:
            r = s_add(r, q) if isinstance(r, Sym) or isinstance(q, Sym) else r + q
        return r
    if k == z3.Z3_OP_SUB:
        r = d[0]
        for q in d[1:]:
            r = s_sub(r, q) if isinstance(r, Sym) or isinstance(q, Sym) else r - q
        return r
    if k == z3.Z3_OP_UMINUS:
        return s_neg(d[0])
    if k == z3.Z3_OP_MUL:
        tot = 0.0
        for i, q in enumerate(d):
            if zero(q):
                continue
            t = q
            for j, c in enumerate(cs):
                if j != i:
                    t = s_mul(t, Sym(c))
            tot = s_add(tot, t) if isinstance(tot, Sym) or isinstance(t, Sym) else tot + t
        return tot
    if k == z3.Z3_OP_DIV:
        a, b = cs
        # (a/b)' = a'/b - a b'/b^2
        save = CTX.div_check if CTX else None
        if CTX:
            CTX.div_check = False
        try:
            r = 0.0
            if not zero(d[0]):
                r = s_div(d[0], Sym(b))
            if not zero(d[1]):
                r = s_sub(r, s_mul(d[1], s_div(s_div(mk(a), Sym(b)), Sym(b))))
        finally:
            if CTX:
                CTX.div_check = save
        return r
    if k == z3.Z3_OP_POWER:
        n = cs[1]
        nn = Fraction(n.numerator_as_long(), n.denominator_as_long())
        return s_mul(s_mul(d[0], float(nn)), s_pow(Sym(cs[0]), float(nn - 1)))
    if k == z3.Z3_OP_TO_REAL:
        return d[0]
    if k == z3.Z3_OP_UNINTERPRETED:
        n = x.decl().name()
        a = cs[0]
        save = CTX.div_check if CTX else None
        if CTX:
            CTX.div_check = False
        try:
            if n == "exp!":
                return s_mul(d[0], Sym(x))
            if n == "log!":
                return s_div(d[0], mk(a))
            if n == "cos!":
                return s_neg(s_mul(d[0], s_sin(Sym(a))))
            if n == "sin!":
                return s_mul(d[0], s_cos(Sym(a)))
            if n == "sqrt!":
                return s_div(d[0], s_mul(2.0, Sym(x)))
            if n == "arctan2!":
                yy, xx = Sym(cs[0]), Sym(cs[1])
                r2 = s_add(s_mul(xx, xx), s_mul(yy, yy))
                return s_div(s_sub(s_mul(d[0], xx), s_mul(d[1], yy)), r2)
            if n == "sinh!":
                return s_mul(d[0], Sym(uf("cosh")(a)))
            if n == "cosh!":
                return s_mul(d[0], Sym(uf("sinh")(a)))
            if n == "pow!" and zero(d[1]):
                return s_mul(s_mul(d[0], Sym(cs[1])), s_div(Sym(x), Sym(a)))
            if n == "gammainc!" and zero(d[0]) and z3.is_rational_value(cs[0]):
                # d/dx P(a, x) = x^(a-1) exp(-x) / Gamma(a)
                ga = Fraction(cs[0].numerator_as_long(), cs[0].denominator_as_long())
                xx = Sym(cs[1])
                return s_mul(d[1], s_div(s_mul(s_pow(xx, float(ga - 1)), s_exp(s_neg(xx))), s_gamma(float(ga))))
            # generic: derivative symbol of an opaque function
            tot = 0.0
            for i, q in enumerate(d):
                if zero(q):
                    continue
                t = s_mul(q, Sym(uf("D%d_%s" % (i, n.rstrip("!")), len(cs))(*cs)))
                tot = s_add(tot, t) if isinstance(tot, Sym) or isinstance(t, Sym) else tot + t
            return tot
        finally:
            if CTX:
                CTX.div_check = save
    raise NotImplementedError("diff %s" % x.decl())
