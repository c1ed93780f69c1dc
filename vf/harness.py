"""Dual-mode harnesses: one harness function runs symbolically over the real
code (inputs are z3 terms, every assertion is a solver query) and concretely
(inputs are floats from a solver model) to replay counterexamples."""
import contextlib
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import time
import traceback
import types

import numpy as np
import z3

from . import sym as S
from . import symnp
from . import wcsstub
from .sym import Sym, Infeasible

MARGIN = z3.RealVal("1/1000")
TIGHT = z3.RealVal("1/1000000000")  # rounding of floating-point constants folded by the code


class Violation(Exception):
    def __init__(self, label, detail, inputs, case):
        self.label, self.detail, self.inputs, self.case = label, detail, inputs, case
        super().__init__(label)


class ReplayFail(Exception):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail
        super().__init__("%s: %s" % (label, detail))


class PathTimeout(Exception):
    pass


@contextlib.contextmanager
def alarm(seconds):
    """raise PathTimeout in this (main) thread after `seconds`; nests"""
    def h(sig, frm):
        raise PathTimeout("no answer after %g s" % seconds)
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, h)
    left = signal.setitimer(signal.ITIMER_REAL, seconds)[0]
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.setitimer(signal.ITIMER_REAL, max(0.5, left - (time.time() - t0)))


REPLAY_LIMIT = 45.0


class Stop(BaseException):
    """end the path normally"""


# --------------------------------------------------------------------------
# patching
# --------------------------------------------------------------------------

class Patches:
    def __init__(self, stubs=None, np_overrides=None, pi_symbolic=True, skip=()):
        self.stubs = stubs or {}
        self.npo = np_overrides or {}
        self.pi_symbolic = pi_symbolic
        self.skip = skip
        self.saved = []

    def on(self):
        assert not self.saved
        proxy = symnp.NPProxy(self.npo, pi_symbolic=self.pi_symbolic)
        for name, mod in list(sys.modules.items()):
            if name.startswith("forcepho") and mod is not None and name not in self.skip:
                if getattr(mod, "np", None) is np:
                    self.saved.append((mod, "np", np))
                    mod.np = proxy
                # names imported directly from numpy
                for k, v in list(vars(mod).items()):
                    if k != "np" and isinstance(v, np.ufunc):
                        r = symnp.SPECIAL.get(v.__name__) or (
                            getattr(proxy, v.__name__) if hasattr(np, v.__name__) else None)
                        if r is not None:
                            self.saved.append((mod, k, v))
                            setattr(mod, k, r)
                    elif k != "np" and callable(v) and getattr(v, "__module__", "") in ("numpy", "numpy.linalg") and not isinstance(v, type) and getattr(np, getattr(v, "__name__", "?"), None) is v:
                        self.saved.append((mod, k, v))
                        setattr(mod, k, getattr(proxy, v.__name__))
        for (m, attr), val in self.stubs.items():
            mod = importlib.import_module(m) if isinstance(m, str) else m
            if hasattr(mod, attr):
                self.saved.append((mod, attr, getattr(mod, attr)))
                setattr(mod, attr, val)

    def off(self):
        for mod, k, v in reversed(self.saved):
            setattr(mod, k, v)
        self.saved = []

    @contextlib.contextmanager
    def suspended(self):
        was = bool(self.saved)
        if was:
            self.off()
        c = S.CTX
        S.set_ctx(None)
        try:
            yield
        finally:
            S.set_ctx(c)
            if was:
                self.on()


# --------------------------------------------------------------------------
# inputs
# --------------------------------------------------------------------------

class SymIn:
    symbolic = True

    def __init__(self, c, engine):
        self.c = c
        self.eng = engine
        self.vars = {}
        self.choices = {}
        self.boxes = {}

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self.vars[name] = v
        if lo is not None:
            self.c.add(v >= S.rterm(lo))
        if hi is not None:
            self.c.add(v <= S.rterm(hi))
        if all(isinstance(b, (int, float)) for b in (lo, hi)):
            self.boxes[name] = (lo, hi)
        return Sym(v)

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.vars[name] = v
        self.c.add(v >= lo)
        self.c.add(v <= hi)
        return Sym(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.vars[name] = v
        return Sym(v)

    def reals(self, name, n, lo=None, hi=None):
        return symnp.sarr([self.real("%s%d" % (name, i), lo, hi) for i in range(n)])

    def array(self, vals):
        return symnp.sarr(vals)

    def farray(self, vals):
        """float array with no symbolic content"""
        return symnp.sarr(np.asarray(vals, dtype=float).tolist())

    def zeros(self, n, dtype):
        return symnp.CREATE["zeros"](n, dtype)

    def choose(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def assume(self, cond):
        if isinstance(cond, Sym):
            e = S.bterm(cond)
            self.c.add(e)
            if self.c.check() == z3.unsat:
                raise Infeasible()
        elif not cond:
            raise Infeasible()

    def assume_fact(self, cond):
        """assume without a feasibility query"""
        if isinstance(cond, Sym):
            self.c.add(S.bterm(cond))
        elif not cond:
            raise Infeasible()

    # ---- assertions
    def true(self, cond, label, detail=""):
        if isinstance(cond, np.ndarray):
            cond = symnp.f_all(cond)
        S.STATS.obligations += 1
        if not isinstance(cond, Sym):
            if cond:
                S.STATS.discharged += 1
                return
            self._refute([], label, detail)
            return
        self._prove(S.bterm(cond), [], label, detail)

    def lt(self, a, b, label, atol=1e-9):
        self._cmp(a, b, "<", label)

    def le(self, a, b, label, atol=1e-9):
        self._cmp(a, b, "<=", label)

    def _cmp(self, a, b, op, label):
        A = symnp._asobj(a).ravel()
        B = symnp._asobj(b).ravel()
        if len(A) == 1 and len(B) > 1:
            A = [A[0]] * len(B)
        if len(B) == 1 and len(A) > 1:
            B = [B[0]] * len(A)
        for i, (x, y) in enumerate(zip(A, B)):
            S.STATS.obligations += 1
            r = S.s_cmp(x, y, op) if (isinstance(x, Sym) or isinstance(y, Sym)) else (x < y if op == "<" else x <= y)
            if not isinstance(r, Sym):
                if bool(r):
                    S.STATS.discharged += 1
                else:
                    self._refute([], label, "index %d: not %s %s %s" % (i, x, op, y))
                continue
            strong = []
            if not (S.nonfinite(x) or S.nonfinite(y)):
                strong = [S.rterm(x) > S.rterm(y) + MARGIN]
            self._prove(S.bterm(r), strong, label, "index %d" % i)

    def eq(self, a, b, label, rtol=1e-6, atol=1e-9):
        A = symnp._asobj(a)
        B = symnp._asobj(b)
        if A.shape != B.shape:
            try:
                A, B = np.broadcast_arrays(A, B)
            except ValueError:
                S.STATS.obligations += 1
                self._refute([], label, "shape %s vs %s" % (A.shape, B.shape))
                return
        for i in np.ndindex(*A.shape):
            self._eq1(A[i], B[i], "%s%s" % (label, list(i) if i else ""), rtol, atol)

    def _eq1(self, x, y, label, rtol=1e-6, atol=1e-9):
        S.STATS.obligations += 1
        if not isinstance(x, Sym) and not isinstance(y, Sym):
            if x is None or y is None or isinstance(x, str):
                ok = x is y or x == y
            else:
                ok = (x == y) or bool(np.isclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True))
            if ok:
                S.STATS.discharged += 1
            else:
                self._refute([], label, "%r != %r" % (x, y))
            return
        if S.nonfinite(x) or S.nonfinite(y) or x is None or y is None:
            self._refute([], label, "%r != %r" % (x, y))
            return
        ex, ey = S.to_z3(x), S.to_z3(y)
        if z3.is_bool(ex) and z3.is_bool(ey):
            self._prove(ex == ey, [], label, "")
            return
        ex, ey = S.coerce2(x, y)
        if ex.eq(ey):
            # still one (trivial, context-free) query so that the verdict is the solver's
            k = z3.simplify(ex != ey)
            if z3.is_false(k):
                S.STATS.queries += 1
                S.STATS.unsat += 1
                S.STATS.discharged += 1
                return
            self._prove(ex == ey, [], label, "")
            return
        d = ex - ey
        strong = [z3.Or(d > MARGIN, d < -MARGIN)] if z3.is_real(d) else []
        self._prove(ex == ey, strong, label, "", diffterm=d)

    def _prove(self, cond, strong, label, detail, diffterm=None):
        c = self.c
        if diffterm is not None and z3.is_real(diffterm):
            ds = z3.simplify(diffterm, som=True, blast_distinct=True) if _small(diffterm) else diffterm
            if z3.is_rational_value(ds) and ds.numerator_as_long() == 0:
                r = c.check(ds != 0)
                if r == z3.unsat:
                    S.STATS.discharged += 1
                    return
            from . import ratio
            z = ratio.is_identically_zero(diffterm, c)
            if z is True:
                S.STATS.discharged += 1
                return
        r = c.check(z3.Not(cond), keep=True, timeout_ms=self.eng.prove_timeout_ms)
        if r == z3.unsat:
            S.STATS.discharged += 1
            return
        if r == z3.sat and diffterm is not None and z3.is_real(diffterm):
            if c.check(z3.Or(diffterm > TIGHT, diffterm < -TIGHT), timeout_ms=4000) == z3.unsat:
                S.STATS.discharged += 1
                return
        if self._candidates(cond, strong, label, detail, diffterm):
            return  # raises Violation if confirmed
        if r == z3.sat:
            S.STATS.spurious.append("%s %s" % (label, detail))
        else:
            S.STATS.inconclusive.append("%s %s" % (label, detail))
        c.add(cond)

    def _refute(self, extra, label, detail):
        """assertion concretely false on this path: the path itself is the cex"""
        self._prove(z3.BoolVal(False), [], label, detail)
        raise Infeasible()

    def _candidates(self, cond, strong, label, detail, diffterm):
        c = self.c
        rng = random.Random(self.eng.seed * 7919 + len(label))
        tries = []
        t0 = time.time()
        if getattr(self, "sampler", None):
            for inputs in self._instantiations(cond, rng, 100):
                res = self.eng.replay(inputs, self.case)
                if res:
                    raise Violation(res[0], "%s | %s" % (detail, res[1]), inputs, self.case)
        for s in strong:
            tries.append([z3.Not(cond), s])
        tries.append([z3.Not(cond)])
        for k in range(4):
            tries.append([z3.Not(cond)] + self._perturb(rng) + strong)
        for ex in tries:
            if time.time() - t0 > 60:
                break
            if c.check(*ex, keep=True, timeout_ms=4000) == z3.sat:
                inputs = self.model_inputs(c.last_model)
                res = self.eng.replay(inputs, self.case)
                if res:
                    raise Violation(res[0], "%s | %s" % (detail, res[1]), inputs, self.case)
        # solver gave no usable model (nonlinear / uninterpreted functions):
        # instantiate the inputs with random rationals satisfying the path and
        # let the real code decide.
        for inputs in self._instantiations(cond, rng, 40):
            res = self.eng.replay(inputs, self.case)
            if res:
                raise Violation(res[0], "%s | %s" % (detail, res[1]), inputs, self.case)
        return False

    def _perturb(self, rng):
        out = []
        for n, v in self.vars.items():
            if z3.is_real(v) and rng.random() < 0.7:
                b = rng.choice([-1.5, -0.7, 0.3, 0.9, 1.3, 2.2])
                w = rng.choice([0.5, 1.5])
                out.append(z3.Or(z3.And(v > S.rterm(b), v < S.rterm(b + w)), v > S.rterm(50.0)))
        return out[: max(1, len(out) // 2)]

    def _instantiations(self, cond, rng, n):
        facts = self.c.facts
        got = 0
        sampler = getattr(self, "sampler", None)
        for _ in range(n * 4):
            env = dict(sampler(rng)) if sampler else {}
            for name, v in self.vars.items():
                if name in env:
                    continue
                if z3.is_bool(v):
                    env[name] = rng.random() < 0.5
                elif z3.is_int(v):
                    env[name] = rng.randint(-3, 6)
                elif name in self.boxes and rng.random() < 0.8:
                    lo, hi = self.boxes[name]
                    env[name] = min(max(round(rng.uniform(lo, hi), 3), lo), hi)
                else:
                    env[name] = round(rng.uniform(-2, 3), 3) if rng.random() < .5 else round(rng.uniform(0.1, 1.5), 3)
            # clamp into simple bounds
            if not sampler:
                for f in facts:
                    _clamp(f, env)
            try:
                ok = all(S.eval_float(f, env) for f in facts)
                bad = not S.eval_float(cond, env)
            except Exception:
                continue
            if ok and bad:
                got += 1
                yield {k: v for k, v in env.items()}
                if got >= 5:
                    return

    def model_inputs(self, m):
        out = {}
        for n, v in self.vars.items():
            val = m.eval(v, model_completion=True)
            if z3.is_bool(v):
                out[n] = z3.is_true(val)
            elif z3.is_int(v):
                out[n] = val.as_long()
            else:
                out[n] = S.model_float(val)
        return out

    # ---- derivatives
    def derivative(self, fun, xs, j, cache={}):
        y = fun(xs)
        return self.d(y, xs[j])

    def d(self, y, x):
        if not isinstance(y, Sym):
            return 0.0
        return S.diff(y.e, x.e)


def _small(e, lim=4000):
    return len(S.postorder(e)) < lim


def _clamp(f, env):
    try:
        k = f.decl().kind()
        ch = f.children()
        if len(ch) != 2:
            return
        a, b = ch
        if a.children():
            return
        n = str(a)
        if n in env and z3.is_rational_value(b) and not isinstance(env[n], bool):
            v = S.model_float(b)
            if k == z3.Z3_OP_GE and env[n] < v:
                env[n] = v + abs(env[n] - v) % 1.0
            elif k == z3.Z3_OP_LE and env[n] > v:
                env[n] = v - abs(env[n] - v) % 1.0
            elif k == z3.Z3_OP_GT and env[n] <= v:
                env[n] = v + (abs(env[n] - v) + .1) % 1.0
            elif k == z3.Z3_OP_LT and env[n] >= v:
                env[n] = v - (abs(env[n] - v) + .1) % 1.0
    except Exception:
        pass


class RealIn:
    """concrete replay"""
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.checked = 0

    def real(self, name, lo=None, hi=None):
        v = float(self.inputs.get(name, 0.0 if lo is None else lo))
        if lo is not None and v < float(lo):
            v = float(lo)
        if hi is not None and v > float(hi):
            v = float(hi)
        return v

    def int(self, name, lo, hi):
        return int(min(max(self.inputs.get(name, lo), lo), hi))

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def reals(self, name, n, lo=None, hi=None):
        return np.array([self.real("%s%d" % (name, i), lo, hi) for i in range(n)])

    def array(self, vals):
        return np.array(vals, dtype=float)

    def farray(self, vals):
        return np.array(vals, dtype=float)

    def zeros(self, n, dtype):
        return np.zeros(n, dtype=dtype)

    def choose(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Infeasible()

    assume_fact = assume

    def true(self, cond, label, detail=""):
        self.checked += 1
        if not bool(np.all(cond)):
            raise ReplayFail(label, detail)

    def lt(self, a, b, label, atol=1e-9):
        self.checked += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if np.any(np.isnan(a)) or np.any(np.isnan(b)) or not np.all((a < b) | np.isclose(a, b, rtol=1e-12, atol=atol) & (a <= b + atol)):
            raise ReplayFail(label, "not %s < %s" % (a, b))
        # strictness: equality is a failure only when exactly representable
        if np.any(a == b):
            raise ReplayFail(label, "not %s < %s (equal)" % (a, b))

    def le(self, a, b, label, atol=1e-9):
        self.checked += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if np.any(np.isnan(a)) or np.any(np.isnan(b)) or not np.all(a <= b + atol + 1e-9 * np.abs(b)):
            raise ReplayFail(label, "not %s <= %s" % (a, b))

    def eq(self, a, b, label, rtol=1e-6, atol=1e-9):
        self.checked += 1
        try:
            A, B = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            if not (a is b or a == b):
                raise ReplayFail(label, "%r != %r" % (a, b))
            return
        try:
            A, B = np.broadcast_arrays(A, B)
        except ValueError:
            raise ReplayFail(label, "shape %s vs %s" % (A.shape, B.shape))
        if not np.allclose(A, B, rtol=rtol, atol=atol, equal_nan=True):
            i = np.argmax(np.abs(A - B))
            raise ReplayFail(label, "got %r, expected %r" % (A.ravel()[i], B.ravel()[i]))

    def derivative(self, fun, xs, j, h=1e-5):
        def at(d):
            y = np.array(xs, dtype=float)
            y[j] += d
            return fun(y)
        return (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h)


# --------------------------------------------------------------------------
# engine
# --------------------------------------------------------------------------

class Harness:
    """fn(I, **case); stubs active only in symbolic mode."""

    def __init__(self, name, fn, cases=({},), stubs=None, np_overrides=None, pi_symbolic=True,
                 max_paths=400, path_timeout=90, timeout_ms=4000, prove_timeout_ms=20000,
                 div_check=True, allow=(), time_budget=200, functions=(), bounds="", skip=(),
                 validate=3, tier="quick", expect_exc=()):
        self.__dict__.update(locals())
        del self.__dict__["self"]


class Engine:
    def __init__(self, h, seed=1):
        self.h = h
        self.seed = seed
        self.prove_timeout_ms = h.prove_timeout_ms
        st = h.stubs() if callable(h.stubs) else h.stubs
        npo = h.np_overrides() if callable(h.np_overrides) else h.np_overrides
        self.patches = Patches(st, npo, h.pi_symbolic, h.skip)
        self.validated = 0
        self.mismatches = []

    def replay(self, inputs, case):
        """run on the real, unpatched code; returns (label, detail) if it fails"""
        with self.patches.suspended(), wcsstub.unsubbed():
            I = RealIn(inputs)
            try:
                with np.errstate(all="ignore"), alarm(REPLAY_LIMIT):
                    self.h.fn(I, **case)
            except ReplayFail as e:
                return e.label, e.detail
            except (Infeasible, Stop):
                return None
            except PathTimeout:
                return "does not terminate", "the code gave no answer within %g s on these inputs" % REPLAY_LIMIT
            except Exception as e:
                if os.environ.get("VF_DEBUG"):
                    traceback.print_exc()
                if stand_in_mismatch(e, self.h.fn):
                    self.mismatches.append("%s: %s at %s" % (type(e).__name__, str(e)[:160], _where(e)))
                    return None
                return "unexpected exception", "%s: %s" % (type(e).__name__, e) + " at " + _where(e)
            self.validated += 1 if I.checked else 0
            return None

    def run_case(self, case, deadline):
        h = self.h
        work = [[]]
        npaths = 0
        completed = 0
        limits = []
        self.patches.on()
        t_end = min(deadline, time.time() + h.time_budget)
        exhausted = True
        try:
            while work:
                if npaths >= h.max_paths or time.time() > t_end:
                    exhausted = False
                    break
                prefix = work.pop()
                c = S.Ctx(prefix, timeout_ms=h.timeout_ms, div_check=h.div_check)
                S.set_ctx(c)
                I = SymIn(c, self)
                I.case = case
                npaths += 1
                S.STATS.paths += 1
                try:
                    with alarm(h.path_timeout):
                        h.fn(I, **case)
                    completed += 1
                    self._validate(I, c, case)
                except Stop:
                    completed += 1
                    self._validate(I, c, case)
                except Infeasible:
                    pass
                except Violation:
                    raise
                except Exception as e:
                    # either a genuine crash of the code or an engine limit:
                    # replaying the path's model on the real code decides.
                    if os.environ.get("VF_DEBUG"):
                        traceback.print_exc()
                    tag = "%s: %s at %s" % (type(e).__name__, str(e)[:200], _where(e))
                    confirmed = None
                    if c.check(keep=True) == z3.sat:
                        inputs = I.model_inputs(c.last_model)
                        confirmed = self.replay(inputs, case)
                        if confirmed:
                            raise Violation(confirmed[0], confirmed[1], inputs, case)
                    self._try_others(I, case)
                    limits.append(tag)
                finally:
                    work.extend(c.alts)
                    S.set_ctx(None)
        finally:
            self.patches.off()
        limits += self.mismatches
        return dict(paths=npaths, completed=completed, limits=limits, exhausted=exhausted,
                    remaining=len(work))

    def _try_others(self, I, case):
        """the path is beyond the encoding: look for a counterexample among
        further inputs of the path"""
        rng = random.Random(self.seed * 53)
        if getattr(I, "sampler", None):
            cand = [I.sampler(rng) for _ in range(4)]
        else:
            cand = []
            for env in I._instantiations(z3.BoolVal(False), rng, 3):
                cand.append({k: (round(v * 64) / 64.0 if isinstance(v, float) else v) for k, v in env.items()})
                if len(cand) == 3:
                    break
        for inputs in cand:
            confirmed = self.replay(inputs, case)
            if confirmed:
                raise Violation(confirmed[0], confirmed[1], inputs, case)

    def _validate(self, I, c, case):
        if os.environ.get("VF_STRESS"):
            self._try_others(I, case)
        if self.validated >= self.h.validate:
            return
        if getattr(I, "sampler", None):
            inputs = I.sampler(random.Random(self.seed * 31 + self.validated))
            res = self.replay(inputs, case)
            if res:
                raise Violation(res[0], res[1], inputs, case)
            return
        r = c.check(keep=True, timeout_ms=3000)
        if r == z3.sat:
            cand = [I.model_inputs(c.last_model)]
        elif r == z3.unknown:
            cand = list(I._instantiations(z3.BoolVal(False), random.Random(self.seed), 4))[:1]
        else:
            cand = []
        for inputs in cand:
            res = self.replay(inputs, case)
            if res:
                raise Violation(res[0], res[1], inputs, case)


def stand_in_mismatch(e, fn):
    """An exception that says the harness' own stand-ins no longer fit the code
    (a name the harness uses was moved, a stand-in lacks an attribute or a
    keyword the code now uses): the harness cannot decide, and says so."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if isinstance(e, NotImplementedError) and e.__traceback__ is not None:
        return traceback.extract_tb(e.__traceback__)[-1].filename.startswith(here)
    if isinstance(e, (ImportError, S.SymLeak)):
        return True
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        if isinstance(o, types.ModuleType):
            return not o.__name__.split(".")[0] == "numpy"
        if isinstance(o, types.SimpleNamespace):
            return True
        t = o if isinstance(o, type) else type(o)
        return str(getattr(t, "__module__", "")).split(".")[0] in ("vf", "checks")
    if isinstance(e, TypeError):
        m = re.match(r"([\w.<>]+)\(\) (got an unexpected keyword|takes |missing |got multiple values)", str(e))
        if m:
            root = m.group(1).split(".")[0]
            if root == fn.__name__:
                return True
            for name, mod in list(sys.modules.items()):
                if name.split(".")[0] in ("vf", "checks"):
                    o = getattr(mod, root, None)
                    if getattr(o, "__module__", None) == name:
                        return True
            # a call made by the harness itself with arguments the code no longer takes
            last = traceback.extract_tb(e.__traceback__)[-1].filename
            return last.startswith(here)
    return False


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/repo/" in f.filename] or tb
    return "%s:%d" % (os.path.basename(fr[-1].filename), fr[-1].lineno) if fr else "?"


_HS = {}
_SETUP = None


def _job(args):
    name, case, deadline, seed = args
    h = _HS[name]
    S.STATS = S.Stats()
    if hasattr(S, "_FRAC_CACHE"):
        pass
    random.seed(seed)
    np.random.seed(seed)
    out = dict(harness=name, case=case, violation=None, error=None, result=None, validated=0)
    if time.time() > deadline:
        out["result"] = dict(paths=0, completed=0, limits=["not started: out of time"], exhausted=False, remaining=1)
        out["stats"] = S.STATS.__dict__
        return out
    t0 = time.time()
    eng = None
    try:
        eng = Engine(h, seed)
        out["result"] = eng.run_case(case, deadline)
    except Violation as v:
        out["violation"] = dict(label=v.label, detail=str(v.detail)[:2000], inputs=v.inputs, case=v.case)
    except Infeasible:
        out["error"] = "Infeasible outside path"
    except BaseException as e:
        out["error"] = traceback.format_exc()[-3000:]
    if eng is not None:
        out["validated"] = eng.validated
    out["wall"] = time.time() - t0
    out["stats"] = dict(S.STATS.__dict__)
    return out


def run_all(harnesses, seed, budget_s, nproc=8):
    global _HS
    _HS = {h.name: h for h in harnesses}
    deadline = time.time() + budget_s
    jobs = []
    for h in harnesses:
        for case in h.cases:
            jobs.append((h.name, dict(case), deadline, seed))
    results = []
    if nproc == 1 or os.environ.get("VF_SERIAL"):
        for j in jobs:
            r = _job(j)
            results.append(r)
            if r["violation"]:
                break
        return results
    mpc = mp.get_context("fork")
    with mpc.Pool(min(nproc, len(jobs)), maxtasksperchild=4) as pool:
        it = pool.imap_unordered(_job, jobs, chunksize=1)
        n = 0
        while n < len(jobs):
            try:
                r = it.next(timeout=max(1.0, deadline + 60 - time.time()))
            except mp.TimeoutError:
                results.append(dict(harness="?", case={}, violation=None, error="worker timeout", result=None, validated=0,
                                    stats=S.Stats().__dict__, wall=0))
                break
            except StopIteration:
                break
            n += 1
            results.append(r)
            if r["violation"]:
                break
        pool.terminate()
    return results
