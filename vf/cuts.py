"""Named intermediate quantities ("cuts") of a specification.

Large terms produced by executing the real code are decided hierarchically:
subterms that (numerically) look like a named quantity of the specification are
proved equal to it and replaced by its name, so that each remaining equality is
a small rational identity.  A subterm that cannot be matched is simply left
expanded: matching only affects cost, never soundness (each replacement is
itself proved)."""
import math
import random
import time

import z3

from . import sym as S
from . import ratio
from .sym import Sym


class Cuts:
    def __init__(self, I, inputs, seed=5, sampler=None):
        self.I = I
        self.sym = I.symbolic
        self.order = []
        self.defs = {}     # name -> z3 term
        self.level = {}
        self.var = {}
        self.dcache = {}
        self.time = 0.0
        self.nproved = 0
        if self.sym:
            rng = random.Random(seed)
            self.envs = []
            for k in range(2):
                if sampler is not None:
                    env = {n: v for n, v in sampler(rng).items()}
                else:
                    env = {}
                for n in inputs:
                    if n not in env:
                        env[n] = rng.uniform(0.3, 1.7)
                self.envs.append(env)
            self.byval = []
            self.val = {}
            self.memo = {}
            self.keep = []

    # ---- building
    def define(self, name, x, level):
        """name the quantity x; returns a variable standing for it"""
        if not self.sym:
            return x
        if not isinstance(x, Sym):
            return x
        n = "cut!%s" % name
        if n in self.var:
            return Sym(self.var[n])
        v = z3.Real(n)
        self.var[n] = v
        self.defs[n] = x.e
        self.level[n] = level
        self.order.append(n)
        vals = tuple(S.eval_float(x.e, env) for env in self.envs)
        for env, y in zip(self.envs, vals):
            env[n] = y
        self.val[n] = vals
        if all(math.isfinite(y) and abs(y) > 1e-12 for y in vals):
            self.byval.append((vals, n))
        return Sym(v)

    def deriv(self, x, seeds, tag):
        """total derivative of x (over inputs and cuts) with input seeds
        {input z3 var name: derivative}"""
        if not isinstance(x, Sym):
            return 0.0
        tot = 0.0
        for v in _vars(x.e):
            n = str(v)
            if n in seeds:
                du = seeds[n]
            elif n in self.defs:
                key = (n, tag)
                if key not in self.dcache:
                    d = self.deriv(Sym(self.defs[n]), seeds, tag)
                    if isinstance(d, Sym):
                        d = self.define("d[%s]/d[%s]" % (n[4:], tag), d, self.level[n] + 0.5)
                    self.dcache[key] = d
                du = self.dcache[key]
            else:
                continue
            if not isinstance(du, Sym) and du == 0:
                continue
            p = S.diff(x.e, v)
            if not isinstance(p, Sym) and p == 0:
                continue
            t = S.s_mul(p, du) if isinstance(p, Sym) or isinstance(du, Sym) else p * du
            tot = S.s_add(tot, t) if isinstance(tot, Sym) or isinstance(t, Sym) else tot + t
        return tot

    def _has_vars(self, t):
        return bool(_vars(t))

    # ---- proving
    def expand(self, t, lev):
        """substitute definitions of all cuts with level >= lev"""
        for _ in range(60):
            sub = []
            for v in _vars(t):
                n = str(v)
                if n in self.defs and self.level[n] >= lev:
                    sub.append((v, self.defs[n]))
            if not sub:
                return t
            t = z3.substitute(t, *sub)
        return t

    def prove_equal(self, a, b, max_s=40):
        """a == b for all inputs?  True or None"""
        t0 = time.time()
        if a.eq(b):
            return True
        d = a - b
        if not self.numerically_zero(d):
            return False
        levels = sorted({self.level[str(v)] for v in _vars(d) if str(v) in self.defs}, reverse=True)
        cur = d
        tried = 0
        while True:
            save = ratio.MAXSECS
            ratio.MAXSECS = max_s
            try:
                z = ratio.is_identically_zero(cur, self.I.c)
            finally:
                ratio.MAXSECS = save
            if z is True:
                self.nproved += 1
                return True
            if z is None and tried > 0:
                return None
            lv = [self.level[str(v)] for v in _vars(cur) if str(v) in self.defs]
            if not lv or time.time() - t0 > max_s:
                return None
            cur = self.expand(cur, max(lv))
            tried += 1

    def numerically_zero(self, d):
        for env in self.envs:
            try:
                memo = {}
                scale = 0.0
                for x in S.postorder(d):
                    v = S._eval_node(x, memo, env)
                    memo[x.get_id()] = v
                v = memo[d.get_id()]
                parts = [abs(memo[c.get_id()]) for c in d.children()] or [abs(v)]
                if not abs(v) <= 1e-7 * max(parts + [1e-12]):
                    return False
            except Exception:
                return True
        return True

    def sweep(self, t):
        """rewrite t bottom-up, replacing proved-equal subterms by cuts"""
        vals = []
        order = S.postorder(t)
        for env in self.envs:
            memo = {}
            for x in order:
                try:
                    memo[x.get_id()] = S._eval_node(x, memo, env)
                except Exception:
                    memo[x.get_id()] = math.nan
            vals.append(memo)
        for x in order:
            i = x.get_id()
            if i in self.memo:
                continue
            self.keep.append(x)
            if not x.children():
                self.memo[i] = x
                continue
            ch = [self.memo[c.get_id()] for c in x.children()]
            y = x if all(c.eq(o) for c, o in zip(ch, x.children())) else x.decl()(*ch) if not _nary(x) else _rebuild(x, ch)
            if z3.is_real(x):
                w = tuple(m[i] for m in vals)
                for cv, n in self.byval:
                    if all(_close(p, q) for p, q in zip(w, cv)):
                        if y.eq(self.var[n]):
                            break
                        if self.prove_equal(y, self.defs[n], 15):
                            y = self.var[n]
                            break
            self.memo[i] = y
            self.keep.append(y)
        return self.memo[t.get_id()]

    def equal(self, a, b, label):
        """obligation: real-code term a equals specification term b (over cuts)"""
        I = self.I
        S.STATS.obligations += 1
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            ok = (a == b) or (S.isnum(a) and S.isnum(b) and abs(a - b) <= 1e-9 * max(abs(a), abs(b)))
            if ok:
                S.STATS.discharged += 1
                return
            I._refute([], label, "%r != %r" % (a, b))
        if S.nonfinite(a) or S.nonfinite(b):
            I._refute([], label, "%r != %r" % (a, b))
        ea, eb = S.rterm(a), S.rterm(b)
        sa = self.sweep(ea)
        r = self.prove_equal(sa, eb)
        if r is True:
            S.STATS.discharged += 1
            return
        full = self.expand(eb, -1)
        if I._candidates(ea == full, [], label, "", None):
            return
        S.STATS.inconclusive.append("%s (%s)" % (label, r))


def _nary(x):
    return x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB)


def _rebuild(x, ch):
    k = x.decl().kind()
    r = ch[0]
    for c in ch[1:]:
        r = r + c if k == z3.Z3_OP_ADD else (r * c if k == z3.Z3_OP_MUL else r - c)
    return r


def _close(a, b):
    return math.isfinite(a) and abs(a - b) <= 1e-9 * max(abs(a), abs(b))


_VC = {}


def _vars(t):
    out, seen = [], set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        ch = x.children()
        if not ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        stack.extend(ch)
    return out
