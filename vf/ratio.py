"""Rational-function normal form of z3 real terms (assists the solver).

A difference term is rewritten as num/den with polynomial num, den over the
rationals; atoms are variables and applications of uninterpreted functions.
sqrt atoms are reduced with w^2 = arg, cos/sin pairs with s^2 = 1 - c^2 (both
are axioms already asserted in the context).  The verdict is z3's, on
`num' != 0` (unsat iff the reduced numerator is the zero polynomial)."""
import time
from fractions import Fraction

import z3

from . import sym as S

try:
    from sympy.polys.rings import ring
    from sympy import QQ
except Exception:  # pragma: no cover
    ring = None


class TooBig(Exception):
    pass


MAXTERMS = 60000
MAXSECS = 60


def is_identically_zero(d, ctx):
    if ring is None:
        return None
    try:
        return _zero(d, ctx)
    except (TooBig, NotImplementedError, ZeroDivisionError, RecursionError):
        return None


def _atoms(order):
    names = []
    atoms = {}
    for x in order:
        if z3.is_rational_value(x) or z3.is_int_value(x):
            continue
        k = x.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED or k in (z3.Z3_OP_ITE, z3.Z3_OP_TO_INT, z3.Z3_OP_TO_REAL, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            atoms[x.get_id()] = x
    return atoms


def _postorder_cut(e):
    """postorder that does not descend below atoms (UF apps, ite)."""
    out, seen = [], set()
    stack = [(e, False)]
    cut = (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ITE, z3.Z3_OP_TO_INT, z3.Z3_OP_TO_REAL, z3.Z3_OP_IDIV, z3.Z3_OP_MOD)
    while stack:
        x, done = stack.pop()
        i = x.get_id()
        if done:
            out.append(x)
            continue
        if i in seen:
            continue
        seen.add(i)
        stack.append((x, True))
        if z3.is_app(x) and x.decl().kind() in cut:
            continue
        for c in x.children():
            if c.get_id() not in seen:
                stack.append((c, False))
    return out


class Frac:
    """num / prod(den_i^k_i); den factors are polynomials by id"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}


class Normaliser:
    def __init__(self, roots, ctx):
        self.t0 = time.time()
        self.ctx = ctx
        self.roots = roots
        atoms = {}
        work = list(roots)
        done = set()
        self.keep = []
        while True:
            # sqrt arguments contribute atoms too
            while work:
                r = work.pop()
                if r.get_id() in done:
                    continue
                done.add(r.get_id())
                for i, a in _atoms(_postorder_cut(r)).items():
                    if i not in atoms:
                        atoms[i] = a
                        if a.children() and a.decl().name() == "sqrt!":
                            work.append(a.children()[0])
                        if a.children() and a.decl().name() in ("sin!", "cos!"):
                            arg = a.children()[0]
                            for f in ("cos", "sin"):
                                t = S.uf(f)(arg)
                                self.keep.append(t)
                                atoms.setdefault(t.get_id(), t)
            # several applications of one function: their arguments are compared
            byd = {}
            for i, a in atoms.items():
                if a.children() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    byd.setdefault(a.decl().name(), []).append(a)
            for g in byd.values():
                if len(g) > 1:
                    for a in g:
                        work.extend(c for c in a.children() if c.get_id() not in done)
            if not work:
                break
        self.groups = {k: g for k, g in byd.items() if len(g) > 1}
        self.atoms = atoms
        ids = sorted(atoms)
        names = ["x%d" % k for k in range(len(ids))] or ["x0"]
        R = ring(names, QQ)
        self.R = R[0]
        self.gen = {i: g for i, g in zip(ids, R[1:])}
        self.gidx = {i: k for k, i in enumerate(ids)}
        self.factors = {}
        self.memo = {}
        # reductions: index -> polynomial for x^2
        self.red = {}
        self.t1 = None
        self.merge()
        for i in ids:
            a = atoms[i]
            if a.children() and a.decl().name() == "sin!":
                c = S.uf("cos")(a.children()[0])
                if self.gen[i] == self.R.gens[self.gidx[i]]:
                    self.red[self.gidx[i]] = 1 - self.gen[c.get_id()] ** 2
        self.memo = {}
        self.sqrt_arg = {}
        for i in ids:
            a = atoms[i]
            if a.children() and a.decl().name() == "sqrt!" and self.gen[i] == self.R.gens[self.gidx[i]]:
                self.sqrt_arg[i] = a.children()[0]
        self.memo = {}

    def merge(self):
        """give applications with provably equal arguments the same generator"""
        depth = {}

        def dep(a):
            if a.get_id() not in depth:
                d = 0
                for x in S.postorder(a):
                    if x.children() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        d += 1
                depth[a.get_id()] = d
            return depth[a.get_id()]
        todo = sorted([a for g in self.groups.values() for a in g], key=lambda a: (dep(a), a.get_id()))
        reps = {}
        self.inv_of = {}
        for a in todo:
            n = a.decl().name()
            try:
                args = [self.norm(c) for c in a.children()]
            except NotImplementedError:
                continue
            hit = None
            for b, bargs in reps.setdefault(n, []):
                if all(self.same(x, y) for x, y in zip(args, bargs)):
                    hit = b
                    break
                if n == "sqrt!" and self.same(self.mul(args[0], bargs[0]), Frac(self.R.one)):
                    self.memo[a.get_id()] = self.inv(Frac(self.gen[b.get_id()]))
                    self.inv_of[a.get_id()] = self.memo[a.get_id()]
            if hit is not None:
                self.gen[a.get_id()] = self.gen[hit.get_id()]
                self.memo.pop(a.get_id(), None)
            else:
                reps[n].append((a, args))

    def same(self, a, b):
        d = self.add(a, Frac(-b.n, b.d))
        return not self.reduce(d.n)

    def guard(self, p):
        if len(p) > MAXTERMS or time.time() - self.t0 > MAXSECS:
            raise TooBig()
        return p

    def fac(self, p):
        """register a denominator factor (made monic-ish)"""
        key = p
        if key not in self.factors:
            self.factors[key] = len(self.factors)
        return key

    def mul(self, a, b):
        d = dict(a.d)
        for k, v in b.d.items():
            d[k] = d.get(k, 0) + v
        return Frac(self.guard(self.reduce(a.n * b.n)), d)

    def add(self, a, b):
        if a.d == b.d:
            return Frac(self.guard(a.n + b.n), a.d)
        d = dict(a.d)
        for k, v in b.d.items():
            d[k] = max(d.get(k, 0), v)
        na, nb = a.n, b.n
        for k, v in d.items():
            ea, eb = v - a.d.get(k, 0), v - b.d.get(k, 0)
            if ea:
                na = self.guard(self.reduce(na * k ** ea))
            if eb:
                nb = self.guard(self.reduce(nb * k ** eb))
        return Frac(self.guard(na + nb), d)

    def inv(self, a):
        n = a.n
        if n == 0:
            raise ZeroDivisionError
        num = self.R.one
        for k, v in a.d.items():
            num = num * k ** v
        if n.is_ground:
            return Frac(num * (1 / n.coeff(1)) if True else num, {})
        # monomial content split out as separate factors
        cont, prim = n.primitive()
        d = {}
        if len(prim) == 1:
            mon = list(prim.keys())[0]
            c0 = list(prim.values())[0]
            for idx, ex in enumerate(mon):
                if ex:
                    d[self.R.gens[idx]] = d.get(self.R.gens[idx], 0) + ex
            return Frac(num * (1 / (cont * c0)), d)
        lc = prim.LC
        if lc < 0:
            prim = -prim
            cont = -cont
        d[prim] = 1
        # cancel common factor between num and d when identical factor present
        return Frac(num * (1 / cont), d)

    def reduce(self, p):
        if not self.red:
            return p
        changed = True
        while changed:
            changed = False
            for idx, q in self.red.items():
                if any(m[idx] >= 2 for m in p.keys()):
                    out = self.R.zero
                    groups = {}
                    for m, cf in p.items():
                        e = m[idx]
                        k, r = divmod(e, 2)
                        mm = list(m)
                        mm[idx] = r
                        groups.setdefault(k, {})[tuple(mm)] = groups.get(k, {}).get(tuple(mm), QQ(0)) + cf
                    for k, dct in groups.items():
                        out = out + self.R.from_dict(dct) * q ** k
                    p = self.guard(out)
                    changed = True
        return p

    def norm(self, e):
        for x in _postorder_cut(e):
            i = x.get_id()
            if i in self.memo:
                continue
            if i in getattr(self, "inv_of", {}):
                self.memo[i] = self.inv_of[i]
                continue
            if i in self.gen:
                self.memo[i] = Frac(self.gen[i])
                continue
            if z3.is_rational_value(x):
                self.memo[i] = Frac(self.R(QQ(x.numerator_as_long(), x.denominator_as_long())))
                continue
            if z3.is_int_value(x):
                self.memo[i] = Frac(self.R(x.as_long()))
                continue
            k = x.decl().kind()
            ch = [self.memo[c.get_id()] for c in x.children()]
            if k == z3.Z3_OP_ADD:
                r = ch[0]
                for q in ch[1:]:
                    r = self.add(r, q)
            elif k == z3.Z3_OP_SUB:
                r = ch[0]
                for q in ch[1:]:
                    r = self.add(r, Frac(-q.n, q.d))
            elif k == z3.Z3_OP_UMINUS:
                r = Frac(-ch[0].n, ch[0].d)
            elif k == z3.Z3_OP_MUL:
                r = ch[0]
                for q in ch[1:]:
                    r = self.mul(r, q)
            elif k == z3.Z3_OP_DIV:
                r = self.mul(ch[0], self.inv(ch[1]))
            elif k == z3.Z3_OP_POWER:
                n = x.children()[1]
                if not z3.is_rational_value(n) or n.denominator_as_long() != 1:
                    raise NotImplementedError
                n = n.numerator_as_long()
                b = ch[0] if n > 0 else self.inv(ch[0])
                r = b
                for _ in range(abs(n) - 1):
                    r = self.mul(r, b)
            else:
                raise NotImplementedError(str(x.decl()))
            self.memo[i] = self.cancel(r)
        return self.memo[e.get_id()]

    def cancel(self, f):
        """drop denominator factors dividing the numerator (cheap cases)"""
        if not f.d or not f.n:
            return f if f.n else Frac(self.R.zero)
        d = dict(f.d)
        n = f.n
        for k in list(d):
            if len(k) == 1 and len(n) < 20000:
                # generator factor
                mon = list(k.keys())[0]
                idx = max(range(len(mon)), key=lambda t: mon[t])
                mn = min(m[idx] for m in n.keys())
                c = min(mn, d[k])
                if c:
                    n = self.R.from_dict({tuple(e - c if t == idx else e for t, e in enumerate(m)): v for m, v in n.items()})
                    d[k] -= c
                    if not d[k]:
                        del d[k]
        return Frac(n, d)


def _zero(d, ctx):
    N = Normaliser([d], ctx)
    f = N.norm(d)
    num = f.n
    # reduce sqrt atoms: w^2 -> arg (as fraction)
    for i, arg in N.sqrt_arg.items():
        idx = N.gidx[i]
        while num and any(m[idx] >= 2 for m in num.keys()):
            a = N.norm(arg)
            den = N.R.one
            for k, v in a.d.items():
                den = den * k ** v
            groups = {}
            for m, cf in num.items():
                k, r = divmod(m[idx], 2)
                mm = list(m)
                mm[idx] = r
                g = groups.setdefault(k, {})
                g[tuple(mm)] = g.get(tuple(mm), QQ(0)) + cf
            K = max(groups)
            out = N.R.zero
            for k, dct in groups.items():
                out = N.guard(out + N.reduce(N.R.from_dict(dct) * a.n ** k * den ** (K - k)))
            num = out
    num = N.reduce(num)
    # verdict by the solver on the reduced numerator
    if num == 0:
        r = ctx.check(z3.RealVal(0) != z3.RealVal(0))
        return True if r == z3.unsat else None
    return False
