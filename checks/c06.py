"""C06 answers of the posterior are independent of the query history."""
import itertools

import numpy as np

from vf.harness import Harness
from vf import fmodel as F
from checks import c05

import forcepho.model as M

OPS = ["lnprob", "lnprob_grad", "lnprob_and_grad", "nll", "nll_nograd"]
TOL = dict(rtol=2e-5, atol=2e-5)


def answer(op, lnp, g, ndof):
    """flattened expected answer"""
    if op == "lnprob":
        return [lnp]
    if op == "lnprob_grad":
        return list(g)
    if op == "lnprob_and_grad":
        return [lnp] + list(g)
    if op == "nll":
        return [-lnp / ndof] + [-x / ndof for x in g]
    return [-lnp / ndof]


def flat(r):
    if isinstance(r, tuple):
        return [x for y in r for x in flat(y)]
    if np.ndim(r):
        return list(r)
    return [r]


def samept(I, u, v, var):
    same = True
    for i in var:
        same = (u[i] == v[i]) & same if I.symbolic else (same and u[i] == v[i])
    return same


def h_hist(I, seq, sampling, points):
    nb, ns = 1, 1
    nd = 7
    base = [0.5, 0.25, -0.25, 0.75, 0.125, 1.5, 0.375]
    var = (0, 3)
    A, B = list(base), list(base)
    for i in var:
        A[i] = I.real("a%d" % i, -2, 2)
        B[i] = I.real("b%d" % i, -2, 2)
    patch = c05.make_patch(I, nb, ns)
    patch.residual = I.farray([0.0, 0.0])
    scene = c05.make_scene(I, nb, ns)
    ev = [0]

    def chi(x):
        c, d = 0.0, {}
        for j in range(7):
            c = c + (1 + 0.5 * j) * x[j] * x[j]
            d[0, j] = 2 * (1 + 0.5 * j) * x[j]
        return c, d

    def respond(call, band, props):
        ev[0] += 1
        x = [props[0]["fluxes"][band]] + [props[0][k] for k in F.PN]
        patch.residual[0] = x[0] * 2.0
        patch.residual[1] = x[3] + 1.0
        return chi(x)
    kern = F.Kernel(I, patch, respond)
    T = M.Transform(nd)
    ndof = 4.0
    m = M.FastPosterior(F.make_proposer(kern), patch, scene=scene, transform=T, sampling=sampling)
    m.ndof = ndof
    buf = I.array([0.0] * nd)
    last, seen = None, []
    for k, op in enumerate(seq):
        pt = I.choose("pt%d" % k, points)
        vals = A if pt[0] == "A" else B
        if pt[1] == "buf":
            for i in range(nd):
                buf[i] = vals[i]
            z = buf
        else:
            z = I.array(vals)
        if op == "residuals":
            r = m.residuals(I.array(vals), unpack=False)
            I.eq(r[0], vals[0] * 2.0, "residuals belong to the queried point", **TOL)
            I.eq(r[1], vals[3] + 1.0, "residuals belong to the queried point", **TOL)
            continue
        n0 = ev[0]
        r = flat(getattr(m, op)(z))
        c, d = chi(vals)
        lnp, g = -0.5 * c, [-0.5 * d[0, j] for j in range(7)]
        exp = answer(op, lnp, g, ndof)
        I.true(len(r) == len(exp), "answer has the right length")
        for x, y in zip(r, exp):
            I.eq(x, y, "answer of %s at step %d is that of a fresh posterior" % (op, k), **TOL)
        n = ev[0] - n0
        if last is not None:
            if bool(samept(I, last, vals, var)):
                I.true(n == 0, "likelihood not re-evaluated at an unchanged point")
        if not any(bool(samept(I, v, vals, var)) for v in seen):
            I.true(n > 0, "likelihood evaluated at a point that was never queried before")
        seen.append(vals)
        last = vals


def h_slow(I, seq, points):
    n = 2
    A = [I.real("a%d" % i, -2, 2) for i in range(n)]
    B = [I.real("b%d" % i, -2, 2) for i in range(n)]

    def f(q):
        return q[0] * q[0] + 3 * q[1], [2 * q[0], 3.0]

    def lnlike(q, scene=None, plans=None, **kw):
        ev[0] += 1
        l, g = f(q)
        return l, I.array(g)
    m = M.SlowPosterior(scene=object(), plans=[object()], lnlike=lnlike, transform=M.Transform(n))
    buf = I.array([0.0] * n)
    ev, seen = [0], []
    for k, op in enumerate(seq):
        pt = I.choose("pt%d" % k, points)
        vals = A if pt[0] == "A" else B
        if pt[1] == "buf":
            for i in range(n):
                buf[i] = vals[i]
            z = buf
        else:
            z = I.array(vals)
        n0 = ev[0]
        r = flat(getattr(m, op)(z))
        if not any(bool(samept(I, v, vals, range(n))) for v in seen):
            I.true(ev[0] > n0, "likelihood evaluated at a point that was never queried before")
        seen.append(vals)
        l, g = f(vals)
        for x, y in zip(r, answer(op, l, g, 1.0)):
            I.eq(x, y, "slow answer of %s at step %d is that of a fresh posterior" % (op, k), **TOL)


PTS = [("A", "buf"), ("B", "buf"), ("A", "new"), ("B", "new")]


def harnesses(tier):
    Fn = ["model.Posterior.lnprob/lnprob_grad/lnprob_and_grad/nll/nll_nograd (cache)", "model.FastPosterior.evaluate/residuals", "model.SlowPosterior.evaluate"]
    L = 3 if tier == "quick" else 4
    # the last query is the one under test; histories before it range over all operations
    hist = ["lnprob", "lnprob_and_grad", "nll", "residuals"]
    seqs = [s + (o,) for s in itertools.product(hist, repeat=L - 1) for o in OPS + ["residuals"]]
    if tier == "quick":
        seqs = [(a, b, c) for i, (a, b, c) in enumerate(seqs) if not (a == "residuals" and b == "residuals")]
    cs = [dict(seq=s, sampling=bool(i % 2), points=PTS) for i, s in enumerate(seqs)]
    B = "query histories of length %d over {lnprob, lnprob_grad, lnprob_and_grad, nll, nll_nograd, residuals}; two points with symbolic coordinates (equal or not), fresh or in-place modified arrays" % L
    k = dict(functions=Fn, bounds=B, max_paths=4000, validate=1)
    slow = [dict(seq=s, points=PTS) for s in itertools.product(["lnprob", "lnprob_grad", "nll"], repeat=3)]
    return [Harness("history", h_hist, cs, **k), Harness("slow", h_slow, slow, **k)]
