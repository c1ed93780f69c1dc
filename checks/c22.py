"""C22 priors: the returned gradient is the derivative of the returned ln-probability."""
import numpy as np

from vf.harness import Harness

import forcepho.priors as P


def bounds(I, n, lims):
    if lims == "sym":
        lo = [I.real("lo%d" % i, -50, 50) for i in range(n)]
        hi = [a + I.real("range%d" % i, 0.001, 100) for i, a in enumerate(lo)]
        return lo, hi
    return [float(lims[0]) - i for i in range(n)], [float(lims[1]) + 2 * i for i in range(n)]


def h_expbeta(I, n, lims, alpha, scalar):
    lo, hi = bounds(I, n, lims)
    q = [I.real("q%d" % i, -60, 60) for i in range(n)]
    margin = 0.0 if I.symbolic else 1e-3
    for a, b, x in zip(lo, hi, q):
        I.assume(x > a + margin * (b - a))
        I.assume(x < b - margin * (b - a))
    kw = {} if alpha is None else dict(alpha=alpha)
    if scalar:
        pr = P.ExpBeta(lo[0], hi[0], **kw)
    else:
        pr = P.ExpBeta(I.array(lo), I.array(hi), **kw)

    def f(xs):
        return pr(xs[0] if scalar else I.array(list(xs)))[0]

    lnp, g = pr(q[0] if scalar else I.array(q))
    I.true(np.ndim(lnp) == 0, "one ln-probability per parameter vector")
    I.true(np.shape(g) == (() if scalar else (n,)), "one gradient entry per parameter")
    I.true(lnp < 0, "barrier is a penalty everywhere inside the bounds")
    for i in range(n):
        gi = g if scalar else g[i]
        # step of the finite difference used in replay, well inside the bounds
        d = I.derivative(f, q, i) if I.symbolic else I.derivative(f, q, i, h=1e-5 * (hi[i] - lo[i]))
        I.eq(gi, d, "gradient is the derivative of the ln-probability", rtol=1e-4, atol=1e-4)
    if alpha is None or alpha < 0:
        for i in range(n):
            gi = g if scalar else g[i]
            I.true((2 * q[i] >= lo[i] + hi[i]) | (gi >= 0), "the barrier pushes away from the lower bound")
            I.true((2 * q[i] <= lo[i] + hi[i]) | (gi <= 0), "the barrier pushes away from the upper bound")
    mir = [a + b - x for a, b, x in zip(lo, hi, q)]
    l2, g2 = pr(mir[0] if scalar else I.array(mir))
    I.eq(l2, lnp, "barrier is symmetric about the middle of the bounds", rtol=1e-6, atol=1e-9)
    for i in range(n):
        I.eq(g2 if scalar else g2[i], -(g if scalar else g[i]), "gradient is antisymmetric", rtol=1e-6, atol=1e-6)


def h_additive(I, n, alpha):
    lo, hi = bounds(I, n, (0, 4))
    q = [I.real("q%d" % i, -60, 60) for i in range(n)]
    for a, b, x in zip(lo, hi, q):
        I.assume(x > a)
        I.assume(x < b)
    tot = 0.0
    for i in range(n):
        l1, g1 = P.ExpBeta(lo[i], hi[i], alpha=alpha)(q[i])
        x = (q[i] - lo[i]) / (hi[i] - lo[i])
        I.eq(l1, -(x * (1 - x)) ** alpha, "ln-probability is minus the beta-shaped penalty", rtol=1e-7)
        tot = tot + l1
    l, g = P.ExpBeta(I.array(lo), I.array(hi), alpha=alpha)(I.array(q))
    I.eq(l, tot, "ln-probability is the sum over parameters", rtol=1e-7)


def h_flat(I, n):
    lo, hi = bounds(I, n, "sym")
    q = [I.real("q%d" % i, -60, 60) for i in range(n)]
    for mk in (lambda: P.LogPrior(I.array(lo), I.array(hi)), lambda: P.LogPrior()):
        l, g = mk()(I.array(q))
        I.eq(l, 0.0, "default prior is flat")
        for i in range(n):
            I.eq(g[i], 0.0, "default prior has no gradient")


def h_alpha(I):
    a = I.real("alpha", -3, 3)
    ok = True
    try:
        P.ExpBeta(0.0, 1.0, alpha=a)
    except AssertionError:
        ok = False
    I.true((a > -1) if ok else (a <= -1), "exponents of -1 or less are refused, others accepted")


FN = ("LogPrior.__call__", "LogPrior._scale", "ExpBeta._lnprior", "ExpBeta._lnprior_grad")


def harnesses(tier):
    th = tier == "thorough"
    lims = [(0, 1), (10, 30), (-2, 2)]
    cs = [dict(n=n, lims=l, alpha=None, scalar=False) for n in ((1, 2, 3) if th else (1, 2)) for l in lims]
    cs += [dict(n=1, lims=l, alpha=None, scalar=True) for l in lims]
    cs += [dict(n=1, lims=(0, 2), alpha=a, scalar=False) for a in ((-0.1, -0.3, -0.7, 0.3) if th else (-0.3,))]
    al = (-0.3, 1, 2) if not th else (-0.3, -0.9, 1, 2, 3)
    cs += [dict(n=n, lims="sym", alpha=a, scalar=False) for a in al for n in (1, 2)]
    return [
        Harness("expbeta", h_expbeta, cs, functions=FN, bounds="1-2 parameters (3 thorough), symbolic values and (or) bounds, listed exponents"),
        Harness("additive", h_additive, [dict(n=3, alpha=-0.3), dict(n=2, alpha=-0.9)], functions=FN, bounds="2-3 parameters"),
        Harness("flat", h_flat, [dict(n=2)], functions=FN, bounds="2 parameters, symbolic bounds"),
        Harness("alpha", h_alpha, [{}], functions=("ExpBeta.__init__",), bounds="any exponent in [-3, 3]"),
    ]


ASSUMPTIONS = ["real arithmetic; x**a for fractional a is characterised by positivity, the product rule and the power rule of differentiation"]
