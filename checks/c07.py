"""C07 bounded parameter transform."""
from vf.harness import Harness
import numpy as np
import forcepho.model as M



def _setup(I, n):
    lo = I.reals("lo", n, -4, 4)
    w = I.reals("w", n, 0.0009765625, 8)
    hi = lo + w
    z = I.reals("z", n, -14, 14)
    T = M.BoundedTransform(lo, hi)
    return lo, hi, z, T


def h_range(I, n=2):
    lo, hi, z, T = _setup(I, n)
    q = T.transform(z)
    I.lt(lo, q, "transformed value is above the lower bound", atol=0)
    I.lt(q, hi, "transformed value is below the upper bound", atol=0)


def h_jac(I, n=2):
    lo, hi, z, T = _setup(I, n)
    J = T.jacobian(z)
    lg = T.lndetjac_grad(z)
    I.true(len(J) == n, "one jacobian entry per parameter")
    for i in range(n):
        for j in range(n):
            d = I.derivative(lambda x: T.transform(x)[i], z, j)
            I.eq(J[i] if i == j else 0.0, d, "jacobian entry is d q_%d / d z_%d" % (i, j), rtol=1e-5, atol=1e-7)
    for j in range(n):
        d = I.derivative(lambda x: T.lndetjac(x), z, j)
        I.eq(lg[j], d, "lndetjac_grad is the gradient of lndetjac", rtol=1e-4, atol=1e-6)
    p = 1.0
    for i in range(n):
        p = p * J[i]
    I.eq(np.exp(T.lndetjac(z)), p, "lndetjac is ln |det J|", rtol=1e-5, atol=1e-12)
    I.lt(0.0, p, "det J is positive", atol=0)


def h_inv(I, n=2):
    lo, hi, z, T = _setup(I, n)
    q = T.transform(z)
    zz = T.inverse_transform(q)
    # compare through exp, which is injective
    I.eq(np.exp(-zz), np.exp(-z), "inverse_transform undoes transform", rtol=1e-5, atol=1e-9)
    f = I.reals("f", n, 2.0**-20, 1 - 2.0**-20)
    p = lo + f * (hi - lo)
    I.eq(T.transform(T.inverse_transform(p)), p, "transform undoes inverse_transform", rtol=1e-6, atol=1e-8)


def h_ident(I, n=2):
    z = I.reals("z", n, -6, 6)
    T = M.Transform(n)
    I.eq(T.transform(z), z, "identity transform")
    I.eq(T.inverse_transform(z), z, "identity inverse")
    I.eq(T.lndetjac(z), 0.0, "identity has unit volume element")
    for j in range(n):
        I.eq(T.jacobian(z)[j], I.derivative(lambda x: T.transform(x)[j], z, j), "identity jacobian", rtol=1e-6, atol=1e-8)
        I.eq(T.lndetjac_grad(z)[j], 0.0, "identity lndetjac grad")


def h_reflect(I, n=2):
    """ConstrainedTransformedPosterior.check_constrained: positions bounce off the constraints."""
    post = M.ConstrainedTransformedPosterior.__new__(M.ConstrainedTransformedPosterior)
    lo = I.reals("lo", n, -2, 2)
    w = I.reals("w", n, 0.5, 4)
    hi = lo + w
    post.lower, post.upper = lo, hi
    f = I.reals("f", n, -1.9375, 2.9375)
    x = lo + f * w
    q, sign, oob = post.check_constrained(np.array(x) if not I.symbolic else x.copy())
    I.true(np.logical_not(oob), "no parameter is reported out of bounds after reflection")
    I.le(lo, q, "reflected position is not below the lower bound", atol=1e-9)
    I.le(q, hi, "reflected position is not above the upper bound", atol=1e-9)
    for i in range(n):
        fi = f[i]
        r = np.where(fi < -1, fi + 2, np.where(fi < 0, -fi, np.where(fi <= 1, fi, np.where(fi <= 2, 2 - fi, fi - 2))))
        s = np.where((fi < -1) | ((fi >= 0) & (fi <= 1)) | (fi > 2), 1.0, -1.0)
        I.eq(q[i], lo[i] + r * w[i], "position is the mirror image of the trajectory")
        if not I.symbolic and min(abs(fi - k) for k in (-1, 0, 1, 2)) < 1e-9:
            continue
        I.eq(sign[i], s, "momentum sign flips once per reflection")


def harnesses(tier):
    F = ["model.BoundedTransform.transform/jacobian/lndetjac/lndetjac_grad/inverse_transform", "model.sigmoid/logit/sigmoid_grad"]
    ns = [dict(n=1), dict(n=2), dict(n=3)] if tier == "quick" else [dict(n=k) for k in (1, 2, 3, 4, 5)]
    B = "n<=%d parameters, lower in [-4,4], width in [2^-10,8], z in [-14,14] symbolic, inverse at fractions [2^-20, 1-2^-20] of the range" % len(ns)
    k = dict(functions=F, bounds=B)
    return [Harness("range", h_range, ns, **k), Harness("jacobian", h_jac, ns, **k),
            Harness("inverse", h_inv, ns, **k), Harness("identity", h_ident, ns, **k),
            Harness("reflect", h_reflect, ns[:2], functions=["model.ConstrainedTransformedPosterior.check_constrained"],
                    bounds="n<=2, trajectories up to two widths outside the bounds (two reflections)")]
