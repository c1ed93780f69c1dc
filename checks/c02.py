"""C02 compiled gradients are exact derivatives of the compiled chi2."""
from vf.harness import Harness
from vf import kernel as K
from vf import kprob
from checks.c01 import ASSUMPTIONS as A1

ASSUMPTIONS = A1 + ["the derivative is taken with every exponent argument on a fixed side of the cutoff"]


def h_grad(I, bands, nsrc, nrad, npsf, bins=None, far=(), fixed=(), pars=None):
    kp = kprob.KP(I, bands, nsrc, nrad, npsf, bins=bins, fixed=fixed)
    far = {tuple(x) for x in far}
    if I.symbolic:
        I.c.raw = True
        I.sampler = kp.sampler
        sp = kp.spec(far)
        kp.set_oracle(sp, far)
        grads = {}
        for b in range(kp.nb):
            for s in range(nsrc):
                for j in range(7):
                    grads[b, s, j] = kp.gradient(sp, b, s, j)
    chi, der, res = kp.evaluate()
    I.true(tuple(der.shape) == (kp.nb, nsrc, 7), "derivative array is [band, source, parameter]")
    for b in range(kp.nb):
        if I.symbolic:
            sp["cuts"].equal(chi[b], sp["chi2"][b], "chi2 of band %d" % b)
        for s in range(nsrc):
            for j in range(7):
                lab = "d chi2[band %d] / d %s of source %d" % (b, kprob.PAR[j], s)
                if I.symbolic:
                    sp["cuts"].equal(der[b, s, j], grads[b, s, j], lab)
                else:
                    g, sc = kp.num_gradient(b, s, j), kp.grad_scale(b, s, j)
                    I.eq(der[b, s, j], g, lab, rtol=1e-3, atol=1e-3 * sc + 1e-12)


def harnesses(tier):
    K.prepare()
    cases = [
        dict(bands=[[1]], nsrc=1, nrad=1, npsf=[1]),
        dict(bands=[[2]], nsrc=1, nrad=1, npsf=[1]),
        dict(bands=[[1]], nsrc=1, nrad=2, npsf=[2], bins={0: [1, 0]}),
        dict(bands=[[1]], nsrc=2, nrad=1, npsf=[1]),
        dict(bands=[[1, 1]], nsrc=2, nrad=1, npsf=[1]),
        dict(bands=[[1], [1]], nsrc=2, nrad=2, npsf=[1, 1], bins={0: [1], 1: [0]}),
        dict(bands=[[1]], nsrc=1, nrad=2, npsf=[2], far=[(0, 0, 1)]),
        dict(bands=[[1]], nsrc=2, nrad=1, npsf=[1], far=[(0, 0, 0)]),
    ]
    if tier == "thorough":
        cases += [
            dict(bands=[[2, 1], [1]], nsrc=3, nrad=2, npsf=[2, 2], bins={0: [1, 0], 1: [1, 1]}),
            dict(bands=[[2]], nsrc=2, nrad=3, npsf=[3], bins={0: [2, 0, 1]}),
            dict(bands=[[1], [], [1, 1]], nsrc=2, nrad=2, npsf=[1, 1, 2], bins={0: [0], 1: [1], 2: [0, 1]}),
        ]
    return [Harness("gradient", h_grad, cases, div_check=False, path_timeout=600, timeout_ms=1500, prove_timeout_ms=2000, validate=2,
                    functions=["EvaluateProposal", "ComputeGaussianDerivative", "GetGaussianAndJacobian", "ConvolveOneSource",
                               "matrix22 derivative operators", "CPUProposer.evaluate_proposal"],
                    bounds="up to 3 bands, 2 exposures/band, 2 pixels/exposure, %d sources, 3 radii, 3 PSF Gaussians; all values symbolic within %s" %
                           (3 if tier == "thorough" else 2, kprob.RANGES), time_budget=600)]
