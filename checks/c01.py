"""C01 compiled likelihood equals the documented forward model."""
from vf.harness import Harness
from vf import kernel as K
from vf import kprob
from vf import sym as S

ASSUMPTIONS = [
    "q and the convolved covariance determinant are nonzero",
    "float32/float64 arithmetic is modelled by the reals; 32-bit literals within 1 ulp of simple multiples of pi or small fractions stand for those"]


def h_model(I, bands, nsrc, nrad, npsf, bins=None, far=(), fixed=()):
    kp = kprob.KP(I, bands, nsrc, nrad, npsf, bins=bins, fixed=fixed)
    far = {tuple(x) for x in far}
    if I.symbolic:
        I.c.raw = True
        I.sampler = kp.sampler
        sp = kp.spec(far)
        kp.set_oracle(sp, far)
    chi, der, res = kp.evaluate()
    if I.symbolic:
        C = sp["cuts"]
        I.true(len(res) == kp.npix, "one residual per pixel")
        for p in range(kp.npix):
            C.equal(res[p], sp["res"][p], "residual of pixel %d is data minus model" % p)
        for b in range(kp.nb):
            C.equal(chi[b], sp["chi2"][b], "chi2 of band %d" % b)
    else:
        sp = kp.spec()
        for p in range(kp.npix):
            I.eq(res[p], sp["res"][p], "residual of pixel %d is data minus model" % p, rtol=0, atol=5e-4 * sp["psc"][p] + 1e-30)
        for b in range(kp.nb):
            I.eq(chi[b], sp["chi2"][b], "chi2 of band %d" % b, rtol=0, atol=1e-3 * sp["scale"][b] + 1e-30)


def harnesses(tier):
    K.prepare()
    cases = [
        dict(bands=[[1]], nsrc=1, nrad=1, npsf=[1]),
        dict(bands=[[2]], nsrc=1, nrad=2, npsf=[2], bins={0: [1, 0]}),
        dict(bands=[[1, 1]], nsrc=2, nrad=1, npsf=[1]),
        dict(bands=[[1], [1]], nsrc=2, nrad=2, npsf=[2, 1], bins={0: [1, 0], 1: [1]}),
        dict(bands=[[1], [], [2, 1]], nsrc=2, nrad=2, npsf=[1, 1, 2], bins={0: [0], 1: [1], 2: [0, 1]}),
        dict(bands=[[2]], nsrc=2, nrad=1, npsf=[1], far=[(0, 1, 0)]),
        dict(bands=[[1]], nsrc=1, nrad=2, npsf=[2], far=[(0, 0, 1)]),
        dict(bands=[[1]], nsrc=1, nrad=1, npsf=[1], far=[(0, 0, 0)]),
        dict(bands=[[1]], nsrc=2, nrad=2, npsf=[2], far=[(0, 0, 0)]),
        dict(bands=[[1], [1]], nsrc=2, nrad=2, npsf=[1, 2], bins={0: [1], 1: [1, 0]}),
    ]
    if tier == "thorough":
        cases += [
            dict(bands=[[2, 1], [1, 2]], nsrc=3, nrad=3, npsf=[3, 2], bins={0: [2, 0, 1], 1: [1, 2]}),
            dict(bands=[[1, 1, 1], [1], [1, 1]], nsrc=2, nrad=2, npsf=[2, 2, 2]),
            dict(bands=[[3]], nsrc=4, nrad=2, npsf=[3], bins={0: [1, 1, 0]}),
            dict(bands=[[2], [1]], nsrc=2, nrad=2, npsf=[2, 2], far=[(0, 0, 0), (0, 1, 1), (2, 1, 0)]),
        ]
    return [Harness("forward_model", h_model, cases, div_check=False, path_timeout=600, timeout_ms=1500, prove_timeout_ms=2000, validate=2,
                    functions=["EvaluateProposal", "CreateImageGaussians", "ConvolveOneSource", "GetGaussianAndJacobian",
                               "ComputeResidualImage", "matrix22 operators", "CPUProposer.evaluate_proposal",
                               "CPUPatchMixin.send_to_device", "Patch._pack_psf"],
                    bounds="up to %d bands, 2-3 exposures/band, 3 pixels/exposure, %d sources, 3 radii, 3 PSF Gaussians; all values symbolic within %s" %
                           (3, 4 if tier == "thorough" else 2, kprob.RANGES), time_budget=400)]
