"""C05 posterior = likelihood + prior (+ volume element); gradient ordering and chain rule.

Real FastPosterior, Scene, Galaxy and CPUProposer; the kernel behind
CPUProposer answers with arbitrary (symbolic) chi2 and derivatives."""
import numpy as np

from vf.harness import Harness
from vf import fmodel as F

import forcepho.model as M
import forcepho.sources as FS
from forcepho.patches.patch import Patch, PatchBase
from forcepho.patches.device_patch import CPUPatchMixin


class P(CPUPatchMixin, Patch):
    def __init__(self):
        PatchBase.__init__(self, return_residual=False)

    def __del__(self):
        pass


BANDS = ["F1", "F2", "F3"]


def make_patch(I, nb, ns, npix=2):
    import contextlib
    with (I.eng.patches.suspended() if I.symbolic else contextlib.nullcontext()):
        p = P()
        p.build_patch(npix=npix * nb, n_sources=ns, n_radii=1, n_bands=nb, n_exp=nb)
        p.n_bands = nb
        p.bandlist = BANDS[:nb]
        for b in range(nb):
            p.band_start[b] = b
            p.band_N[b] = 1
            p.exposure_start[b] = b * npix
            p.exposure_N[b] = npix
        p.device_patch = np.uintp(4096)
    return p


def make_scene(I, nb, ns):
    g = [F.galaxy(BANDS[:nb], I.farray([1.0, 2.0]), F.concrete_splines(2), cls=F.FlatGalaxy) for _ in range(ns)]
    sc = FS.Scene(g)
    return sc


def prior(I, n):
    a = I.reals("pr_a", n, -2, 2)
    b = I.reals("pr_b", n, -2, 2)

    def fn(q):
        l = 0.0
        g = []
        for i in range(n):
            l = l + a[i] * q[i] + b[i] * q[i] * q[i]
            g.append(a[i] + 2 * b[i] * q[i])
        return l, I.array(g)
    return fn


def setup(I, nb, ns, tr, sampling, pr, resid=False):
    nd = ns * (nb + 6)
    z = I.reals("z", nd, -3, 3)
    patch = make_patch(I, nb, ns)
    patch.return_residual = resid
    scene = make_scene(I, nb, ns)
    resp = {}

    def respond(call, band, props):
        k = call // nb
        chi = I.real("chi_%d_%d" % (k, band), -10, 10)
        d = {(s, j): I.real("d_%d_%d_%d_%d" % (k, band, s, j), -5, 5) for s in range(ns) for j in range(7)}
        resp[k, band] = (chi, d)
        return chi, d
    kern = F.Kernel(I, patch, respond)
    prop = F.make_proposer(kern)
    kw = {}
    if tr == "bounded":
        lo = I.reals("lo", nd, -4, 4)
        hi = lo + I.reals("w", nd, 0.0625, 8)
        kw = dict(lower=lo, upper=hi)
        T = M.BoundedTransform(lo, hi)
    else:
        T = M.Transform(nd)
        kw = dict(transform=T)
    fn = prior(I, nd) if pr else None
    if not (sampling and pr):       # the volume term is part of the probability unless switched off
        kw["sampling"] = sampling
    m = M.FastPosterior(prop, patch, scene=scene, lnprior=fn, **kw)
    return nd, z, patch, scene, kern, T, fn, m, resp


def expected(I, nb, ns, z, T, fn, sampling, resp, k=0):
    nd = ns * (nb + 6)
    q = T.transform(z)
    J = T.jacobian(z)
    ll = 0.0
    for b in range(nb):
        ll = ll - 0.5 * resp[k, b][0]
    pr, prg = fn(q) if fn else (0.0, [0.0] * nd)
    lnp = ll + pr + (T.lndetjac(z) if sampling else 0.0)
    lg = T.lndetjac_grad(z)
    g = []
    for s in range(ns):
        for i in range(nb + 6):
            if i < nb:
                x = resp[k, i][1][s, 0]
            else:
                x = 0.0
                for b in range(nb):
                    x = x + resp[k, b][1][s, i - nb + 1]
            j = s * (nb + 6) + i
            g.append((-0.5 * x + prg[j]) * J[j] + (lg[j] if sampling else 0.0))
    return q, lnp, g


TOL = dict(rtol=1e-5, atol=1e-5)


def h_fast(I, nb, ns, tr, sampling, pr):
    nd, z, patch, scene, kern, T, fn, m, resp = setup(I, nb, ns, tr, sampling, pr)
    ndof = I.real("ndof", 1, 64)
    m.ndof = ndof
    lnp, g = m.lnprob_and_grad(z)
    q, e_lnp, e_g = expected(I, nb, ns, z, T, fn, sampling, resp)
    I.true(len(kern.log) == nb, "one kernel launch per band")
    I.true(sorted(b for b, _ in kern.log) == list(range(nb)), "every band evaluated once")
    for b, props in kern.log:
        for s in range(ns):
            o = s * (nb + 6)
            for i in range(nb):
                I.eq(props[s]["fluxes"][i], q[o + i], "proposed flux is the transformed parameter", **TOL)
            for i, k in enumerate(F.PN):
                I.eq(props[s][k], q[o + nb + i], "proposed %s is the transformed parameter" % k, **TOL)
    I.eq(lnp, e_lnp, "lnprob = -chi2/2 + prior + volume", **TOL)
    I.true(np.shape(g) == (nd,), "one gradient entry per parameter")
    for j in range(nd):
        I.eq(g[j], e_g[j], "gradient entry for parameter %d" % j, **TOL)
    I.eq(m.lnprob(z), e_lnp, "lnprob", **TOL)
    I.eq(m.lnprob_grad(z), I.array(e_g), "lnprob_grad", **TOL)
    a, b = m.nll(z)
    I.eq(a, -e_lnp / ndof, "nll = -lnp/ndof", **TOL)
    for j in range(nd):
        I.eq(b[j], -e_g[j] / ndof, "nll gradient = -grad/ndof", **TOL)
    I.eq(m.nll_nograd(z), -e_lnp / ndof, "nll_nograd = -lnp/ndof", **TOL)
    # theano wrappers
    op = M.LogLikeWithGrad(m)
    out = [[None]]
    op.perform(None, [z], out)
    I.eq(out[0][0], e_lnp, "theano op gives the ln-probability", **TOL)
    out = [[None]]
    op.GradObj.perform(None, [z], out)
    I.eq(out[0][0], I.array(e_g), "theano gradient op gives the gradient", **TOL)


def h_resid(I, nb, ns):
    """residual request at q: kernel gets q, residuals returned are the patch's, split by exposure, toggle restored"""
    nd, z, patch, scene, kern, T, fn, m, resp = setup(I, nb, ns, "ident", True, False)
    npix = 2 * nb
    patch.residual = I.reals("res", npix, -3, 3)
    q = I.reals("q", nd, -3, 3)
    out = m.residuals(q)
    I.true(len(out) == nb, "one residual array per exposure")
    for b in range(nb):
        I.eq(out[b], patch.residual[2 * b:2 * b + 2], "residuals split by exposure")
    I.true(patch.return_residual is False, "residual switch restored")
    for b, props in kern.log:
        for s in range(ns):
            o = s * (nb + 6)
            for i in range(nb):
                I.eq(props[s]["fluxes"][i], q[o + i], "residuals evaluated at the queried fluxes", **TOL)
            for i, k in enumerate(F.PN):
                I.eq(props[s][k], q[o + nb + i], "residuals evaluated at the queried %s" % k, **TOL)
    flat = m.residuals(q, unpack=False)
    I.eq(flat, patch.residual, "flat residuals")


def h_slow(I, n, pr, tr):
    z = I.reals("z", n, -3, 3)
    c = I.reals("c", n, -2, 2)
    d = I.reals("d", n, -2, 2)

    def lnlike(q, scene=None, plans=None, **kw):
        l, g = 0.0, []
        for i in range(n):
            l = l + c[i] * q[i] + d[i] * q[i] * q[i]
            g.append(c[i] + 2 * d[i] * q[i])
        return l, I.array(g)
    if tr == "bounded":
        lo = I.reals("lo", n, -4, 4)
        T = M.BoundedTransform(lo, lo + I.reals("w", n, 0.0625, 8))
    elif tr == "ident":
        T = M.Transform(n)
    else:
        T = None
    fn = prior(I, n) if pr else None
    m = M.SlowPosterior(scene=object(), plans=[object()], lnlike=lnlike, lnprior=fn, transform=T)
    lnp, g = m.lnprob_and_grad(z)
    q = T.transform(z) if T else z
    J = T.jacobian(z) if T else [1.0] * n
    lg = T.lndetjac_grad(z) if T else [0.0] * n
    ll, llg = lnlike(q)
    p, pg = fn(q) if fn else (0.0, [0.0] * n)
    I.eq(lnp, ll + p + (T.lndetjac(z) if T else 0.0), "slow lnprob", **TOL)
    for j in range(n):
        I.eq(g[j], (llg[j] + pg[j]) * J[j] + lg[j], "slow gradient", **TOL)
    seen = {}
    m.lnlike = lambda q, scene=None, plans=None, **kw: (seen.update(scene=scene, plans=plans), lnlike(q))[1]
    scene, plans = m.scene, m.plans
    m.lnprob(z + 1)
    I.true(seen.get("scene") is scene and seen.get("plans") is plans, "the likelihood is that of the given scene and plans")
    m.lnlike = lnlike
    lnp, g = m.lnprob_and_grad(z)
    if T is None or tr == "ident":
        # everything is quadratic: central differences are exact
        an, num = m.check_grad(z, delta=0.25)
        for j in range(n):
            I.eq(an[j], g[j], "check_grad: analytic gradient at the point", **TOL)
            I.eq(num[j], g[j], "check_grad: numerical gradient at the point", **TOL)
    a, b = m.nll(z)
    I.eq(a * m.ndof, -lnp, "slow nll", **TOL)
    I.eq(b * m.ndof, -g, "slow nll gradient", **TOL)


def h_grad(I, nb, ns, sampling):
    """end to end: gradient is d lnprob / dz when the kernel response is chi2(q) with its own derivatives"""
    nd = ns * (nb + 6)
    z = I.reals("z", nd, -2, 2)
    patch = make_patch(I, nb, ns)
    scene = make_scene(I, nb, ns)
    co = {(b, s, j): I.real("co_%d_%d_%d" % (b, s, j), -1, 1) for b in range(nb) for s in range(ns) for j in range(7)}

    def respond(call, band, props):
        chi, d = 0.0, {}
        for s in range(ns):
            x = [props[s]["fluxes"][band]] + [props[s][k] for k in F.PN]
            for j in range(7):
                chi = chi + co[band, s, j] * x[j] * x[j]
                d[s, j] = 2 * co[band, s, j] * x[j]
        return chi, d
    kern = F.Kernel(I, patch, respond)
    fn = prior(I, nd)
    lo = I.reals("lo", nd, -2, 2)
    m = M.FastPosterior(F.make_proposer(kern), patch, scene=scene, lnprior=fn, sampling=sampling,
                        lower=lo, upper=lo + I.reals("w", nd, 0.25, 2))
    g = m.lnprob_grad(z)
    if I.symbolic:
        lnp = m.lnprob(z)
        for j in range(nd):
            I.eq(g[j], I.d(lnp, z[j]), "lnprob_grad is d lnprob / dz")
    else:
        g = np.array(g)
        for j in range(nd):
            # float32 proposals: wide steps
            d = I.derivative(lambda x: float(m.lnprob(x)), z, j, h=5e-2)
            I.eq(g[j], d, "lnprob_grad is d lnprob / dz", rtol=1e-2, atol=1e-2)


def harnesses(tier):
    Fn = ["model.FastPosterior.__init__/evaluate/stack_grad/residuals", "model.Posterior.lnprob/lnprob_grad/lnprob_and_grad/nll/nll_nograd/make_transform/lnprior",
          "model.SlowPosterior.evaluate", "proposal.CPUProposer.evaluate_proposal", "sources.Scene.set_all_source_params/get_proposal"]
    cs = [dict(nb=nb, ns=ns, tr=tr, sampling=sa, pr=pr)
          for (nb, ns) in ([(1, 1), (2, 2), (3, 1), (1, 3)] if tier == "quick" else [(1, 1), (2, 2), (3, 2), (1, 3), (3, 3), (2, 4)])
          for tr in ("bounded", "ident") for sa in (True, False) for pr in (True, False)]
    B = "sources<=3 (thorough 4), bands<=3; z in [-3,3], bounds, prior, chi2 and derivatives symbolic"
    k = dict(functions=Fn, bounds=B)
    return [Harness("fast", h_fast, cs, **k),
            Harness("residuals", h_resid, [dict(nb=2, ns=1), dict(nb=3, ns=2)], **k),
            Harness("slow", h_slow, [dict(n=n, pr=p, tr=t) for n in (1, 3) for p in (True, False) for t in ("bounded", "ident", None)], **k),
            Harness("gradient", h_grad, [dict(nb=1, ns=1, sampling=s) for s in (True, False)] + [dict(nb=2, ns=1, sampling=True)], **k)]
