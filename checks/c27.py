"""C27 fitting drivers hand the posterior to the algorithms and bring answers back."""
import argparse
import types

import numpy as np

from vf.harness import Harness
from vf import scenes as Z
from vf import symnp
from vf.wcsstub import sub

import dynesty
import littlemcmc
import littlemcmc.sampling
import scipy.linalg
import scipy.optimize

import forcepho.fitting as FT
import forcepho.priors as PR
import forcepho.superscene as SS
import forcepho.tasks as TK

SH = ["ra", "dec", "q", "pa", "sersic", "rhalf"]


class Affine:
    """a transform q = a z + b with known inverse"""

    def __init__(self, I, n, lower=None, upper=None):
        self.a = I.array([I.real("ta%d" % i, 0.5, 2) for i in range(n)])
        self.b = I.array([I.real("tb%d" % i, -2, 2) for i in range(n)])
        self.lower, self.upper = lower, upper

    def transform(self, z):
        return self.a * z + self.b

    def inverse_transform(self, q):
        return (q - self.b) / self.a


class Model:
    """posterior whose answers are linear in z with symbolic coefficients"""

    def __init__(self, I, n, transform):
        self.transform = transform
        self.ndof = I.real("ndof", 1, 50)
        self.c = I.array([I.real("mc%d" % i, -2, 2) for i in range(n)])
        self.c0 = I.real("mc_0", -2, 2)
        self.ncall = 17
        self.sampling = True
        self._lnpriorfn = None

    def lnp(self, z):
        s = self.c0
        for i in range(len(self.c)):
            s = s + self.c[i] * z[i]
        return s

    def lnprob(self, z):
        return self.lnp(z)

    def lnprob_grad(self, z):
        return self.c.copy()

    def lnprob_and_grad(self, z):
        return self.lnp(z), self.c.copy()

    def nll(self, z):
        return -self.lnp(z) / self.ndof, -self.c / self.ndof

    def nll_nograd(self, z):
        return -self.lnp(z) / self.ndof


def need(rec, what):
    if not rec:
        raise NotImplementedError("the stand-in for %s was not used" % what)


def objective_is(I, m, fun, jac, z, n, what):
    """the objective handed over is minus the ln-probability / ndof, with its gradient"""
    out = fun(z)
    if jac is True:
        val, g = out
    elif callable(jac):
        val, g = out, jac(z)
    else:
        val, g = out, None
    I.eq(val, -m.lnp(z) / m.ndof, "%s minimizes the negative ln-probability" % what)
    if g is not None:
        for i in range(n):
            I.eq(g[i], -m.c[i] / m.ndof, "%s gets the gradient of its objective" % what)
    return g


def h_opt(I, n, which, jac, tr):
    t = Affine(I, n) if tr else None
    m = Model(I, n, t)
    q0 = [I.real("q%d" % i, -2, 2) for i in range(n)]
    q = I.array(q0)
    rec = []
    ans = I.array([I.real("x%d" % i, -3, 3) for i in range(n)])
    ans0 = [ans[i] for i in range(n)]
    fun = I.real("fun", -5, 5)
    sci = types.SimpleNamespace(x=ans, fun=fun, jac="jacobian", message="converged", success=True, nit=3, nfev=4)

    def minimize(f, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
        rec.append(dict(f=f, x0=[x0[i] for i in range(n)], method=method, jac=jac, bounds=bounds, callback=callback, options=dict(options or {})))
        x0 += 1.0      # the optimizer may scribble on its start
        return sci

    def cb(x):
        pass
    drv = {"opt": FT.run_opt, "bounded": FT.run_opt_bounded}[which]
    with sub((scipy.optimize, "minimize", minimize), (FT, "minimize", minimize)):
        res, scires = drv(m, q, jac=jac, callback=cb, gtol=0.125)
    need(rec, "scipy.optimize.minimize")
    I.true(len(rec) == 1, "one optimization")
    r = rec[0]
    for i in range(n):
        w = (q0[i] - t.b[i]) / t.a[i] if tr else q0[i]
        I.eq(r["x0"][i], w, "the optimizer starts at the inverse transform of the given position")
        I.eq(q[i], q0[i], "the given position is not modified")
        I.eq(res.starting_position[i], q0[i], "the starting position is recorded")
        w = t.a[i] * ans0[i] + t.b[i] if tr else ans0[i]
        I.eq(res.chain[-1][i], w, "the result is the transform of the optimum")
    z = I.array([I.real("z%d" % i, -3, 3) for i in range(n)])
    g = objective_is(I, m, r["f"], r["jac"], z, n, which)
    I.true((g is not None) == bool(jac), "gradients are used when requested")
    I.true(len(res.chain) == 1 and len(res.chain[0]) == n, "one row, one column per parameter")
    I.true(res.ndim == n, "number of dimensions")
    I.eq(res.lnp, -fun * m.ndof, "the reported ln-probability is that of the optimum")
    I.eq(res.fun, fun, "the objective value is reported")
    I.true(res.message == "converged" and scires is sci, "the optimizer's own result is returned")
    I.true(r["callback"] is cb, "the callback is passed on")
    I.true(r["options"].get("gtol") == 0.125, "options are passed on")


class Rec:
    def __init__(self):
        self.c = []

    def mk(self, name, ret=None):
        def f(*a, **k):
            self.c.append((name, a, k))
            return ret(*a, **k) if callable(ret) else ret
        return f

    def of(self, name):
        return [x for x in self.c if x[0] == name]


class Pot:
    def __init__(self, kind, n, mean, cov, weight):
        self.kind, self.n, self.mean, self.cov, self.weight = kind, n, mean, cov, weight


def full_adapt(n, initial_mean, initial_cov=None, initial_weight=0, *a, **k):
    return Pot("full", n, initial_mean, initial_cov, initial_weight)


def diag_adapt(n, initial_mean, initial_diag=None, initial_weight=0, *a, **k):
    return Pot("diag", n, initial_mean, initial_diag, initial_weight)


def chol(fails):
    left = [fails]

    def cholesky(a, lower=False, **k):
        if left[0] > 0:
            left[0] -= 1
            raise np.linalg.LinAlgError("not positive definite")
        return a
    return cholesky


def pot_subs(fails):
    c = chol(fails)
    return [(littlemcmc, "QuadPotentialFullAdapt", full_adapt), (littlemcmc, "QuadPotentialDiagAdapt", diag_adapt),
            (FT, "QuadPotentialFullAdapt", full_adapt), (FT, "QuadPotentialDiagAdapt", diag_adapt),
            (scipy.linalg, "cholesky", c), (FT, "cholesky", c)]


def check_pot(I, p, n, full, cov, mean, weight, extra=0.0):
    if not isinstance(p, Pot):
        raise NotImplementedError("the stand-ins for the potentials were not used")
    I.true(p.n == n and p.kind == ("full" if full else "diag"), "kind and size of the mass matrix")
    I.true(p.weight == weight, "weight of the initial mass matrix")
    for i in range(n):
        I.eq(p.mean[i], mean[i], "initial mean of the mass matrix")
        if full:
            for j in range(n):
                I.eq(p.cov[i][j], cov[i][j] + (extra if i == j else 0.0), "initial mass matrix is the given covariance")
        else:
            I.eq(p.cov[i], cov[i][i] + extra, "initial mass matrix is the diagonal of the given covariance")


def h_pot(I, n, full, src, fails):
    mean = I.array([I.real("mu%d" % i, -2, 2) for i in range(n)])
    kw = dict(init_mean=mean)
    mu = [mean[i] for i in range(n)]
    if src == "cov":
        c0 = [[I.real("c%d%d" % (min(i, j), max(i, j)), -2, 2) for j in range(n)] for i in range(n)]
        c = I.array(c0)
        kw["init_cov"] = c
    elif src == "trace":
        nt = 3
        tr = [[I.real("t%d_%d" % (i, t), -2, 2) for t in range(nt)] for i in range(n)]
        kw["trace"] = I.array(tr)
        mu = [(tr[i][0] + tr[i][1] + tr[i][2]) / 3.0 for i in range(n)]
        c0 = [[sum([(tr[i][t] - mu[i]) * (tr[j][t] - mu[j]) for t in range(1, nt)], (tr[i][0] - mu[i]) * (tr[j][0] - mu[j])) / 2.0
               for j in range(n)] for i in range(n)]
    else:
        c0 = [[float(i == j) for j in range(n)] for i in range(n)]
    reg = I.real("reg", 0.001, 0.5)
    with sub(*pot_subs(fails)):
        p = FT.get_pot(n, full=full, weight=13, regular_variance=reg, **kw)
    check_pot(I, p, n, full, c0, mu, 13, extra=fails * reg)
    if src == "cov":
        for i in range(n):
            for j in range(n):
                I.eq(c[i][j], c0[i][j], "the given covariance is not modified")


def h_lmc(I, n, tr, full, cov, draws):
    t = Affine(I, n) if tr else None
    m = Model(I, n, t)
    q0 = [I.real("q%d" % i, -2, 2) for i in range(n)]
    q = I.array(q0)
    rec = Rec()
    tv = [[I.real("s%d_%d" % (i, k), -3, 3) for k in range(draws)] for i in range(n)]
    trace = I.array(tv)
    stats = [dict(model_logp=0.0)] * draws
    step = types.SimpleNamespace(name="step")
    kw = {}
    c0 = [[float(i == j) for j in range(n)] for i in range(n)]
    if cov:
        c0 = [[I.real("c%d%d" % (min(i, j), max(i, j)), -2, 2) for j in range(n)] for i in range(n)]
        kw["z_cov"] = I.array(c0)
    NUTS = rec.mk("nuts", lambda *a, **k: step)
    smp = rec.mk("sample", lambda *a, **k: (trace, stats))
    with sub((littlemcmc, "NUTS", NUTS), (FT, "NUTS", NUTS), (littlemcmc.sampling, "_sample", smp), (FT, "sample_one", smp), *pot_subs(0)):
        res, st, sta = FT.run_lmc(m, q, draws, full=full, weight=21, warmup=[7], max_treedepth=5, discard_tuned_samples=False,
                                  random_seed=99, **kw)
    need(rec.of("nuts") and rec.of("sample"), "littlemcmc")
    I.true(len(rec.of("nuts")) == 1 and len(rec.of("sample")) == 1, "one sampling run")
    nk, sk = rec.of("nuts")[0][2], rec.of("sample")[0][2]
    if "logp_dlogp_func" not in nk or "potential" not in nk or "start" not in sk or "logp_dlogp_func" not in sk:
        raise NotImplementedError("littlemcmc is called with positional arguments")
    z = I.array([I.real("z%d" % i, -3, 3) for i in range(n)])
    for f in (nk["logp_dlogp_func"], sk["logp_dlogp_func"]):
        v, g = f(z)
        I.eq(v, m.lnp(z), "the sampler works on the posterior's ln-probability")
        for i in range(n):
            I.eq(g[i], m.c[i], "the sampler gets the posterior's gradient")
    start = [(q0[i] - t.b[i]) / t.a[i] if tr else q0[i] for i in range(n)]
    for i in range(n):
        I.eq(sk["start"][i], start[i], "sampling starts at the inverse transform of the given position")
        I.eq(res.starting_position[i], q0[i], "the starting position is recorded")
        I.eq(q[i], q0[i], "the given position is not modified")
        for k in range(draws):
            I.eq(res.chain[k][i], t.a[i] * tv[i][k] + t.b[i] if tr else tv[i][k], "row k of the chain is the transform of draw k")
    check_pot(I, nk["potential"], n, full, c0, start, 21)
    I.true(sk["step"] is step and st is step and sta is stats, "the stepper used and its statistics are returned")
    I.true(sk["draws"] == draws and sk["tune"] == 7 and sk["discard_tuned_samples"] is False and sk["random_seed"] == 99, "draws and warmup as requested")
    I.true(nk["max_treedepth"] == 5 and nk["model_ndim"] == n and sk["model_ndim"] == n, "tree depth and dimensions as requested")
    I.true(res.ndim == n and res.n_call == 17 and len(res.chain) == draws, "bookkeeping")


def h_dynesty(I, n):
    m = Model(I, n, None)
    lo = I.array([I.real("lo%d" % i, -3, -1) for i in range(n)])
    hi = I.array([I.real("hi%d" % i, 1, 3) for i in range(n)])
    samples = I.array([[I.real("s%d_%d" % (k, i), -3, 3) for i in range(n)] for k in range(2)])
    logl = I.array([I.real("l%d" % k, -3, 3) for k in range(2)])
    rec = []

    class Sampler:
        def __init__(self, loglikelihood, prior_transform, ndim=None, npdim=None, **k):
            rec.append((loglikelihood, prior_transform, ndim))
            self.results = dict(samples=samples, logl=logl)

        def run_nested(self, **k):
            pass
    with sub((dynesty, "DynamicNestedSampler", Sampler), (FT, "DynamicNestedSampler", Sampler)):
        res, d = FT.run_dynesty(m, I.array([0.0] * n), lower=lo, upper=hi, nlive=10)
    need(rec, "dynesty")
    f, pt, nd = rec[0]
    u = I.array([I.real("u%d" % i, 0, 1) for i in range(n)])
    th = pt(u)
    for i in range(n):
        I.eq(th[i], lo[i] + u[i] * (hi[i] - lo[i]), "the prior is uniform between the bounds")
        for k in range(2):
            I.eq(res.chain[k][i], samples[k, i], "the chain is the sampler's")
    for k in range(2):
        I.eq(res.lnp[k], logl[k], "ln-likelihoods are the sampler's")
    I.eq(f(u), m.lnp(u), "the sampler works on the posterior's ln-probability")
    I.true(nd == n and res.ndim == n, "dimensions")


# --- tasks --------------------------------------------------------------------

class Log:
    def info(self, *a, **k):
        pass


def the_scene(I, n, bands):
    act = I.zeros(n, SS.sourcecat_dtype(bands=list(bands)))
    for i in range(n):
        act["id"][i] = 100 + i
        act["source_index"][i] = 9 - i
        act["n_iter"][i] = 30 * (i + 1)
        for f in list(bands) + SH:
            act[f][i] = I.real("a_%s_%d" % (f, i), 0.5, 4)
    dt = np.dtype([("source_index", np.int32)] + [(c, np.float64, (2,)) for c in list(bands) + SH])
    b = I.zeros(n, dt)
    for i in range(n):
        for f in list(bands) + SH:
            b[f][i, 0] = I.real("lo_%s_%d" % (f, i), -5, 0)
            b[f][i, 1] = I.real("hi_%s_%d" % (f, i), 5, 9)
    fixed = I.zeros(1, SS.sourcecat_dtype(bands=list(bands)))
    return types.SimpleNamespace(tag="region"), act, fixed, b


class Patcher:
    def __init__(self, I, model, q, bands, ref, n):
        self.model, self.q = model, q
        self.bandlist = list(bands)
        self.patch_reference_coordinates = ref
        self.calls = []
        self.scene = types.SimpleNamespace(get_all_source_params=lambda: q.copy())
        self.I, self.n = I, n

    def build_patch(self, region, *a, **k):
        self.calls.append(("build", region, k))

    def prepare_model(self, active=None, fixed=None, bounds=None, **k):
        self.calls.append(("prepare", active, fixed, bounds))
        return self.model, self.q

    def set_scene(self, *a, **k):
        self.calls.append(("set_scene",) + a)


def h_optimize(I, n, bands, barriers, linear):
    npar = len(bands) + 6
    region, act, fixed, bounds = the_scene(I, n, bands)
    orig = {f: [act[f][i] for i in range(n)] for f in act.dtype.names}
    b0 = {(f, i, e): bounds[f][i, e] for f in list(bands) + SH for i in range(n) for e in range(2)}
    lo = I.array([I.real("tl%d" % i, -3, -1) for i in range(n * npar)])
    hi = I.array([I.real("th%d" % i, 1, 3) for i in range(n * npar)])
    t = Affine(I, n * npar, lo, hi)
    m = Model(I, n * npar, t)
    q = I.array([I.real("q%d" % i, -2, 2) for i in range(n * npar)])
    ref = I.array([I.real("ra0", 0, 360), I.real("dec0", -90, 90)])
    pat = Patcher(I, m, q, bands, ref, n)
    best = [I.real("x%d" % i, -3, 3) for i in range(n * npar)]
    seen = {}

    def run_opt(model, q, jac=True, **k):
        seen.update(model=model, q=q, jac=jac, sampling=model.sampling, prior=model._lnpriorfn, kw=k)
        return types.SimpleNamespace(chain=I.array([best])), "scires"
    fl = [[I.real("fl_%s_%d" % (b, i), 0.25, 8) for i in range(n)] for b in bands]
    prec = [[[I.real("pr_%s_%d" % (b, i), 0.25, 4) if i == j else 0.0 for j in range(n)] for i in range(n)] for b in bands]

    def optimize_fluxes(patcher, active, return_all=False):
        seen["lin"] = {f: [active[f][i] for i in range(n)] for f in active.dtype.names}
        out = [I.array(f) for f in fl], [I.array(p) for p in prec]
        return out + ([], [], []) if return_all else out

    def uniform(lower, upper, size=None):
        seen["u"] = [I.real("u%d" % i, 0, 1) for i in range(n * npar)]
        return lower + I.array(seen["u"]) * (upper - lower)
    conf = types.SimpleNamespace(bands=list(bands), add_barriers=barriers, gtol=0.25, linear_optimize=linear, flux_prior_expansion=3.0)
    real = np.random.uniform
    if I.symbolic:
        Z.DRAW["uniform"] = uniform
    else:
        np.random.uniform = uniform
    pad = argparse.Namespace()
    try:
        class Barrier:
            def __init__(self, lower, upper, *a, **k):
                self.lower, self.upper = lower, upper
        with sub((TK, "run_opt", run_opt), (TK, "optimize_fluxes", optimize_fluxes), (PR, "ExpBeta", Barrier), (TK, "ExpBeta", Barrier)):
            (out, step, stats), (reg, cat, fx, bd), model = TK.optimize(pat, (region, act, fixed, bounds), conf, Log(), scratchpad=pad)
    finally:
        np.random.uniform = real
        Z.DRAW.clear()
    need(seen.get("q") is not None, "run_opt")
    prep = [c for c in pat.calls if c[0] == "prepare"]
    I.true(len(prep) == 1 and prep[0][1] is act and prep[0][2] is fixed and prep[0][3] is bounds, "the model is prepared for this scene")
    I.true(pat.calls[0][0] == "build" and pat.calls[0][1] is region, "the patch is built for this region")
    I.true(seen["model"] is m and model is m, "the prepared model is optimized and returned")
    I.true(seen["sampling"] is False and m.sampling is True, "the volume term is off only during the optimization")
    I.true((seen["prior"] is not None) == barriers and m._lnpriorfn is None, "barriers are there only during the optimization")
    if barriers and type(seen["prior"]).__name__ == "Barrier":
        p = seen["prior"]
        for i in range(n * npar):
            I.eq(p.lower[i], lo[i], "barrier at the lower bounds")
            I.eq(p.upper[i], hi[i], "barrier at the upper bounds")
    I.true(seen["kw"].get("gtol") == 0.25 and seen["jac"] is True, "tolerance and gradients are passed on")
    for i in range(n * npar):
        I.le(lo[i], seen["q"][i], "the start is within the bounds")
        I.le(seen["q"][i], hi[i], "the start is within the bounds")
        I.eq(pad.q_initial[i], q[i], "the initial position is recorded")
        I.eq(pad.q_postop[i], best[i], "the optimum is recorded")
    off = {"ra": ref[0], "dec": ref[1]}
    I.true(len(cat) == n and reg is region and fx is fixed, "the scene is handed back")
    for i in range(n):
        for f in act.dtype.names:
            w = orig[f][i]
            if f in bands:
                w = best[i * npar + list(bands).index(f)]
            elif f in SH:
                w = best[i * npar + len(bands) + SH.index(f)] + off.get(f, 0.0)
            if linear and f in bands:
                I.eq(seen["lin"][f][i], w, "linear fluxes are conditional on the optimum")
                w = fl[list(bands).index(f)][i]
            I.eq(cat[f][i], w, "returned catalog column %s is the optimum" % f)
    for i in range(n):
        for f in list(bands) + SH:
            if linear and f in bands:
                I.lt(bd[f][i, 0], cat[f][i], "new flux bounds bracket the linear flux")
                I.lt(cat[f][i], bd[f][i, 1], "new flux bounds bracket the linear flux")
                want = SS.flux_bounds(I.array(fl[list(bands).index(f)]), 3.0, precisions=I.array(prec[list(bands).index(f)]))
                for e in range(2):
                    I.eq(bd[f][i, e], want[e][i], "new flux bounds are those of this band's precision matrix")
            else:
                for e in range(2):
                    I.eq(bd[f][i, e], b0[f, i, e], "other bounds are unchanged")


def h_sample(I, n, bands, cov, niter):
    npar = len(bands) + 6
    region, act, fixed, bounds = the_scene(I, n, bands)
    for i in range(n):
        act["n_iter"][i] = niter[i]
    m = Model(I, n * npar, None)
    qv = [I.real("q%d" % i, -2, 2) for i in range(n * npar)]
    q = I.array(qv)
    pat = Patcher(I, m, q, bands, I.array([0.0, 0.0]), n)
    seen = {}

    def run_lmc(model, q, **k):
        seen.update(model=model, q=q, **k)
        return "out", "step", "stats"
    conf = types.SimpleNamespace(bands=list(bands), sampling_draws=11, warmup=[5], max_treedepth=4, progressbar=False)
    c0 = [[I.real("c%d" % i, 0.5, 2) if i == j else 0.25 for j in range(n * npar)] for i in range(n * npar)]
    kw = dict(cov=I.array(c0)) if cov else {}
    with sub((TK, "run_lmc", run_lmc)):
        out, scene, model = TK.sample(pat, (region, act, fixed, bounds), conf, Log(), scratchpad=argparse.Namespace(), **kw)
    need(seen.get("q") is not None and "z_cov" in seen, "run_lmc")
    prep = [c for c in pat.calls if c[0] == "prepare"]
    I.true(len(prep) == 1 and prep[0][1] is act and prep[0][2] is fixed and prep[0][3] is bounds, "the model is prepared for this scene")
    I.true(pat.calls[0][0] == "build" and pat.calls[0][1] is region, "the patch is rebuilt for this region")
    I.true(seen["model"] is m and model is m and out == ("out", "step", "stats"), "the prepared model is sampled and returned")
    I.true(scene[0] is region and scene[1] is act and scene[2] is fixed and scene[3] is bounds, "the scene is handed back")
    I.true(seen["n_draws"] == 11 and list(seen["warmup"]) == [5] and seen["max_treedepth"] == 4 and seen["full"] is True, "configured draws, warmup and depth")
    I.true(seen["discard_tuned_samples"] is False, "warmup samples are kept")
    I.true(int(seen["weight"]) == max(10, min(niter)), "weight of the mass matrix follows the least iterated source")
    for i in range(n * npar):
        I.eq(seen["q"][i], qv[i], "sampling starts at the model's starting position")
        for j in range(n * npar):
            I.eq(seen["z_cov"][i][j], c0[i][j] if cov else float(i == j), "the given covariance is the mass matrix")


def harnesses(tier):
    ns = (1, 2, 3) if tier == "quick" else (1, 2, 3, 5)
    cb = "up to %d parameters; positions, answers, transform and posterior coefficients symbolic" % ns[-1]
    opt = [dict(n=n, which=w, jac=j, tr=t) for n in ns for w in ("opt", "bounded") for j in (True, False) for t in (True, False)]
    pot = [dict(n=n, full=f, src=s, fails=k) for n in ns for f in (True, False) for s in ("cov", "none", "trace") for k in (0, 1, 3)
           if not (s == "trace" and n == 1)]
    lmc = [dict(n=n, tr=t, full=f, cov=c, draws=d) for n, d in zip(ns, (3, 2, 2, 2)) for t in (True, False) for f in (True, False) for c in (True, False)]
    tk = [dict(n=n, bands=b, barriers=x, linear=l) for n, b in ((1, ["F1"]), (2, ["F2", "F1"])) for x in (True, False) for l in (True, False)]
    tk += [dict(n=1, bands=["F2", "F1"], barriers=False, linear=True), dict(n=1, bands=["F1", "F3", "F2"], barriers=True, linear=True)]
    if tier != "quick":
        tk += [dict(n=3, bands=["F2", "F1", "F3"], barriers=True, linear=True)]
    sm = [dict(n=n, bands=b, cov=c, niter=it) for n, b, it in ((1, ["F1"], [4]), (2, ["F2", "F1"], [300, 60]), (2, ["F1"], [0, 80])) for c in (True, False)]
    k = dict(validate=1)
    return [Harness("optimizer", h_opt, opt, functions=["fitting.run_opt", "fitting.run_opt_bounded"], bounds=cb, **k),
            Harness("potential", h_pot, pot, functions=["fitting.get_pot"], bounds="up to %d dimensions; covariance, trace of 3 samples, regularisation symbolic" % ns[-1], **k),
            Harness("sampler", h_lmc, lmc, functions=["fitting.run_lmc", "fitting.get_pot"], bounds=cb, **k),
            Harness("nested", h_dynesty, [dict(n=n) for n in ns], functions=["fitting.run_dynesty"], bounds=cb, **k),
            Harness("optimize_task", h_optimize, tk, functions=["tasks.optimize", "utils.chain.make_chaincat/get_sample_cat", "superscene.flux_bounds"],
                    bounds="1-2 (3 in thorough) sources, 1-3 bands, options enumerated; all values symbolic", np_overrides={"random": Z.NPO["random"]}, **k),
            Harness("sample_task", h_sample, sm, functions=["tasks.sample"], bounds="1-2 sources, 1-2 bands", **k)]


ASSUMPTIONS = ["scipy.optimize.minimize, littlemcmc and dynesty are stand-ins that record what they are given and return symbolic answers; "
               "whether they converge is not claimed"]
