"""C30 PSF mixture fits: EM steps conserve flux and moments; results are in the PSF frame."""
import contextlib
import os
import shutil
import sys
import tempfile
import types

import numpy as np

from vf.harness import Harness
from vf import h5fake
from vf.wcsstub import sub

import forcepho.mixtures.psf_mix_em as EM
import forcepho.mixtures.utils_em as UE
import forcepho.slow.psf as PSF


class Draws:
    """np.random.uniform with draws given by the inputs of the harness"""
    def __init__(self, I):
        self.I, self.n = I, 0

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None:
            raise NotImplementedError("draws of several numbers")
        self.n += 1
        w = high - low
        # inside the range: widths of zero and correlations of one are singular
        return self.I.real("u%d" % self.n, low + 0.125 * w, high - 0.125 * w)


@contextlib.contextmanager
def draws(I):
    d = Draws(I)
    if I.symbolic:
        with sub((EM.np, "random", d)):
            yield d
        return
    old = np.random.uniform
    np.random.uniform = d.uniform
    try:
        yield d
    finally:
        np.random.uniform = old


def image(I, nx, ny):
    v = [[I.real("im%d_%d" % (i, j), 0.125, 4) for j in range(ny)] for i in range(nx)]
    return v, I.array(v)


def moments(v):
    tot = sum(sum(r) for r in v)
    ix = [(i, j, x) for i, r in enumerate(v) for j, x in enumerate(r)]
    m = {}
    for a, b in ((1, 0), (0, 1), (2, 0), (0, 2), (1, 1)):
        m[a, b] = sum([x * float(i ** a * j ** b) for i, j, x in ix if i ** a * j ** b], 0.0) / tot
    return tot, m


def check_moments(I, v, pars, nmix, what, second=True):
    tot, m = moments(v)
    P = [[pars[6 * k + c] for c in range(6)] for k in range(nmix)]
    I.eq(sum([p[0] for p in P], 0.0), 1.0, "amplitudes sum to one", rtol=1e-6)
    for c, a in ((1, (1, 0)), (2, (0, 1))):
        I.eq(sum([p[0] * p[c] for p in P], 0.0), m[a], "mean of the mixture is that of the image (axis %d), %s" % (c - 1, what), rtol=1e-5, atol=1e-6)
    if not second:
        return
    for c, a in ((3, (2, 0)), (4, (0, 2))):
        I.eq(sum([p[0] * (p[c] * p[c] + p[c - 2] * p[c - 2]) for p in P], 0.0), m[a], "width of the mixture is that of the image (axis %d), %s" % (c - 3, what), rtol=1e-5, atol=1e-6)
    I.eq(sum([p[0] * (p[5] * p[3] * p[4] + p[1] * p[2]) for p in P], 0.0), m[1, 1], "correlation of the mixture is that of the image, %s" % what, rtol=1e-5, atol=1e-6)


@contextlib.contextmanager
def densities(I, nmix, nx, ny, free):
    """any positive density of each Gaussian at each pixel, at the start and after the step"""
    calls, D = [], {}

    def pdf(params, x_max, y_max):
        key = len(calls)
        calls.append(params)
        if (x_max, y_max) != (nx, ny):
            raise NotImplementedError("densities of another image")
        k = key % nmix
        t = 0 if key < 2 * nmix else 1          # the likelihood of the start, the weights; then the new Gaussians
        for i in range(nx):
            for j in range(ny):
                if (t, k, i, j) not in D:
                    f = free is None or (k, i, j) in free
                    D[t, k, i, j] = I.real("d%d_%d_%d_%d" % (t, k, i, j), 0.125, 4) if t == 0 and f else float(1 + (2 * i + j + k) % 3)
        return I.array([[D[t, k, i, j] for j in range(ny)] for i in range(nx)])
    with sub((EM, "mvn_pdf_2d", pdf)):
        yield calls
    if len(calls) < 2 * nmix:
        raise NotImplementedError("the densities do not come from mvn_pdf_2d")


def h_step(I, nx, ny, nmix, vals, free=None):
    """one EM step from any start"""
    if vals is None:
        v, im = image(I, nx, ny)
    else:
        v, im = vals, I.array([[float(x) for x in r] for r in vals])
    with draws(I), densities(I, nmix, nx, ny, free):
        out = EM.fit_mvn_mix(im, nmix, "em", "random", dlnlike_thresh=np.inf, repeat=1, returnfull=True, printint=False, printfinal=False)
    I.true(len(out) == 1, "one answer per repeat")
    check_moments(I, v, out[0]["fitted_params"], nmix, "after a step", second=free is not None)


def h_single(I, nx, ny):
    """one Gaussian: the moments of the image, whatever the start"""
    v, im = image(I, nx, ny)
    with draws(I), densities(I, 1, nx, ny, [(0, 0, 0)]):
        out = EM.fit_mvn_mix(im, 1, "em", "random", dlnlike_thresh=np.inf, repeat=1, returnfull=True, printint=False, printfinal=False)
    for o in out:
        check_moments(I, v, o["fitted_params"], 1, "one Gaussian")
    for f in ("mean_params", "cov_params"):
        if not hasattr(EM, f):
            return
    mx, my = EM.mean_params(im)
    sx, sy, rho = EM.cov_params(im)
    for got, k in ((mx, 1), (my, 2), (sx, 3), (sy, 4), (rho, 5)):
        I.eq(out[0]["fitted_params"][k], got, "moment estimates of the start agree with those of the fit", rtol=1e-5, atol=1e-6)


def gauss(I, p, i, j):
    dx, dy = (i - p[1]) / p[3], (j - p[2]) / p[4]
    r = 1.0 - p[5] * p[5]
    return p[0] / (2 * np.pi * p[3] * p[4] * np.sqrt(r)) * np.exp(-0.5 / r * (dx * dx + dy * dy - 2.0 * p[5] * dx * dy))


def params(I, nmix):
    return [[I.real("%s%d" % (c, k), lo, hi) for c, lo, hi in (("amp", 0.125, 2), ("mx", -1, 3), ("my", -1, 3), ("sx", 0.5, 3), ("sy", 0.5, 3), ("rho", -0.5, 0.5))] for k in range(nmix)]


def h_image(I, nx, ny, nmix, where):
    """image of a mixture: each Gaussian at its own place, in image order"""
    P = params(I, nmix)
    mod = EM if where == "em" else PSF
    im = mod.mvn_pdf_2d_mix_fn(nmix, nx, ny)(I.array([x for p in P for x in p]))
    I.true(np.shape(im) == (nx, ny), "image has the requested shape")
    for i in range(nx):
        for j in range(ny):
            I.eq(im[i, j], sum([gauss(I, p, float(i), float(j)) for p in P], 0.0), "pixel value is the sum of the normal densities there", rtol=1e-5, atol=1e-9)


def frame(I, P, got, start, center, over):
    x, y, vx, vy, vxy, amp = got
    for k, p in enumerate(P):
        # first axis of the image is y
        I.eq(x[k], (p[2] + start[1] - center[1]) / over, "x of the center is along the second axis of the image, relative to the center", rtol=1e-5, atol=1e-6)
        I.eq(y[k], (p[1] + start[0] - center[0]) / over, "y of the center is along the first axis of the image, relative to the center", rtol=1e-5, atol=1e-6)
        I.eq(vx[k], p[4] * p[4] / over / over, "variance along x", rtol=1e-5, atol=1e-6)
        I.eq(vy[k], p[3] * p[3] / over / over, "variance along y", rtol=1e-5, atol=1e-6)
        I.eq(vxy[k], p[5] * p[3] * p[4] / over / over, "covariance", rtol=1e-5, atol=1e-6)
        I.eq(amp[k], p[0], "amplitude", rtol=1e-5, atol=1e-6)


def h_frame(I, nmix, over, start, center):
    P = params(I, nmix)
    ans = dict(fitted_params=I.array([x for p in P for x in p]))
    kw = dict(oversample=over, start=np.array(start) if isinstance(start, (list, tuple)) else start,
              center=np.array(center) if isinstance(center, (list, tuple)) else center)
    s2 = [start, start] if np.ndim(start) == 0 else start
    c2 = [center, center] if np.ndim(center) == 0 else center
    frame(I, P, PSF.params_to_gauss(ans, **kw), s2, c2, over)
    psf = PSF.make_psf(ans, **kw)
    frame(I, P, (psf.means[:, 0], psf.means[:, 1], psf.covariances[:, 0, 0], psf.covariances[:, 1, 1], psf.covariances[:, 0, 1], psf.amplitudes), s2, c2, over)
    for k in range(nmix):
        I.eq(psf.covariances[k, 0, 1], psf.covariances[k, 1, 0], "covariance matrices are symmetric")
    I.true(int(psf.n_gauss) == nmix and len(psf.as_tuplelist()) == nmix, "one Gaussian each")
    for k, t in enumerate(psf.as_tuplelist()):
        frame(I, [P[k]], [[t[1]], [t[2]], [t[3]], [t[4]], [t[5]], [t[0]]], s2, c2, over)
    for k, p in enumerate(P):
        I.eq(ans["fitted_params"][6 * k + 1], p[1], "the answer is left as it was")


def h_file(I, shape, width, nmix, nrep, over):
    """psf_mixture: what is cut out, fit, returned and stored"""
    v, im = image(I, *shape)
    reps = [[[I.real("%s%d_%d" % (c, r, k), lo, hi) for c, lo, hi in (("amp", 0.125, 2), ("mx", -1, 3), ("my", -1, 3), ("sx", 0.5, 3), ("sy", 0.5, 3), ("rho", -0.5, 0.5))]
             for k in range(nmix)] for r in range(nrep)]
    lnl = [I.real("ll%d" % r, -9, 0) for r in range(nrep)]
    recon = [I.array([[I.real("rec%d_%d_%d" % (r, i, j), 0, 1) for j in range(2)] for i in range(3)]) for r in range(nrep)]
    seen = []

    def fit(data, num_mix, *a, **k):
        seen.append((data, num_mix, k.get("repeat", 1)))
        return [dict(fitted_params=I.array([x for p in q for x in p]), recon_image=recon[r], final_log_likelihood=lnl[r]) for r, q in enumerate(reps)]
    fs = types.SimpleNamespace(getdata=lambda *a, **k: im, getheader=lambda *a, **k: {})
    old, tmp = os.getcwd(), tempfile.mkdtemp(prefix="vf_c30_")
    try:
        os.chdir(tmp)
        h5 = [(UE, "h5py", h5fake.h5py), (sys.modules, "h5py", h5fake.h5py)] if I.symbolic else []
        if I.symbolic:
            h5fake.FILES.clear()
        with sub((UE, "fits", fs), (UE, "fit_mvn_mix", fit), (UE, "plot_model", lambda *a, **k: None), *h5):
            out = UE.psf_mixture("psf.fits", "F1", nmix, nrepeat=nrep, newstyle=True, width=width, oversample=over)
            import h5py as real
            H = h5fake.h5py if I.symbolic else real
            if len(seen) != 1:
                raise NotImplementedError("fit_mvn_mix is not called once")
            c = [(s - 1) / 2.0 for s in shape]
            lo = [0, 0] if width is None else [int(min(max(x - width, 0), s)) for x, s in zip(c, shape)]
            hi = list(shape) if width is None else [int(min(max(x + width, 0), s)) for x, s in zip(c, shape)]
            cut = [r[lo[1]:hi[1]] for r in v[lo[0]:hi[0]]]
            tot = sum(sum(r) for r in cut)
            data = seen[0][0]
            I.true(seen[0][1] == nmix and seen[0][2] == nrep, "the fit asked for")
            I.true(np.shape(data) == (hi[0] - lo[0], hi[1] - lo[1]), "the central part of the image is fit")
            for i, r in enumerate(cut):
                for j, x in enumerate(r):
                    I.eq(data[i, j], x / tot, "the image is normalised", rtol=1e-5)
            I.eq(out["flux_fraction"], tot / sum(sum(r) for r in v), "fraction of the flux that is fit", rtol=1e-5)
            with H.File("gmpsf_F1_ng%d.h5" % nmix, "r") as f:
                for pars, what in ((out["parameters"], "returned"), (f["parameters"][:], "stored")):
                    I.true(np.shape(pars) == (nrep, nmix), "parameters per repeat and Gaussian are %s" % what)
                    for r in range(nrep):
                        row = pars[r]
                        frame(I, reps[r], [row[n] for n in ("x", "y", "vxx", "vyy", "vxy", "amp")], lo, c, over)
                d2 = f["psf_image"][:]
                I.true(np.shape(d2) == np.shape(data)[::-1] and np.shape(out["data"]) == np.shape(d2), "stored image is in (x, y) order, as the parameters")
                for i, r in enumerate(cut):
                    for j, x in enumerate(r):
                        for dd in (d2, out["data"]):
                            I.eq(dd[j, i], x / tot, "stored image is the one that was fit, in (x, y) order", rtol=1e-5)
                for r in range(nrep):
                    for mm in (out["models"][r], f["models"][:][r]):
                        I.true(np.shape(mm) == (2, 3), "stored models are in (x, y) order")
                        for i in range(3):
                            for j in range(2):
                                I.eq(mm[j, i], recon[r][i, j], "stored model of each repeat, in (x, y) order", rtol=1e-5)
                for r in range(nrep):
                    I.eq(f["lnlike"][:][r], lnl[r], "ln-likelihood of each repeat", rtol=1e-5, atol=1e-6)
                I.true(int(f.attrs["nmix"]) == nmix and int(f.attrs["nrepeat"]) == nrep, "attributes")
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def harnesses(tier):
    q = tier == "quick"
    im = [[1, 3], [2, 1]]
    st = [dict(nx=2, ny=2, nmix=2, vals=im), dict(nx=2, ny=2, nmix=2, vals=im, free=[(0, 0, 0), (0, 1, 1), (1, 0, 1)]),
          dict(nx=2, ny=3, nmix=2, vals=[[1, 3, 2], [2, 5, 1]], free=[(0, 0, 0), (1, 0, 2)]), dict(nx=2, ny=2, nmix=3, vals=im, free=[(0, 0, 0), (2, 1, 1)]),
          dict(nx=3, ny=2, nmix=2, vals=None, free=[])]
    return [Harness("step", h_step, st, timeout_ms=1500, prove_timeout_ms=8000, div_check=False, path_timeout=150, functions=["psf_mix_em.fit_mvn_mix", "normalized"], bounds="images of 2x2-3x3 pixels, 2-3 Gaussians, one step from any start"),
            Harness("single", h_single, [dict(nx=2, ny=2), dict(nx=2, ny=3)], timeout_ms=1500, prove_timeout_ms=8000, div_check=False, path_timeout=150, functions=["psf_mix_em.fit_mvn_mix", "mean_params", "cov_params"], bounds="images of up to 2x3 pixels, 1 Gaussian, one step from any start"),
            Harness("image", h_image, [dict(nx=2, ny=3, nmix=k, where=w) for k in (1, 2) for w in ("em", "slow")], functions=["mvn_pdf_2d_mix_fn", "mvn_pdf_2d", "mvn_pdf"], bounds="2x3 pixels, 1-2 Gaussians"),
            Harness("frame", h_frame, [dict(nmix=m, over=o, start=s, center=c) for m, o, s, c in ((1, 8, 0, 104), (2, 4, 0, 10.5), (2, 1, [2, 5], [7.5, 9.0]), (3, 8, [0, 0], [3.5, 3.5]))],
                    functions=["params_to_gauss", "make_psf", "PointSpreadFunction"], bounds="1-3 Gaussians"),
            Harness("file", h_file, [dict(shape=s, width=w, nmix=m, nrep=r, over=o) for s, w, m, r, o in (((4, 4), None, 2, 2, 4), ((4, 6), None, 1, 1, 2), ((6, 4), 1.5, 2, 1, 1), ((5, 5), 2, 1, 2, 8))],
                    functions=["utils_em.psf_mixture", "params_to_gauss"], bounds="images of up to 6x6, 1-2 Gaussians, 1-2 repeats")]


ASSUMPTIONS = ["images are positive; starting widths are not zero and correlations not one",
               "the fit itself, plotting and HDF5 are replaced by stand-ins in the psf_mixture harness"]
