"""C19 linear flux solution is the weighted least-squares optimum."""
import numpy as np

from vf.harness import Harness
from vf import device as D

import forcepho.fitting as FT

TOL = dict(rtol=1e-5, atol=1e-5)


def chi2(X, w, y, fx, f):
    """sum_p w^2 (y - fx - sum_s f_s X_sp)^2"""
    c = 0.0
    for p in range(len(w)):
        r = y[p] - fx[p]
        for s in range(len(f)):
            r = r - f[s] * X[s][p]
        c = c + (w[p] * r) * (w[p] * r)
    return c


def normal(X, w, y, fx, f, s):
    """-1/2 d chi2 / d f_s"""
    c = 0.0
    for p in range(len(w)):
        r = y[p] - fx[p]
        for t in range(len(f)):
            r = r - f[t] * X[t][p]
        c = c + w[p] * w[p] * r * X[s][p]
    return c


def det(M):
    if len(M) == 1:
        return M[0][0]
    if len(M) == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return sum((-1) ** j * M[0][j] * det([[M[i][k] for k in range(len(M)) if k != j] for i in range(1, len(M))]) for j in range(len(M)))


def h_one(I, ns, npx, fix, free):
    """free: which inputs are symbolic (X, w, y)"""
    xs = [[I.real("X%d_%d" % (s, p), -2, 2) if "X" in free else float((3 * s + 2 * p + s * p * p) % 5 - 1.5) for p in range(npx)] for s in range(ns)]
    w = [I.real("w%d" % p, 0, 3) if "w" in free else 0.5 + 0.25 * p for p in range(npx)]
    if "z" in free:
        w[1] = 0.0
    y = [I.real("y%d" % p, -5, 5) for p in range(npx)]
    fx = [I.real("f%d" % p, -5, 5) for p in range(npx)] if fix else [0.0] * npx
    ATA = [[sum(w[p] * w[p] * xs[s][p] * xs[t][p] for p in range(npx)) for t in range(ns)] for s in range(ns)]
    I.assume(det(ATA) >= 0.25)
    X, W, Y = I.array(xs), I.array(w), I.array(y)
    keep = [[v for v in y], [v for v in w]]
    flux, prec = FT.optimize_one_band(X, W, Y, fixedX=I.array(fx)) if fix else FT.optimize_one_band(X, W, Y)
    f = list(np.reshape(flux, -1))
    I.true(len(f) == ns and np.shape(prec) == (ns, ns), "one flux per source and a square precision matrix")
    for s in range(ns):
        I.eq(normal(xs, w, y, fx, f, s), 0.0, "the gradient of chi2 vanishes at the solution", rtol=1e-4, atol=1e-4)
        for t in range(ns):
            I.eq(prec[s, t], ATA[s][t], "the precision matrix is half the second derivative of chi2", **TOL)
    for p in range(npx):
        I.eq(Y[p], keep[0][p], "the data are left alone")
        I.eq(W[p], keep[1][p], "the weights are left alone")


def h_patch(I, dev, exps, bands, npsf, nfix, nact, retall, symw):
    """fluxes of every band of a patch, after subtracting fixed sources"""
    with D.psfstore(I, bands, npsf) as name:
        w = D.World(I, dev, exps, bands, npsf, name, sym_ierr=symw)
        with w.running():
            w.build()
            p = w.p
            fixed = D.catalog(I, nfix, bands, "f", 0) if nfix else None
            active = D.catalog(I, nact, bands, "a", 40)
            model, q = p.prepare_model(active=active, fixed=fixed, maxactive=1)
            data = w.data_minus([fixed[i] for i in range(nfix)] if nfix else [])
            off, start = {}, 0
            for e, b, m in w.order:
                off[e] = start
                start += m
            prob = []
            for b in w.used:
                px = [(e, k) for e, bb, m in w.order if bb == b for k in range(m)]
                xs = [[w.model(active[s], e, k, unit=True) for e, k in px] for s in range(nact)]
                ww = [w.pix[e]["ierr"][k] for e, k in px]
                yy = [data[off[e] + k] for e, k in px]
                ATA = [[sum(ww[i] * ww[i] * xs[s][i] * xs[t][i] for i in range(len(px))) for t in range(nact)] for s in range(nact)]
                if symw:
                    I.assume(det(ATA) >= 0.25)
                prob.append((xs, ww, yy, ATA))
            r = FT.optimize_fluxes(p, active, **(dict(return_all=True) if retall else {}))
            I.true(len(r) == (5 if retall else 2), "fluxes and precisions (and what they were made from)")
            fluxes, precs = r[0], r[1]
            I.true(len(fluxes) == len(w.used) and len(precs) == len(w.used), "one solution per band, in band order")
            for b, (xs, ww, yy, ATA) in enumerate(prob):
                f = list(fluxes[b])
                I.true(len(f) == nact, "one flux per source")
                for s in range(nact):
                    I.eq(normal(xs, ww, yy, [0.0] * len(yy), f, s), 0.0, "the gradient of chi2 vanishes at the solution, in every band", rtol=1e-3, atol=1e-3)
                    for t in range(nact):
                        I.eq(precs[b][s, t], ATA[s][t], "the precision matrix is that of the band", rtol=1e-4, atol=1e-4)
            if retall:
                Xes, ys, ws = r[2:]
                for b, (xs, ww, yy, ATA) in enumerate(prob):
                    I.true(np.shape(Xes[b]) == (nact, len(yy)) and len(ys[b]) == len(yy) and len(ws[b]) == len(yy), "design matrix, data and weights of the band")
                    for i in range(len(yy)):
                        I.eq(ys[b][i], yy[i], "the data have the fixed sources subtracted", **D_TOL)
                        I.eq(ws[b][i], ww[i], "the weights of the band", **D_TOL)
                        for s in range(nact):
                            I.eq(Xes[b][s, i], xs[s][i], "the design matrix is the model of each source at unit flux", **D_TOL)
            # the image data on the device are as before
            for g, v in zip(p.retrieve_array("data"), data):
                I.eq(g, v, "solving leaves the subtracted data alone", **D_TOL)


D_TOL = dict(rtol=1e-5, atol=2e-4)


def h_singular(I, ns):
    """no solution is reported for a degenerate band"""
    y = I.reals("y", 2, -5, 5)

    class P:
        bandlist = ["A", "B"]

        def design_matrix(self, active):
            return [np.array([[1.0, 2.0], [0.5, 0.0]]), np.zeros((2, 2))], [y, y]

        def split_band(self, attr):
            return [np.array([1.0, 0.5])] * 2
    r = FT.optimize_fluxes(P(), [0, 1])
    I.true(len(r) == 5 and r[0] == 1 and isinstance(r[1], np.linalg.LinAlgError), "the degenerate band is named")


def harnesses(tier):
    q = tier == "quick"
    one = [dict(ns=1, npx=2, fix=f, free="Xwy") for f in (0, 1)] + [dict(ns=1, npx=3, fix=1, free="Xzy"), dict(ns=2, npx=3, fix=0, free="wy"), dict(ns=2, npx=3, fix=1, free="Xy"),
                                                                     dict(ns=2, npx=2, fix=0, free="Xwy"), dict(ns=3, npx=4, fix=0, free="wy"), dict(ns=2, npx=4, fix=1, free="zy")]
    if not q:
        one += [dict(ns=2, npx=3, fix=0, free="Xwy"), dict(ns=3, npx=4, fix=0, free="wy"), dict(ns=3, npx=5, fix=1, free="wzy")]
    L1 = dict(exps=[("e1", "A", 3)], bands=["A"], npsf=[2])
    L2 = dict(exps=[("e2", "B", 2), ("e1", "A", 3), ("e3", "B", 2)], bands=["A", "B"], npsf=[1, 3])
    L3 = dict(exps=[("e2", "C", 3), ("e1", "A", 2)], bands=["A", "B", "C"], npsf=[2, 1, 1])
    L4 = dict(exps=[("e2", "C", 2), ("e1", "A", 3), ("e3", "B", 2)], bands=["A", "B", "C"], npsf=[1, 2, 1])
    pat = [dict(L4, dev="cpu", nfix=1, nact=1, retall=0, symw=1), dict(L4, dev="cpu", nfix=0, nact=2, retall=1, symw=0)]
    pat += [dict(L, dev=d, nfix=nf, nact=na, retall=r, symw=s) for L in (L1, L2, L3) for d in ("cpu", "gpu")
           for nf, na, r, s in ((0, 1, 1, 1), (1, 2, 1, 0), (2, 2, 0, 0)) if not (q and d == "gpu" and L is L3)]
    kw = dict(stubs=D.STUBS, validate=1)
    return [
        Harness("one_band", h_one, one, functions=["optimize_one_band"], bounds="1-3 sources, 2-5 pixels, any weights (also zero) and data, determinant >= 1/4", **kw),
        Harness("patch", h_patch, pat, functions=["optimize_fluxes", "DevicePatchMixin.design_matrix", "split_band"], bounds="1-2 sources in 1-3 bands, 2-7 pixels, symbolic data and catalog fluxes", **kw),
        Harness("singular", h_singular, [dict(ns=2)], functions=["optimize_fluxes"], bounds="one degenerate band", **kw),
    ]
