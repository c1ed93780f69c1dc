"""C09 check-in writes exactly the checked-in rows and undoes the checkout."""
import itertools

import numpy as np

from vf.harness import Harness
from vf import scenes as Z
from vf import skystub

import forcepho.superscene as SS

NB = 2
NP = NB + 6


def scene(I, n, kind="circ", pos=None):
    cat = Z.catalog(I, n, sym_flux=False, rh=(0.1, 0.1))
    if pos:
        for i in range(n):
            cat["ra"][i] = Z.RA0 + pos[i] / 3600.0
    kw = dict(sourcecat=cat, bands=Z.BANDS, maxactive_per_patch=5)
    if kind == "linked":
        return SS.LinkedSuperScene(roi=I.farray([0.5] * n), **kw)
    return SS.SuperScene(**kw)


def h_checkin(I, n, act, fix, niter, cov, bounds, kind, shared=()):
    """shared: rows fixed here that are at the same time active in another region"""
    s = scene(I, n, kind, pos=[0.0, 1.0, 30.0, 31.0, 60.0, 61.0, 62.0, 90.0, 91.0][:n])
    other = [i for i in range(n) if i not in act and i not in fix]
    for i in range(n):
        s.sourcecat["is_active"][i] = int(i in act or i in shared)
        s.sourcecat["is_valid"][i] = int(i not in act and i not in fix)
        s.sourcecat["n_iter"][i] = 10 * i + 3
        s.sourcecat["n_patch"][i] = i + 2
    # an unrelated region is outstanding as well
    if other:
        s.sourcecat["is_active"][other[-1]] = 1
        s.sourcecat["is_valid"][other[-1]] = 0
    s.n_active = len(act) + bool(other) + len(shared) + 2
    s.n_fixed = len(fix) + 3
    covs0 = [[[I.real("c0_%d_%d" % (i, j), -1, 1) if k == j else 0.0 for k in range(NP)] for j in range(NP)] for i in range(n)]
    for i in range(n):
        for j in range(NP):
            for k in range(NP):
                s.covariance_matrices[i, j, k] = covs0[i][j][k]
    before, b0 = Z.snapshot(s), Z.bsnapshot(s)
    new = s.sourcecat[list(act)]
    fixed = s.sourcecat[list(fix)] if fix else None
    cols = list(Z.BANDS) + ["ra", "dec", "q", "pa", "sersic", "rhalf"]
    for k in range(len(act)):
        for c in cols:
            new[c][k] = I.real("new_%s_%d" % (c, k), -3, 3)
        new["n_iter"][k] = 77
        new["is_valid"][k] = 0
    want = {(c, i): new[c][k] for c in cols for k, i in enumerate(act)}
    kw = {}
    if cov:
        bc = I.array([[[I.real("cov_%d_%d_%d" % (a, j, k), -2, 2) if abs(j - k) < 2 else 0.0 for k in range(NP)] for j in range(NP)] for a in range(len(act))])
        kw["block_covs"] = bc
        cw = [[[bc[a, j, k] for k in range(NP)] for j in range(NP)] for a in range(len(act))]
    if bounds:
        nbd = s.bounds_catalog[list(act)]
        for k in range(len(act)):
            for c in cols:
                nbd[c][k, 0] = I.real("blo_%s_%d" % (c, k), -2, 0)
                nbd[c][k, 1] = I.real("bhi_%s_%d" % (c, k), 1, 2)
        kw["new_bounds"] = nbd
        bw = {(c, i): [nbd[c][k, 0], nbd[c][k, 1]] for c in cols for k, i in enumerate(act)}
    if niter is not None:
        kw["niter"] = niter
    s.checkin_region(new, fixed, taskID=5, **kw)
    ni = 1 if niter is None else niter
    after, b1 = Z.snapshot(s), Z.bsnapshot(s)
    for i in range(n):
        ina, inf = i in act, i in fix
        for f in before:
            if f == "_n":
                continue
            w = before[f][i]
            if ina and f in cols:
                w = want[f, i]
            elif ina and f == "n_iter":
                w = w + ni
            elif ina and f == "n_patch":
                w = w + (1 if ni > 0 else 0)
            elif ina and f == "is_active":
                w = 0
            elif i in shared and f == "is_valid":
                continue                    # both regions have a say in this one
            elif (ina or inf) and f == "is_valid":
                w = 1
            I.eq(after[f][i], w, "row %s column %s after check-in" % ("checked in" if ina else "other", f))
        for f in s.bounds_catalog.dtype.names:
            w = b0[f, i]
            if ina and bounds and f in cols:
                w = bw[f, i]
            for a, b in zip(b1[f, i], w):
                I.eq(a, b, "bounds of %s" % ("checked in source" if ina else "other source"))
        for j in range(NP):
            for k in range(NP):
                w = cw[act.index(i)][j][k] if (ina and cov) else covs0[i][j][k]
                I.eq(s.covariance_matrices[i, j, k], w, "covariance of %s" % ("checked in source" if ina else "other source"))
    I.true(after["_n"][0] == before["_n"][0] - len(act), "active counter")
    I.true(after["_n"][1] == before["_n"][1] - len(fix), "fixed counter")
    for i in act:
        I.true([str(x) for x in s.sourcelog.get(i, [])] == ["5"], "source log")
    I.true(all(i in act for i in s.sourcelog), "source log only for checked-in sources")
    # the master keeps its own copy
    for c in cols:
        new[c][0] = -9.0
    for c in cols:
        I.eq(s.sourcecat[c][act[0]], want[c, act[0]], "master catalog does not alias the checked-in rows")


def h_undo(I, kind, order):
    """two disjoint regions checked out, then checked in in either order"""
    n = 4
    s = scene(I, n, kind, pos=[0.0, 1.0, 30.0, 31.0])
    before = Z.snapshot(s)
    outs = [s.checkout_region(seed_index=0), s.checkout_region(seed_index=3)]
    I.true(all(o[1] is not None for o in outs), "separate regions can both be checked out")
    newv = {}
    for o in outs:
        for k, i in enumerate(Z.int_list(o[1])):
            v = I.real("nf_%d" % i, 0.5, 4)
            o[1]["F2"][k] = v
            newv[i] = v
    ids = [Z.int_list(o[1]) for o in outs]
    for t, j in enumerate(order):
        s.checkin_region(outs[j][1], outs[j][2], niter=4)
        done = [i for jj in order[:t + 1] for i in ids[jj]]
        for i in range(n):
            out_now = any(i in ids[jj] for jj in order[t + 1:])
            I.true(bool(s.sourcecat["is_active"][i]) == out_now, "only the checked-in sources become inactive")
    after = Z.snapshot(s)
    for i in range(n):
        a = any(i in x for x in ids)
        for f in before:
            if f == "_n":
                continue
            w = before[f][i]
            if a:
                w = {"n_iter": w + 4, "n_patch": w + 1}.get(f, w) if f in ("n_iter", "n_patch") else (newv[i] if f == "F2" else w)
            I.eq(after[f][i], w, "after all check-ins column %s" % f)
    I.true(after["_n"] == before["_n"], "counters restored")


def harnesses(tier):
    Fn = ["superscene.SuperScene.checkin_region", "superscene.SuperScene.checkout_region", "superscene.LinkedSuperScene.checkout_region"]
    k = dict(functions=Fn, stubs=skystub.STUBS, np_overrides=Z.NPO, validate=1,
             bounds="5 and 9 sources, up to 5 active rows in several orders and up to 4 fixed rows (some at the same time active in another region), all checked-in values, bounds and covariances symbolic, niter in {0,1,7,default}")
    cs = []
    subsets = [([2], []), ([1, 3], [0]), ([3, 1], [0]), ([4, 0, 2], [1]), ([2, 4, 0], [1, 3]), ([0], [1, 2]), ([3], [4]),
               ([2], [0, 3, 1]), ([7, 2, 5], [0, 1, 3, 4]), ([6, 1, 0, 7, 4], [5, 3, 2])]
    for i, (a, f) in enumerate(subsets):
        for j, ni in enumerate((0, 1, 7, None)):
            cs.append(dict(n=5 if max(a + f) < 5 else 9, act=a, fix=f, niter=ni, cov=(i + j) % 2 == 0, bounds=(i + j) % 3 != 0, kind="linked" if i % 2 else "circ"))
    for kd in ("circ", "linked"):
        cs.append(dict(n=5, act=[2, 0], fix=[1, 3], niter=2, cov=True, bounds=True, kind=kd, shared=[3]))
        cs.append(dict(n=5, act=[1], fix=[0, 4], niter=0, cov=False, bounds=False, kind=kd, shared=[0, 4]))
    if tier != "quick":
        for p in itertools.permutations([0, 1, 2, 3], 3):
            cs.append(dict(n=5, act=list(p), fix=[i for i in range(4) if i not in p], niter=3, cov=True, bounds=True, kind="circ"))
    return [Harness("checkin", h_checkin, cs, **k),
            Harness("undo", h_undo, [dict(kind=kd, order=o) for kd in ("circ", "linked") for o in ([0, 1], [1, 0])], **k)]
