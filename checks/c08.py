"""C08 checkout: disjointness, limits, flags, copies, refusal leaves no trace, seed weights."""
import itertools

import numpy as np

from vf.harness import Harness
from vf import scenes as Z
from vf import skystub

import forcepho.superscene as SS

ROIS = [(1.0, 1.0, 1.0, 1.0), (0.5, 4.0, 2.0, 1.0), (6.0, 0.5, 3.0, 1.0)]
FLAGCOLS = ("is_active", "is_valid")


def build(I, n, kind, active, valid, twod=False, maxactive=2, roi=None, strict=False, **kw):
    cat = Z.catalog(I, n, twod=twod, rh=(0.05, 0.3) if kind == "circ" else (0.1, 0.1))
    args = dict(sourcecat=cat, bands=Z.BANDS, maxactive_per_patch=maxactive, boundary_radius=8.0)
    args.update(kw)
    if kind == "linked":
        roi = I.farray(roi[:n]) if roi else I.reals("roi", n, 0.25, 6)
        s = SS.LinkedSuperScene(roi=roi, buffer=0.3, strict=strict, **args)
    else:
        roi = None
        s = SS.SuperScene(**args)
    # an arbitrary state reached through earlier checkouts
    for i in range(n):
        s.sourcecat["is_active"][i] = active[i]
        s.sourcecat["is_valid"][i] = valid[i]
        s.sourcecat["n_iter"][i] = 3 + i
    s.n_active = sum(active)
    s.n_fixed = sum(1 for a, v in zip(active, valid) if not a and not v)
    return s, roi


def distinct(I, s, n):
    for i in range(n):
        for j in range(i):
            dx = s.scene_coordinates[i][0] - s.scene_coordinates[j][0]
            I.assume((dx > 0.001) | (dx < -0.001))


def verify(I, s, before, out, n, seed, active, maxact, maxfix, must_have_seed):
    region, act, fix = out
    if act is None:
        I.true(fix is None, "a refused checkout returns no sources")
        after = Z.snapshot(s)
        for f in before:
            for i, (a, b) in enumerate(zip(before[f], after[f])):
                I.eq(a, b, "a refused checkout changes nothing (%s)" % f)
        I.true(any(active), "a checkout is refused only when a source is active elsewhere")
        return
    a, x = Z.int_list(act), Z.int_list(fix)
    I.true(len(a) > 0, "a region has active sources")
    I.true(not any(active[i] for i in a), "no returned active source is active in another region")
    I.true(len(set(a)) == len(a), "no duplicate active sources")
    I.true(len(set(x)) == len(x), "no duplicate fixed sources")
    I.true(not set(a) & set(x), "no source is both active and fixed")
    I.true(len(a) <= maxact, "at most the maximum number of active sources")
    I.true(len(x) <= maxfix, "at most the maximum number of fixed sources")
    if must_have_seed:
        I.true(seed in a, "the requested seed is active")
    after = Z.snapshot(s)
    for i in range(n):
        ea = True if i in a else bool(before["is_active"][i])
        ev = False if (i in a or i in x) else bool(before["is_valid"][i])
        I.true(bool(after["is_active"][i]) == ea, "exactly the returned active sources become active")
        I.true(bool(after["is_valid"][i]) == ev, "exactly the returned sources become not valid")
        for f in before:
            if f not in FLAGCOLS and f != "_n":
                I.eq(after[f][i], before[f][i], "checkout leaves column %s alone" % f)
    I.true(after["_n"][0] == before["_n"][0] + len(a), "active counter")
    I.true(after["_n"][1] == before["_n"][1] + len(x), "fixed counter")
    for rows, ids in ((act, a), (fix, x)):
        for k, i in enumerate(ids):
            for f in before:
                if f == "_n":
                    continue
                want = before[f][i]
                if f in FLAGCOLS:
                    continue
                I.eq(rows[f][k], want, "returned rows are the current catalog rows (%s)" % f)
    # copies
    for rows in (act, fix):
        if rows is not None and len(rows):
            rows["F1"][0] = -5.0
            rows["ra"][0] = 0.0
    final = Z.snapshot(s)
    for f in ("F1", "ra"):
        for i in range(n):
            I.eq(final[f][i], before[f][i], "returned rows are copies")


def h_linked(I, n, active, valid, twod, maxactive, strict, max_fixed, roi):
    s, roi = build(I, n, "linked", active, valid, twod=twod, maxactive=maxactive, strict=strict, roi=roi)
    distinct(I, s, n)
    seed = I.choose("seed", list(range(n)))
    before = Z.snapshot(s)
    out = s.checkout_region(seed_index=seed, max_fixed=max_fixed)
    verify(I, s, before, out, n, seed, active, maxactive, maxactive if max_fixed is None else max_fixed, True)


def h_circ(I, n, active, valid, maxactive):
    s, _ = build(I, n, "circ", active, valid, maxactive=maxactive)
    seed = I.choose("seed", list(range(n)))
    before = Z.snapshot(s)
    out = s.checkout_region(seed_index=seed)
    verify(I, s, before, out, n, seed, active, maxactive, maxactive, False)


def h_seq(I, n, kind, maxactive):
    """two checkouts, one check-in, one more checkout: outstanding regions stay disjoint"""
    s, roi = build(I, n, kind, [0] * n, [1] * n, maxactive=maxactive, roi=ROIS[1])
    distinct(I, s, n)
    outst = {}
    for step, sd in enumerate((0, n - 1, 1)):
        if step == 2 and outst:
            k = sorted(outst)[0]
            a, x = outst.pop(k)
            s.checkin_region(a, x, niter=2)
        region, a, x = s.checkout_region(seed_index=sd)
        if a is not None:
            outst[step] = (a.copy(), None if x is None else x.copy())
        ids = [i for a_, _ in outst.values() for i in Z.int_list(a_)]
        I.true(len(ids) == len(set(ids)), "outstanding regions share no active source")
        I.true(s.n_active == len(ids), "active counter counts the outstanding active sources")
        for i in range(n):
            I.true(bool(s.sourcecat["is_active"][i]) == (i in ids), "active flags mark exactly the outstanding active sources")


def h_seed(I, n, kind, via, maxactive):
    active = [int(bool(I.bool("act%d" % i))) for i in range(n)]
    fixed = [int(bool(I.bool("fix%d" % i))) for i in range(n)]
    valid = [int(not (a or f)) for a, f in zip(active, fixed)]
    s, roi = build(I, n, kind, active, valid, maxactive=maxactive, roi=ROIS[1])
    it = I.array([0.0] * n) if I.symbolic else None
    for i in range(n):
        s.sourcecat["n_iter"][i] = 0
    if via == "weight":
        w = s.seed_weight()
        tot = 0.0
        for i in range(n):
            I.le(0.0, w[i], "seed weights are not negative")
            tot = tot + w[i]
            if active[i] and not all(active):
                I.eq(w[i], 0.0, "a source active in an outstanding region is never drawn while others are not")
            if valid[i]:
                I.lt(0.0, w[i], "an available source can be drawn", atol=0)
        I.eq(tot, 1.0, "seed weights sum to one")
    else:
        k = I.choose("drawn", list(range(n)))
        if all(active):
            return
        with Z.draw(I, k):
            s.checkout_region()
        I.true(not active[k], "randomly drawn seed is not active elsewhere")


def h_weights(I, n):
    """weights favour sources with fewer iterations, for any iteration counts"""
    s, roi = build(I, n, "circ", [0] * n, [1] * n)
    for i in range(n):
        s.sourcecat["n_iter"][i] = I.choose("it%d" % i, [0, 40, 1000])
    w = s.seed_weight()
    tot = 0.0
    for i in range(n):
        I.lt(0.0, w[i], "every available source has a positive weight", atol=0)
        tot = tot + w[i]
        for j in range(n):
            if s.sourcecat["n_iter"][i] < s.sourcecat["n_iter"][j]:
                I.lt(w[j], w[i], "sources with fewer iterations are favoured", atol=0)
    I.eq(tot, 1.0, "seed weights sum to one")


def harnesses(tier):
    Fn = ["superscene.SuperScene.checkout_region/get_circular_scene/draw_center/seed_weight/exp_weight",
          "superscene.LinkedSuperScene.checkout_region/grow_scene/grow_source/find_overlaps"]
    k = dict(functions=Fn, stubs=skystub.STUBS, np_overrides=Z.NPO, max_paths=20000, validate=2,
             bounds="3 sources (thorough 4) at symbolic positions in a +-20 arcsec field with symbolic radii of influence, every active-flag state, seed symbolic; flat-sky stand-in for SkyCoord, exact ball query for the KD-tree")
    n = 3
    st = [a for a in itertools.product((0, 1), repeat=n)]
    lin = []
    for a in st:
        v = [1 - x for x in a]
        for ma in (1, 2, 3):
            for strict in (False, True):
                if (strict and (ma == 1 or sum(a) > 0)) or (sum(a) > 1 and ma != 2):
                    continue
                lin.append(dict(n=n, active=list(a), valid=v, twod=False, maxactive=ma, strict=strict, max_fixed=None if ma != 2 else 1, roi=ROIS[len(lin) % 3]))
    lin += [dict(n=2, active=list(a), valid=[1, 1], twod=t, maxactive=2, strict=False, max_fixed=None, roi=None) for a in itertools.product((0, 1), repeat=2) for t in (False, True)]
    lin += [dict(n=2, active=[0, 0], valid=[1, 1], twod=False, maxactive=1, strict=False, max_fixed=mf, roi=ROIS[1]) for mf in (0, 2)]
    if tier != "quick":
        for a in itertools.product((0, 1), repeat=4):
            lin.append(dict(n=4, active=list(a), valid=[1 - x for x in a], twod=False, maxactive=3, strict=False, max_fixed=None, roi=ROIS[1]))
    circ = [dict(n=n, active=list(a), valid=[1 - x for x in a], maxactive=ma) for a in st for ma in (1, 2, 3)]
    return [Harness("linked", h_linked, lin, **k), Harness("circular", h_circ, circ, **k),
            Harness("history", h_seq, [dict(n=3, kind=kd, maxactive=m) for kd in ("linked", "circ") for m in (1, 2)], **k),
            Harness("seed", h_seed, [dict(n=2, kind=kd, via=v, maxactive=2) for kd in ("linked", "circ") for v in ("weight", "draw")], **k),
            Harness("weights", h_weights, [dict(n=3)], **k)]
