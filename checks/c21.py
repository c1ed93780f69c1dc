"""C21 position-angle conversion and catalog rectification."""
import numpy as np

from vf.harness import Harness

import forcepho.superscene as SS

B = ["F1", "F2"]
PI = np.pi


def same_orientation(I, got, want, turns, label):
    """got - want is an integer multiple of pi"""
    hit = False
    for k in range(-turns, turns + 1):
        hit = hit | (np.abs(got - want - k * PI) < 1e-7)
    I.true(hit, label)


def h_pa(I, n, turns, deg, rotate, reverse):
    hi = 180 * turns if deg else PI * turns
    src = [I.real("pa%d" % i, -hi, hi) for i in range(n)]
    a = I.array(src)
    kw = {}
    if turns > 4:
        kw["max_try"] = turns + 1
    out = SS.convert_pa(a, from_deg=deg, rotate=rotate, reverse=reverse, **kw)
    I.true(len(out) == n, "one angle out per angle in")
    for i in range(n):
        I.le(out[i], PI / 2, "converted angle at most pi/2", atol=1e-9)
        I.le(-PI / 2, out[i], "converted angle at least -pi/2", atol=1e-9)
        w = np.deg2rad(src[i]) if deg else src[i]
        if rotate:
            w = w + PI / 2
        if reverse:
            w = -w
        same_orientation(I, out[i], w, turns + 2, "converted angle is the same orientation modulo pi")
        I.eq(a[i], src[i], "input angles are not modified")


def h_rect(I, n, rotate, reverse, ranges, extra):
    cols = ["ra", "dec", "q", "pa", "sersic", "rhalf"] + B
    names = list(cols)
    if extra:
        names = ["junk"] + names[::-1] + ["roi", "id"]
    dt = np.dtype([(c, np.int32 if c == "id" else np.float64) for c in names])
    cat = I.zeros(n, dt)
    lim = dict(rhalf=(-0.5, 1), q=(0, 1.25), sersic=(0, 8), pa=(-4, 4))
    for i in range(n):
        for c in names:
            if c == "id":
                cat[c][i] = 50 - i
            elif c == "roi":
                cat[c][i] = 0.25 * (i + 1)
            else:
                cat[c][i] = I.real("%s%d" % (c, i), *lim.get(c, (-100, 100)))
    orig = {c: [cat[c][i] for i in range(n)] for c in names}
    rng = dict(rhalf=(0.051, 0.29), q=(0.2, 0.99), sersic=(1.01, 4.99), pa=(-2.0, 2.0))
    kw = {}
    if ranges:
        rng = dict(rhalf=(I.real("rlo", 0, 0.125), I.real("rhi", 0.25, 0.5)), q=(I.real("qlo", 0.125, 0.375), I.real("qhi", 0.5, 1)),
                   sersic=(I.real("slo", 0.5, 1.5), I.real("shi", 2, 5)), pa=(I.real("plo", -2, -1), I.real("phi", 1, 2)))
        kw = dict(rhalf_range=rng["rhalf"], sqrtq_range=rng["q"], sersic_range=rng["sersic"], pa_range=rng["pa"])
    hdr = {"FILTERS": "F1, F2 "}
    out, bands, h2 = SS.rectify_catalog((cat, hdr), rotate=rotate, reverse=reverse, **kw)
    I.true(list(bands) == B, "bands are those of the header, in order")
    I.true(len(out) == n, "one row per source")
    for i in range(n):
        I.eq(out["source_index"][i], i, "source index is the row number")
        for c in cols + (["roi", "id"] if extra else []):
            v, w = out[c][i], orig[c][i]
            if c in rng:
                lo, hi = rng[c]
                w = np.minimum(np.maximum(w, lo), hi)
                if c == "pa" and (rotate or reverse):
                    t = w
                    if rotate:
                        t = w + PI / 2
                        I.le(np.abs(v), PI / 2, "rotated angle within pi/2", atol=1e-9)
                    w = -t if reverse else t
                    same_orientation(I, v, w, 2, "position angle is the clipped one rotated and reversed as requested, modulo pi")
                    continue
                I.le(lo, v, "%s at least its lower limit" % c, atol=0)
                I.le(v, hi, "%s at most its upper limit" % c, atol=0)
                I.eq(v, w, "%s is preserved inside its range and clipped outside" % c, rtol=1e-12, atol=1e-12)
            else:
                I.eq(v, w, "column %s is copied" % c)
            I.eq(cat[c][i], orig[c][i], "input catalog is not modified")


def harnesses(tier):
    q = tier == "quick"
    pa = [dict(n=n, turns=t, deg=d, rotate=ro, reverse=re)
          for n, t in (((1, 3), (1, 4), (2, 2), (1, 7)) if q else ((1, 4), (2, 4), (3, 3), (1, 20), (2, 8)))
          for d in (False, True) for ro in (False, True) for re in (False, True)]
    rc = [dict(n=n, rotate=ro, reverse=re, ranges=rg, extra=e) for n in ((1, 2) if q else (1, 2, 3)) for ro in (0, 1) for re in (0, 1)
          for rg in (0, 1) for e in (0, 1)]
    kw = dict(functions=["superscene.convert_pa", "superscene.rectify_catalog", "sourcecat_dtype"], max_paths=3000)
    return [Harness("convert_pa", h_pa, pa, pi_symbolic=False, bounds="1-%d angles, up to +-%d pi" % ((2, 7) if q else (3, 20)), **kw),
            Harness("rectify", h_rect, rc, pi_symbolic=False, bounds="1-3 sources, two bands, ranges symbolic", **kw)]
