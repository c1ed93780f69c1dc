"""C28 summary catalogs: every source gets its own samples, percentiles and uncertainties."""
import json
import os
import shutil
import sys
import tempfile
import types

import numpy as np

from vf.harness import Harness
from vf import h5fake
from vf import symnp
from vf.wcsstub import sub

import forcepho.fitting as FT
import forcepho.postprocess as PP
import forcepho.superscene as SS
import forcepho.utils.catalog as CT

SH = ["ra", "dec", "q", "pa", "sersic", "rhalf"]


def final_cat(I, n, bands):
    c = I.zeros(n, SS.sourcecat_dtype(bands=list(bands)))
    for i in range(n):
        c["id"][i] = 50 + 3 * i
        c["source_index"][i] = i
        for f in bands:
            c[f][i] = I.real("final_%s_%d" % (f, i), 0.5, 4)
        for f in SH:
            c[f][i] = 0.5 + 0.125 * i
    return c


def make_run(I, root, n, bands, patches, ntune, nsamp, order, prec=(), big=False, scale=1.0):
    """a finished run on disk: per patch a Result written by the code itself, the
    logs in order of check-in, and the final catalog"""
    npar = len(bands) + 6
    final = final_cat(I, n, bands)
    truth = {}
    slog = {}
    cov = {}
    for p in order:
        src = patches[p]
        act = I.zeros(len(src), final.dtype if not I.symbolic else SS.sourcecat_dtype(bands=list(bands)))
        for a, i in enumerate(src):
            for f in final.dtype.names:
                act[f][a] = final[f][i]
        nit = ntune + nsamp
        ch = [[I.real("c%d_%d_%d" % (p, t, k), -5, 5) for k in range(len(src) * npar)] for t in range(nit)]
        lnp = [I.real("lnp%d_%d" % (p, t), -9, 0) for t in range(nit)]
        ref = [I.real("ra0_%d" % p, 0, 360), I.real("dec0_%d" % p, -90, 90)]
        r = FT.Result()
        r.chain = I.array(ch)
        r.wall_time = 2.5 + p
        exps = ["e%d" % k for k in range(1, 3 + p)]
        patch = types.SimpleNamespace(bandlist=list(bands), patch_reference_coordinates=I.array(ref), npix=1, epaths=list(exps))
        model = types.SimpleNamespace(patch=patch, scene=types.SimpleNamespace(sources=[types.SimpleNamespace(SHAPE_COLS=list(SH))]), ncall=2)
        nd = len(src) * npar
        C = np.array([[float((i == j) * (1 + i)) if p % 2 else 64.0 * (i == j) + i + j + 0.25 * abs(i - j) for j in range(nd)] for i in range(nd)])
        pot = types.SimpleNamespace(_var=np.diag(C).copy()) if p % 2 else types.SimpleNamespace(_cov=C.copy())
        step = types.SimpleNamespace(potential=pot, stats_dtypes=[{"tune": np.bool_, "model_logp": np.float64}])
        stats = [dict(tune=t < ntune, model_logp=lnp[t]) for t in range(nit)]
        fixed, bigs = (final_cat(I, 2, bands), None) if p % 2 else (None, final_cat(I, 1, bands))
        qcat, blocks = r.fill(types.SimpleNamespace(ra=10.0, dec=1.0, radius=0.5), act, fixed, model, big=bigs, patchID=p, step=step, stats=stats)
        I.true(np.shape(blocks) == (len(src), npar, npar), "one covariance block per source")
        for a in range(len(src)):
            I.true(np.array_equal(np.array(blocks[a], dtype=float), C[a * npar:(a + 1) * npar, a * npar:(a + 1) * npar]), "covariance block of each source is its own")
        for a, i in enumerate(src):
            I.true(int(qcat["source_index"][a]) == i, "final catalog lists the active sources in order")
            for k, f in enumerate(list(bands) + SH):
                I.eq(qcat[f][a], ch[-1][a * npar + k] + dict(ra=ref[0], dec=ref[1]).get(f, 0.0), "final catalog is the last sample")
        I.true(int(r.n_tune) == ntune and int(r.n_sample) == nsamp, "numbers of warmup and posterior samples")
        for t in range(nit):
            I.eq(r.stats["model_logp"][t], lnp[t], "statistics of sample t")
        if p in prec:
            pr = [[[I.real("p%d_%s_%d" % (p, b, i), 0.5, 4) if i == j else I.real("po%d_%s" % (p, b), -0.25, 0.25) for j in range(len(src))]
                   for i in range(len(src))] for b in bands]
            r.precisions = I.array(pr)
            cov[p] = pr
        r.dump_to_h5(os.path.join(root, "patches", "patch%d_samples.h5" % p))
        for a, i in enumerate(src):
            slog.setdefault(i, []).append(str(p))
            off = dict(ra=ref[0], dec=ref[1])
            truth[p, i] = dict({f: [ch[t][a * npar + k] + off.get(f, 0.0) for t in range(nit)] for k, f in enumerate(list(bands) + SH)}, lnp=lnp)
    with open(os.path.join(root, "config.json"), "w") as f:
        json.dump(dict(scene_catalog="scene.fits", bandlist=list(bands)), f)
    with open(os.path.join(root, "scene_log.json"), "w") as f:
        json.dump(dict(sourcelog=slog, patchlog=[str(p) for p in order]), f)
    if not I.symbolic:
        from astropy.io import fits
        fits.writeto(os.path.join(root, "scene.fits"), np.array(final), overwrite=True)
    return final, truth, slog, cov


class Hdr(dict):
    def copy(self):
        return Hdr(self)

    def remove(self, k, ignore_missing=False, **kk):
        if k in self:
            del self[k]
        elif not ignore_missing:
            raise KeyError(k)


class HDU:
    def __init__(self, data=None, header=None, name=None):
        self.data, self.header = data, Hdr(header) if header is not None else Hdr()
        if name:
            self.header["EXTNAME"] = name


class FitsStub:
    """in-memory tables in place of FITS files"""
    Header = Hdr

    def __init__(self, I):
        self.final = None
        self.store = st = {}

        class HDUList(list):
            def writeto(self, name, overwrite=False, **k):
                st[str(name)] = HDUList([HDU(None if h.data is None else h.data.copy(), h.header) for h in self])

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass
        self.HDUList = HDUList

        class BinTableHDU(HDU):
            @classmethod
            def from_columns(cls, data, header=None, **k):
                return cls(data, header)
        self.BinTableHDU = BinTableHDU
        self.PrimaryHDU = HDU

    def getdata(self, name, *a, **k):
        return self.final

    def open(self, name, *a, **k):
        if str(name) in self.store:
            return self.store[str(name)]
        return self.HDUList([HDU(), HDU(self.final.copy())])


def scratch(fn):
    def f(I, **case):
        root = tempfile.mkdtemp(prefix="vf_c28_")
        os.makedirs(os.path.join(root, "patches"))
        fs = FitsStub(I)
        try:
            if I.symbolic:
                h5fake.FILES.clear()
                with sub((sys.modules, "h5py", h5fake.h5py), (PP, "fits", fs), (PP, "h5py", h5fake.h5py), (FT, "h5py", h5fake.h5py)):
                    fn(I, root, fs, **case)
            else:
                fn(I, root, fs, **case)
        finally:
            shutil.rmtree(root, ignore_errors=True)
    f.__name__ = fn.__name__
    return f


@scratch
def h_samples(I, root, fs, n, bands, patches, ntune, nsamp, order, which):
    fs.final, truth, slog, _ = make_run(I, root, n, bands, patches, ntune, nsamp, order)
    kw = {} if which is None else dict(patches=list(which))
    used = [p for p in order] if which is None else list(which)
    cat = PP.postsample_catalog(root, **kw)
    I.true(len(cat) == n, "one row per source of the scene")
    last = {}
    for p in used:
        for i in patches[p]:
            last[i] = p
    for i in range(n):
        if i not in last:
            I.true(int(cat["id"][i]) == -1, "sources in no patch are marked")
            continue
        p = last[i]
        I.true(int(cat["id"][i]) == 50 + 3 * i and int(cat["source_index"][i]) == i, "row belongs to its source")
        I.true(int(cat["patch_id"][i]) == p, "patch that sampled the source")
        I.eq(cat["wall"][i], 2.5 + p, "wall time of the patch")
        for t in range(nsamp):
            I.eq(cat["lnp"][i][t], truth[p, i]["lnp"][ntune + t], "ln-probability of posterior sample t")
            for f in list(bands) + SH:
                I.eq(cat[f][i][t], truth[p, i][f][ntune + t], "posterior sample t of %s" % f)


@scratch
def h_written(I, root, fs, n, bands, patches, ntune, nsamp, order, which):
    """the summary catalogs written to disk: posterior samples, and the best fit
    with its linear uncertainties"""
    fs.final, truth, slog, pr = make_run(I, root, n, bands, patches, ntune, nsamp, order, prec=order)
    if I.symbolic:
        open(os.path.join(root, "scene.fits"), "w").close()
    from astropy.io import fits
    fo = fs.open if I.symbolic else fits.open
    out = os.path.join(root, "out_%s.cat" % which)
    if which == "sample":
        ret = PP.postsample_catalog(root, catname=out)
        with fo(out) as h:
            I.true(h[0].header["FILTERS"] == ",".join(bands), "bands of the catalog are recorded")
            d = h[1].data
            I.true(len(d) == n, "one row per source of the scene is written")
            for i in range(n):
                for f in ("id", "source_index", "patch_id"):
                    I.true(int(d[f][i]) == int(ret[f][i]), "written rows are those returned")
                for f in list(bands) + SH + ["lnp"]:
                    for t in range(nsamp):
                        I.eq(np.atleast_1d(d[f][i])[t], np.atleast_1d(ret[f][i])[t], "written samples are those returned")
        return
    start = {f: [fs.final[f][i] for i in range(n)] for f in list(bands) + SH}
    PP.postop_catalog(root, catname=out, **(dict(bands=list(bands)) if which == "bands" else {}))
    want = PP.flux_unc_linear(root)
    with fo(out) as h:
        I.true(h[0].header["FILTERS"] == ",".join(bands), "bands of the catalog are recorded")
        I.true(len(h) == 3, "best fit and uncertainties are written")
        d, u = h[1].data, h[2].data
        I.true(len(d) == n and len(u) == n, "one row per source of the scene is written")
        for i in range(n):
            I.true(int(d["source_index"][i]) == i and int(u["source_index"][i]) == i and int(d["id"][i]) == 50 + 3 * i == int(u["id"][i]), "rows belong to their sources")
            I.true(int(d["n_iter"][i]) == 0 and int(d["n_patch"][i]) == 0, "counters start afresh for sampling")
            for f in list(bands) + SH:
                I.eq(d[f][i], start[f][i], "best fit parameters are those of the run")
            for f in bands:
                I.eq(u[f][i], want[f][i], "flux uncertainties are those of the sources")


@scratch
def h_reread(I, root, fs, n, bands, patches, ntune, nsamp, order):
    """what is read back from the sample file is what was fit"""
    fs.final, truth, slog, _ = make_run(I, root, n, bands, patches, ntune, nsamp, order)
    for p in order:
        s = PP.Samples(os.path.join(root, "patches", "patch%d_samples.h5" % p))
        I.true(list(s.bands) == list(bands) and list(s.shape_cols) == SH, "band and parameter names")
        I.true(int(s.patchID) == p and int(s.n_sample) == nsamp, "patch bookkeeping")
        I.true([e.decode() if isinstance(e, bytes) else str(e) for e in s.exposures] == ["e%d" % k for k in range(1, 3 + p)] and int(s.nexp) == 2 + p, "exposures of the patch")
        for nm, want in (("fixed", 2 if p % 2 else 0), ("big", 0 if p % 2 else 1)):
            got = getattr(s, nm, None)
            I.true((0 if got is None else len(got)) == want, "%s sources of the patch" % nm)
            for i in range(want):
                for f in bands:
                    I.eq(got[f][i], fs.final[f][i], "%s sources of the patch" % nm)
        nd = len(patches[p]) * (len(bands) + 6)
        C = np.array([[float((i == j) * (1 + i)) if p % 2 else 64.0 * (i == j) + i + j + 0.25 * abs(i - j) for j in range(nd)] for i in range(nd)])
        I.true(np.array_equal(np.array(s.cov, dtype=float), C), "covariance matrix of the sampler")
        I.true((s.region.ra, s.region.dec, s.region.radius) == (10.0, 1.0, 0.5), "region")
        for a, i in enumerate(patches[p]):
            I.true(int(s.active["source_index"][a]) == i, "active sources")
            for f in list(bands) + SH:
                I.eq(s.active[f][a], fs.final[f][i] if f in bands else 0.5 + 0.125 * i, "starting parameters")
                I.eq(s.final[f][a], truth[p, i][f][-1], "final parameters")
                for t in range(ntune + nsamp):
                    I.eq(s.chaincat[f][a][t], truth[p, i][f][t], "chain of %s" % f)


@scratch
def h_multi(I, root, fs, n, bands, patches, ntune, nsamp, order):
    fs.final, truth, slog, _ = make_run(I, root, n, bands, patches, ntune, nsamp, order)
    src, pts, chains = PP.find_multipatch(root)
    want = {i: [int(p) for p in v] for i, v in slog.items() if len(v) > 1}
    I.true({int(s): [int(x) for x in p] for s, p in zip(src, pts)} == want and len(src) == len(want), "exactly the sources in several patches, with their patches")
    for s, c in zip(src, chains):
        i = int(s)
        I.true(len(c) == len(want[i]), "one chain per patch")
        for a, p in enumerate(want[i]):
            I.true(int(c["source_index"][a]) == i, "chain of this source")
            for f in list(bands) + SH:
                for t in range(ntune + nsamp):
                    I.eq(c[f][a][t], truth[p, i][f][t], "chain of the source in that patch")


@scratch
def h_unc(I, root, fs, n, bands, patches, order, prec):
    fs.final, truth, slog, pr = make_run(I, root, n, bands, patches, 0, 1, order, prec=prec)
    final = fs.final
    unc = PP.flux_unc_linear(root, snr_max=8.0)
    I.true(len(unc) == n, "one row per source of the scene")
    last = {}
    for p in order:
        if p in prec:
            for a, i in enumerate(patches[p]):
                last[i] = (p, a)
    for i in range(n):
        I.true(int(unc["id"][i]) == 50 + 3 * i and int(unc["source_index"][i]) == i, "row belongs to its source")
        for b, f in enumerate(bands):
            if i not in last:
                lo, hi = SS.flux_bounds(I.array([final[f][j] for j in range(n)]), 1)
                w = np.maximum(np.abs(lo[i] - final[f][i]), np.abs(hi[i] - final[f][i]))
                I.eq(unc[f][i], w, "default uncertainty where no precision matrix exists")
                continue
            p, a = last[i]
            m = pr[p][b]
            if len(m) == 1:
                var = 1.0 / m[0][0]
            else:
                det = m[0][0] * m[1][1] - m[0][1] * m[1][0]
                var = m[1 - a][1 - a] / det
            w = np.maximum(np.sqrt(var), truth[p, i][f][-1] / 8.0)
            I.eq(unc[f][i], w, "uncertainty is that of the source's own diagonal of the inverse precision, at least flux / snr_max")


def samplecat(I, n, nsamp):
    dt = np.dtype([("id", np.int32), ("wall", np.float64), ("F1", np.float64, (nsamp,)), ("ra", np.float64, (nsamp,))])
    c = I.zeros(n, dt)
    for i in range(n):
        c["id"][i] = 7 + i
        c["wall"][i] = I.real("w%d" % i, 0, 5)
        for f in ("F1", "ra"):
            for t in range(nsamp):
                c[f][i, t] = I.real("%s_%d_%d" % (f, i, t), -4, 4)
    return c


def h_pct(I, n, nsamp, pcts):
    c = samplecat(I, n, nsamp)
    val = {(f, i): [c[f][i, t] for t in range(nsamp)] for f in ("F1", "ra") for i in range(n)}
    e, hdr = CT.pctile_cat(c, percentiles=list(pcts))
    I.true(len(e) == n and hdr["SMPLCOLS"].split(",") == ["F1", "ra"], "sampled columns")
    I.true(hdr["PCTS"] == ",".join(str(p) for p in pcts), "percentiles are recorded")
    for i in range(n):
        I.true(int(e["id"][i]) == 7 + i, "other columns are copied")
        I.eq(e["wall"][i], c["wall"][i], "other columns are copied")
        for f in ("F1", "ra"):
            I.true(len(e[f][i]) == len(pcts), "one value per percentile")
            s = val[f, i]
            for k, p in enumerate(pcts):
                got = e[f][i][k]
                # order statistics by counting: got = interpolation between ranks
                pos = p / 100.0 * (nsamp - 1)
                if pos == int(pos):
                    r = int(pos)
                    below = sum([_b(x <= got) for x in s], 0)
                    above = sum([_b(x >= got) for x in s], 0)
                    I.true((below >= r + 1) & (above >= nsamp - r), "percentile is the order statistic of its own samples")
                    hit = False
                    for x in s:
                        hit = hit | (np.abs(x - got) <= 1e-9)
                    I.true(hit, "percentile is one of the samples")
                for k2, p2 in enumerate(pcts):
                    if p2 > p:
                        I.le(got, e[f][i][k2], "percentiles are in the order requested")
                mn, mx = s[0], s[0]
                for x in s[1:]:
                    mn, mx = np.minimum(mn, x), np.maximum(mx, x)
                I.le(mn, got, "percentile is within the samples")
                I.le(got, mx, "percentile is within the samples")


def _b(c):
    if isinstance(c, (bool, np.bool_)):
        return int(c)
    from vf import sym as S
    import z3
    return S.Sym(z3.If(S.bterm(c), z3.RealVal(1), z3.RealVal(0)))


def h_combine(I, n, nsamp, bands, groups, ids):
    dt = np.dtype([("id", "U30"), ("ra", float, (nsamp,)), ("dec", float, (nsamp,))] + [(b, float, (nsamp,)) for b in bands])
    c = I.zeros(n, dt)
    v = {}
    for i in range(n):
        c["id"][i] = ids[i]
        for f in list(bands) + ["ra", "dec"]:
            for t in range(nsamp):
                v[f, i, t] = I.real("%s_%d_%d" % (f, i, t), -4, 4)
                c[f][i, t] = v[f, i, t]
    o, hdr = CT.combine_chains(c, list(bands), groups=dict(groups))
    I.true(len(o) == len(groups), "one row per group")
    for k, (g, sub_) in enumerate(groups):
        I.true(float(o["id"][k]) == float(g), "row belongs to its group")
        mem = [ids.index(str(x)) for x in sub_]
        for t in range(nsamp):
            for b in bands:
                I.eq(o[b][k][t], sum([v[b, i, t] for i in mem], 0.0), "flux of a group is the sum over its members, sample by sample", rtol=1e-6, atol=1e-9)
            for f in ("ra", "dec"):
                I.eq(o[f][k][t], sum([v[f, i, t] for i in mem], 0.0) / len(mem), "position of a group is the mean over its members, sample by sample", rtol=1e-6, atol=1e-9)


def h_append(I, rows, names):
    """tables of several files, appended extension by extension"""
    ext = ["MOMENT", "SAMPLES", "BEST", "PERCENTILES"]
    root = tempfile.mkdtemp(prefix="vf_c28_")
    files, vals = [], []
    store = {}

    class HDU:
        def __init__(self, data, header=None):
            self.data, self.header = data, header if header is not None else Hdr()

    class Hdr(dict):
        def copy(self):
            return Hdr(self)

        def remove(self, k, ignore_missing=False, **kk):
            if k in self:
                del self[k]
            elif not ignore_missing:
                raise KeyError(k)

    class HDUL(list):
        def __getitem__(self, k):
            if isinstance(k, str):
                for h in self:
                    if str(h.header.get("EXTNAME", "")).upper() == k.upper():
                        return h
                raise KeyError(k)
            return list.__getitem__(self, k)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def writeto(self, name, overwrite=False, **k):
            store[name] = HDUL([HDU(None if h.data is None else h.data.copy(), h.header.copy()) for h in self])

    F = types.SimpleNamespace(HDUList=HDUL, PrimaryHDU=lambda *a, **k: HDU(None), BinTableHDU=lambda d, *a, **k: HDU(d),
                              open=lambda f, *a, **k: store[f])
    try:
        with sub(*([(CT, "fits", F)] if I.symbolic else [])):
            for k, m in enumerate(rows):
                tabs = []
                for x, e in enumerate(ext):
                    # every table has its own column layout, as written by the code
                    dt = np.dtype([("id", np.int32), ("v%d" % x, np.float64)])
                    t = I.zeros(m, dt)
                    for i in range(m):
                        t["id"][i] = 100 * k + i
                        t["v%d" % x][i] = I.real("%s_%d_%d" % (e, k, i), -4, 4)
                    tabs.append(t)
                name = os.path.join(root, "in%d.fits" % k)
                CT.write_table(name, tabs, extnames=ext if names else [], FILTERS="F1")
                files.append(name)
                vals.append(tabs)
            out = os.path.join(root, "out.fits")
            CT.append_catalogs(list(files), out)
            again = os.path.join(root, "again.fits")
            CT.append_catalogs([out], again)
            from astropy.io import fits
            for f in (out, again):
                with (F.open(f) if I.symbolic else fits.open(f)) as h:
                    for x, e in enumerate(ext):
                        d = h[x + 1].data
                        I.true(str(h[x + 1].header["EXTNAME"]) == e, "extension %s is named" % e)
                        I.true(len(d) == sum(rows), "all rows of all files")
                        j = 0
                        for k, m in enumerate(rows):
                            for i in range(m):
                                I.true(int(d["id"][j]) == 100 * k + i, "rows in order of the files")
                                I.eq(d["v%d" % x][j], vals[k][x]["v%d" % x][i], "values of extension %s" % e)
                                j += 1
    finally:
        shutil.rmtree(root, ignore_errors=True)


def harnesses(tier):
    q = tier == "quick"
    P1 = {0: [2, 0], 1: [1, 3]}
    P2 = {0: [1], 1: [3, 0], 2: [0, 1]}
    P3 = {3: [0], 7: [2, 1]}
    base = [dict(n=5, bands=["F2", "F1"], patches=P1, ntune=1, nsamp=2, order=[0, 1]),
            dict(n=4, bands=["F1"], patches=P2, ntune=2, nsamp=1, order=[1, 0, 2]),
            dict(n=4, bands=["F1"], patches=P2, ntune=0, nsamp=2, order=[2, 1, 0]),
            dict(n=3, bands=["F1", "F2"], patches=P3, ntune=1, nsamp=2, order=[7, 3])]
    base += [dict(n=18, bands=["F1", "F3", "F2"], patches={0: [5, 4, 17], 1: [3, 2, 0, 1], 2: [6, 16, 7, 8], 11: [9, 10, 11, 12, 13, 14]}, ntune=2, nsamp=9, order=[11, 2, 0, 1])]
    if not q:
        base += [dict(n=6, bands=["F1", "F2", "F3"], patches={0: [5, 4], 1: [3, 2], 2: [1, 5]}, ntune=2, nsamp=3, order=[1, 2, 0])]
    sm = [dict(b, which=w) for b in base for w in (None, [b["order"][-1]], list(reversed(b["order"])))]
    un = [dict(n=3, bands=["F2", "F1"], patches={0: [2, 0]}, order=[0], prec=[0]),
          dict(n=3, bands=["F1"], patches={0: [1], 1: [0, 2]}, order=[1, 0], prec=[1]),
          dict(n=3, bands=["F1"], patches={0: [1], 1: [0, 1]}, order=[1, 0], prec=[0, 1]),
          dict(n=2, bands=["F1"], patches={0: [1]}, order=[0], prec=[])]
    pc = [dict(n=n, nsamp=k, pcts=p) for n, k in (((1, 3), (2, 2)) if q else ((1, 3), (2, 2), (1, 4))) for p in ([16, 50, 84], [84, 16, 50], [0, 50, 100], [100])]
    ap = [dict(rows=r, names=nm) for r in ([2], [1, 2], [2, 0, 1]) for nm in (True, False)]
    k = dict(validate=1, path_timeout=120)
    return [Harness("samples", h_samples, sm, functions=["postprocess.postsample_catalog", "postprocess.run_metadata", "postprocess.Samples",
                    "fitting.Result.fill/dump_to_h5/read_from_h5/_reconstruct"], bounds="3-6 sources (one case 18), 2-3 patches (4) in any order, 1-3 bands, 2-5 (11) iterations; all values symbolic", **k),
            Harness("written", h_written, [dict(b, which=w) for b in base[:4] for w in ("sample", "op", "bands") if w == "sample" or 0 in b["patches"]],
                    functions=["postprocess.postsample_catalog", "postprocess.postop_catalog"], bounds="3-5 sources, 2-3 patches", **k),
            Harness("reread", h_reread, base, functions=["fitting.Result.fill/dump_to_h5/read_from_h5/_reconstruct", "utils.chain.make_statscat"], bounds="as samples", **k),
            Harness("multipatch", h_multi, base, functions=["postprocess.find_multipatch"], bounds="as samples", **k),
            Harness("uncertainties", h_unc, un, functions=["postprocess.flux_unc_linear", "superscene.flux_bounds"], bounds="2-3 sources, patches of 1-2 sources, full precision matrices", **k),
            Harness("percentiles", h_pct, pc, functions=["utils.catalog.pctile_cat"], bounds="1-2 sources, 2-4 samples", max_paths=600, **k),
            Harness("combine", h_combine, [dict(n=4, nsamp=2, bands=["F1", "F2"], groups=[("7", (3, 1)), ("9", (2,))], ids=["1", "2", "3", "4"]),
                                           dict(n=3, nsamp=5, bands=["F1"], groups=[("12", (8, 30, 5))], ids=["5", "8", "30"]),
                                           dict(n=2, nsamp=2, bands=["F1"], groups=[], ids=["5", "8"])],
                    functions=["utils.catalog.combine_chains"], bounds="2-4 sources in 0-2 groups, 2-5 samples", **k),
            Harness("append", h_append, ap, functions=["utils.catalog.append_catalogs", "utils.catalog.write_table"], bounds="1-3 files of 0-2 rows, with and without extension names", **k)]


ASSUMPTIONS = ["HDF5 and FITS files store what they are given (symbolic runs use in-memory stand-ins, concrete replays real files)",
               "precision matrices are invertible"]
