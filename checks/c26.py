"""C26 covariance blocks round-trip through the mass matrix."""
import itertools
import types

import numpy as np

from vf.harness import Harness
from vf import scenes as Z
from vf import skystub

import forcepho.superscene as SS
import forcepho.fitting as FT
from forcepho.utils import extract_block_diag


def h_extract(I, rows, cols, n, k, layout):
    vals = [[I.real("a_%d_%d" % (i, j), -4, 4) for j in range(cols)] for i in range(rows)]
    if layout == "T":
        a = I.array([[vals[i][j] for i in range(rows)] for j in range(cols)]).T
    elif layout == "slice":
        a = I.array([[vals[i][j // 2] if j % 2 == 0 else 9.0 for j in range(2 * cols)] for i in range(rows)])[:, ::2]
    else:
        a = I.array(vals)
    b = extract_block_diag(a, n, k) if k is not None else extract_block_diag(a, n)
    k = k or 0
    nr, nc = (rows, cols - n * k) if k > 0 else (rows + n * k, cols)
    nb = min(nr // n, nc // n)
    I.true(tuple(b.shape) == (nb, n, n), "one block per diagonal position")
    for m in range(nb):
        for i in range(n):
            for j in range(n):
                r = m * n + i + (-n * k if k < 0 else 0)
                c = m * n + j + (n * k if k > 0 else 0)
                I.eq(b[m, i, j], vals[r][c], "block %d is the diagonal block" % m)
    # the input is not disturbed
    for i in range(rows):
        for j in range(cols):
            I.eq(a[i, j], vals[i][j], "input matrix is unchanged")


def db(I, n, nb):
    bands = ["F%d" % (k + 1) for k in range(nb)]
    cat = Z.catalog(I, n, bands=bands, rh=(0.1, 0.1))
    for i in range(n):
        cat["ra"][i] = Z.RA0 + 10 * i / 3600.0
    s = SS.SuperScene(sourcecat=cat, bands=bands, maxactive_per_patch=n)
    npar = nb + 6
    C = np.empty((n, npar, npar), dtype=object)
    for i in range(n):
        for j in range(npar):
            for k in range(npar):
                C[i, j, k] = I.real("c%d_%d_%d" % (i, j, k), -4, 4)
                s.covariance_matrices[i, j, k] = C[i, j, k]
    for i in range(n):
        for f in list(bands) + ["ra", "q"]:
            s.bounds_catalog[f][i, 0] = I.real("lo_%s_%d" % (f, i), -4, 0)
            s.bounds_catalog[f][i, 1] = I.real("hi_%s_%d" % (f, i), 1, 4)
    return s, C, bands, npar


class Pot:
    pass


def h_mass(I, n, nb, ids, how):
    s, C, bands, npar = db(I, n, nb)
    bnd, cov = s.bounds_and_covs(np.array(ids))
    m = len(ids)
    I.true(tuple(cov.shape) == (m * npar, m * npar), "mass matrix covers the parameters of the requested sources")
    I.true(len(bnd) == m, "bounds for the requested sources")
    for a, ia in enumerate(ids):
        for f in list(bands) + ["ra", "q"]:
            for e in range(2):
                I.eq(bnd[f][a][e], s.bounds_catalog[f][ia][e], "bounds are those of the source at that position")
        for b in range(m):
            for j in range(npar):
                for k in range(npar):
                    w = C[ia, j, k] if a == b else 0.0
                    I.eq(cov[a * npar + j, b * npar + k], w, "mass matrix has that source's own block, in the given order, and nothing between sources")
    if how == "extract":
        blocks = extract_block_diag(cov, npar)
        diag = False
    else:
        # through the fit result, as after sampling
        step = types.SimpleNamespace(potential=Pot())
        diag = how == "var"
        if diag:
            step.potential._var = I.array([cov[j, j] for j in range(m * npar)])
        else:
            step.potential._cov = cov.copy()
        act = s.sourcecat[list(ids)]
        chain = I.array([[0.5 + 0.25 * t + j for j in range(m * npar)] for t in range(2)])
        res = FT.Result()
        res.chain = chain
        src = types.SimpleNamespace(SHAPE_COLS=list(s.shape_cols))
        model = types.SimpleNamespace(ncall=1, patch=types.SimpleNamespace(bandlist=list(bands), patch_reference_coordinates=[0.0, 0.0], npix=1, epaths=["e"]),
                                      scene=types.SimpleNamespace(sources=[src]))
        q, blocks = res.fill(types.SimpleNamespace(), act, None, model, step=step)
    I.true(tuple(blocks.shape) == (m, npar, npar), "one block per source")
    for a, ia in enumerate(ids):
        for j in range(npar):
            for k in range(npar):
                w = 0.0 if (diag and j != k) else C[ia, j, k]
                I.eq(blocks[a, j, k], w, "extracted block is the source's own")
    if how == "extract":
        return
    # checked in, in this row order, the blocks land on their own sources
    s.checkin_region(act, None, niter=1, block_covs=blocks, taskID=1)
    for i in range(n):
        for j in range(npar):
            for k in range(npar):
                w = 0.0 if (diag and j != k and i in ids) else C[i, j, k]
                I.eq(s.covariance_matrices[i, j, k], w, "covariances survive the round trip")


def harnesses(tier):
    q = tier == "quick"
    ex = []
    for n in (1, 2, 3) + (() if q else (4, 5)):
        for m in (1, 2, 3) + (() if q else (4,)):
            ex.append(dict(rows=n * m, cols=n * m, n=n, k=None, layout="C"))
            ex.append(dict(rows=n * m, cols=n * m, n=n, k=0, layout="T"))
            ex.append(dict(rows=n * m, cols=n * m, n=n, k=0, layout="slice"))
    ex += [dict(rows=5, cols=5, n=2, k=0, layout="C"), dict(rows=4, cols=6, n=2, k=0, layout="C"), dict(rows=6, cols=4, n=2, k=0, layout="T"),
           dict(rows=6, cols=6, n=2, k=1, layout="C"), dict(rows=6, cols=6, n=2, k=-1, layout="C"), dict(rows=6, cols=6, n=3, k=1, layout="T")]
    ex += [dict(rows=36, cols=36, n=2, k=0, layout="C"), dict(rows=27, cols=27, n=9, k=None, layout="C"), dict(rows=20, cols=20, n=1, k=None, layout="T")]
    ms = []
    for n, ids in ((1, [0]), (2, [1, 0]), (3, [2, 0]), (3, [1, 2, 0])) + (() if q else ((4, [3, 1, 0, 2]), (5, [4, 2]))):
        for nb in (1, 2):
            for how in ("extract", "cov", "var"):
                ms.append(dict(n=n, nb=nb, ids=ids, how=how))
    ms += [dict(n=18, nb=1, ids=[17, 3, 4, 0, 9, 16, 1, 2, 5], how=h) for h in ("extract", "cov", "var")]
    kw = dict(functions=["utils.extract_block_diag", "SuperScene.bounds_and_covs", "fitting.Result.fill", "SuperScene.checkin_region"])
    return [Harness("extract", h_extract, ex, bounds="matrices up to %d x %d (some 36 x 36), blocks up to %d (some 9); row-major, transposed and strided" % ((9, 9, 3) if q else (20, 20, 5)), **kw),
            Harness("mass_matrix", h_mass, ms, stubs=skystub.STUBS, np_overrides=Z.NPO, bounds="1-%d (one case 18) sources, 1-2 bands, all entries symbolic" % (3 if q else 5), **kw)]
