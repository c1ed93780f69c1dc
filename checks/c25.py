"""C25 progress flags, logs and the saved state of a run follow its history."""
import copy
import json
import os
import shutil
import tempfile

import numpy as np

from vf.harness import Harness
from vf import scenes as Z
from vf import skystub
from vf.wcsstub import sub

import forcepho.superscene as SS
import forcepho.postprocess as PP

COLS = list(Z.BANDS) + ["ra", "dec", "q", "pa", "sersic", "rhalf"]


def scene(I, n, kind="circ", **kw):
    cat = Z.catalog(I, n, sym_flux=False, rh=(0.1, 0.1))
    for i in range(n):
        cat["ra"][i] = Z.RA0 + 5.0 * i / 3600.0
    kw = dict(dict(sourcecat=cat, bands=Z.BANDS, maxactive_per_patch=3), **kw)
    if kind == "linked":
        return SS.LinkedSuperScene(roi=I.farray([0.5] * n), **kw)
    return SS.SuperScene(**kw)


def h_progress(I, n, kind):
    target = I.int("target", 1, 500)
    s = scene(I, n, kind, target_niter=target)
    its = [I.int("n_iter%d" % i, -600, 600) for i in range(n)]
    if I.symbolic:
        # the same rows with room for symbolic iteration counts
        old = s.sourcecat
        new = I.zeros(n, np.dtype([(f, float if f == "n_iter" else old.dtype[f]) for f in old.dtype.names]))
        for f in old.dtype.names:
            for i in range(n):
                new[f][i] = old[f][i]
        s.sourcecat = new
    for i in range(n):
        s.sourcecat["n_iter"][i] = its[i]
    some = False
    for v in its:
        some = some | (abs(v) < target)
    u = s.undone
    I.true((u & some) | (np.logical_not(u) & np.logical_not(some)), "undone exactly while some source has fewer iterations than the target")


def h_sparse(I, n, kind, dyadic):
    # dyadic values make the boundary itself exact in floating point
    frac = I.int("eighths", 1, 8) / 8.0 if dyadic else I.real("maxactive_fraction", 0.01, 1)
    s = scene(I, n, kind, maxactive_fraction=frac)
    k = I.int("n_active", 0, n)
    s.n_active = k
    u = s.sparse
    w = k < frac * n
    if not I.symbolic and not dyadic:
        I.assume(abs(k - frac * n) > 1e-9)
    I.true((u & w) | (np.logical_not(u) & np.logical_not(w)), "sparse exactly while the active fraction is below the maximum")


class Disk:
    """records what fits.writeto is given (symbolic runs)"""

    def __init__(self):
        self.files = {}
        self.n = 0

    def writeto(self, filename, data, header=None, overwrite=False, **k):
        if not overwrite and str(filename) in self.files:
            raise OSError("file exists")
        self.n += 1
        self.files[str(filename)] = {f: [data[f][i] for i in range(len(data))] for f in data.dtype.names}

    def getdata(self, filename, *a, **k):
        return self.files[str(filename)]


def h_history(I, n, kind, tasks, how):
    """tasks: list of (active rows, task id, flush)"""
    root = tempfile.mkdtemp(prefix="vf_c25_")
    disk = Disk()
    try:
        with sub(*([(SS, "fits", disk), (PP, "fits", disk)] if I.symbolic else [])):
            _history(I, n, kind, tasks, how, root, disk)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _history(I, n, kind, tasks, how, root, disk):
    state = os.path.join(root, "scene.fits" if how != "default" else "superscene.fits")
    s = scene(I, n, kind, statefile=state)
    cat = s.sourcecat
    slog, plog = {}, []
    nit = [int(cat["n_iter"][i]) for i in range(n)]

    def on_disk():
        if I.symbolic:
            return state in disk.files
        return os.path.exists(state)

    def compare(where):
        conf = {} if how == "default" else {"scene_catalog": "scene.fits"}
        conf["tag"] = "x%d" % len(plog)
        with open(os.path.join(root, "config.json"), "w") as f:
            json.dump(conf, f)
        config, pl, sl, final = PP.run_metadata(root)
        I.true(config == conf, "the run's configuration is read back")
        I.true([str(x) for x in pl] == plog, "saved patch log lists the tasks in order of check-in (%s)" % where)
        I.true({int(k): [str(x) for x in v] for k, v in sl.items()} == slog, "saved source log (%s)" % where)
        for f in cat.dtype.names:
            for i in range(n):
                I.eq(final[f][i], cat[f][i], "saved catalog column %s (%s)" % (f, where), rtol=1e-12)

    def run(scene_):
        for t, (act, tid, flush) in enumerate(tasks):
            new = cat[list(act)]
            for k in range(len(act)):
                for c in COLS:
                    new[c][k] = I.real("v%d_%s_%d" % (t, c, k), 0.25, 3)
            want = {(c, i): new[c][k] for c in COLS for k, i in enumerate(act)}
            kw = {} if flush is None else dict(flush=flush)
            was = on_disk()
            if was and not flush:
                stamp = disk.n if I.symbolic else os.stat(state).st_mtime_ns
            s.checkin_region(new, None, niter=2 + t, taskID=tid, **kw)
            for i in act:
                nit[i] += 2 + t
                if tid is not None:
                    slog.setdefault(i, []).append(str(tid))
            if tid is not None:
                plog.append(str(tid))
            I.true({int(k): [str(x) for x in v] for k, v in s.sourcelog.items()} == slog,
                   "source log lists, in order, the tasks that checked in each source")
            I.true([str(x) for x in s.patchlog] == plog, "patch log lists the tasks in order of check-in")
            for (c, i), v in want.items():
                I.eq(cat[c][i], v, "checked-in value of %s" % c)
            for i in range(n):
                I.eq(cat["n_iter"][i], nit[i], "iterations accumulate")
            if flush:
                I.true(on_disk(), "flush writes the state")
                compare("flush")
            elif not was:
                I.true(not on_disk(), "nothing is written without flush")
            else:
                now = disk.n if I.symbolic else os.stat(state).st_mtime_ns
                I.true(now == stamp, "nothing is written without flush")

    if how == "exit":
        with s as s2:
            I.true(s2 is s, "entering the context gives the scene itself")
            run(s)
    elif how == "crash":
        class Boom(Exception):
            pass
        raised = False
        try:
            with s:
                run(s)
                raise Boom("fit failed")
        except Boom:
            raised = True
        I.true(raised, "an exception in the run is not swallowed")
    else:
        run(s)
        s.writeout()
    I.true(on_disk(), "the state is written")
    compare("end")
    if how == "explicit":
        other = os.path.join(root, "copy.fits")
        s.writeout(filename=other)
        if I.symbolic:
            I.true(other in disk.files, "an explicit file name is used")
        else:
            I.true(os.path.exists(other) and os.path.exists(other.replace(".fits", "_log.json")), "an explicit file name is used")


def harnesses(tier):
    k = dict(stubs=skystub.STUBS, np_overrides=Z.NPO, validate=2)
    ns = (1, 2, 3) if tier == "quick" else (1, 2, 3, 5)
    T1 = [([0, 2], 0, None), ([1], 1, False), ([2, 0], 2, None)]
    T2 = [([2], 7, True), ([0, 1], 3, None), ([2], 3, False), ([1, 2, 0], 12, True)]
    T3 = [([0], 1, True), ([0], 1, True), ([0], None, True)]
    T4 = [([1, 0], "a-1", None), ([2], np.int64(4), True), ([0], 0, None)]
    cs = []
    hows = ["default", "exit", "crash", "explicit"]
    for i, t in enumerate((T1, T2, T3, T4)):
        for kind in ("circ", "linked"):
            cs.append(dict(n=3, kind=kind, tasks=t, how=hows[i % 4]))
            cs.append(dict(n=4, kind=kind, tasks=t, how=hows[(i + 1 + (kind == "linked")) % 4]))
    Fn = ["superscene.SuperScene.undone", "superscene.SuperScene.sparse"]
    return [Harness("undone", h_progress, [dict(n=n, kind=kd) for n in ns for kd in ("circ", "linked")], functions=Fn[:1],
                    bounds="up to 5 sources, all iteration counts in [-600, 600] and targets in [1, 500]", **k),
            Harness("sparse", h_sparse, [dict(n=n, kind=kd, dyadic=n != 3) for n in (1, 2, 3, 4) for kd in ("circ", "linked")], functions=Fn[1:],
                    bounds="up to 5 sources, all numbers of active sources and fractions", **k),
            Harness("history", h_history, cs, functions=["superscene.SuperScene.checkin_region", "superscene.SuperScene.writeout",
                    "superscene.SuperScene.__enter__/__exit__", "postprocess.run_metadata"],
                    bounds="3-4 sources, histories of 3-4 check-ins (repeated sources and task ids, no task id), all checked-in values symbolic; "
                           "flush on/off/default, leaving the context normally and by an exception", **k)]


ASSUMPTIONS = ["the FITS writer stores the table it is given (symbolic runs record it; concrete replays write and read real files)"]
