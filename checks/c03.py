"""C03 kernel memory safety, output footprint, host/kernel layout agreement."""
import ctypes
import mmap
import os
import signal

import numpy as np

from vf.harness import Harness
from vf import kernel as K
from vf import kprob
from vf import llvm
from vf import sym as S
from checks import c01
import forcepho.proposal as FP
from forcepho.kernel_limits import MAXBANDS, MAXSOURCES, MAXRADII, NPARAMS

ASSUMPTIONS = c01.ASSUMPTIONS + ["posix_memalign succeeds", "patch shapes within the compiled limits"]
PAGE = mmap.PAGESIZE
libc = ctypes.CDLL(None, use_errno=True)
_KEEP = []
CONST = {k: (lo + hi) / 2 for k, (lo, hi) in kprob.RANGES.items() if k not in ("xpix",)}
CONST.update(ypix=0.0, pC=0.6, rad2=0.3, flux=2.25, mix=0.5, pamp=0.6, q=0.65)


def guarded(arr, at_end, readonly):
    """copy of arr in its own mapping, flush against an inaccessible page"""
    n = max(arr.nbytes, 1)
    body = (n + PAGE - 1) // PAGE * PAGE
    m = mmap.mmap(-1, body + 2 * PAGE)
    base = ctypes.addressof(ctypes.c_char.from_buffer(m))
    off = PAGE + (body - arr.nbytes if at_end else 0)
    out = np.frombuffer(m, dtype=arr.dtype, count=arr.size, offset=off).reshape(arr.shape)
    out[...] = arr
    libc.mprotect(ctypes.c_void_p(base), ctypes.c_size_t(PAGE), 0)
    libc.mprotect(ctypes.c_void_p(base + PAGE + body), ctypes.c_size_t(PAGE), 0)
    if readonly:
        libc.mprotect(ctypes.c_void_p(base + PAGE), ctypes.c_size_t(body), 1)
    _KEEP.append((m, out))
    return out


def in_child(fn):
    """run fn in a forked child; returns None if ok, else a description"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            msg = fn()
            if msg:
                os.write(w, msg.encode()[:2000])
                code = 10
        except BaseException as e:
            os.write(w, ("%s: %s" % (type(e).__name__, e)).encode()[:2000])
            code = 11
        os._exit(code)
    os.close(w)
    msg = b""
    while True:
        c = os.read(r, 4096)
        if not c:
            break
        msg += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return "killed by %s (memory access outside the patch or to a read-only input)" % signal.Signals(os.WTERMSIG(st)).name
    if os.WEXITSTATUS(st):
        return msg.decode() or "exit %d" % os.WEXITSTATUS(st)
    return None


def band_pixels(kp, b):
    out, px = [], 0
    for e in range(kp.nexp):
        for i in range(kp.exp_npix[e]):
            if kp.exp_band[e] == b:
                out.append(px)
            px += 1
    return out


def h_memory(I, bands, nsrc, nrad, npsf, residual=True):
    """bounds, read-only inputs and footprint for each band's evaluation"""
    args = dict(bands=bands, nsrc=nsrc, nrad=nrad, npsf=npsf, residual=residual, fixed=CONST.items())
    if I.symbolic:
        kp = kprob.KP(I, **args)
        I.c.raw = True
        I.sampler = kp.sampler
        prop = FP.CPUProposer.__new__(FP.CPUProposer)
        with kp.native():
            prop.__init__()
            ptr = prop.send_to_device(kp.proposal)
        kern = K.SymKernel(kp.tok, [kp.patch, prop])
        for b in range(kp.nb):
            with kp.native():
                before = {k: v.copy() for k, v in vars(kp.patch).items() if isinstance(v, np.ndarray) and v.dtype != object}
            try:
                ret = kern(b, kp.patch.device_patch, ptr)
            except llvm.MemError as e:
                I.true(False, "band %d: every access stays inside its buffer" % b, str(e))
                return
            m = kern.log[-1][1]
            want = {4 * p for p in band_pixels(kp, b)} if residual else set()
            got = set()
            host = {r.name for r in m.regions if r.host}
            for name, off, size in m.writes:
                if name in host:
                    I.true(name == "residual", "band %d: only the residual buffer is written" % b, "%s+%d" % (name, off))
                    got.update(range(off - off % 4, off + size, 4))
            I.true(got == want, "band %d: residuals written are exactly those of its own pixels" % b,
                   "%s vs %s" % (sorted(got), sorted(want)))
            I.true(len(ret.dchi2_dp) == MAXSOURCES * NPARAMS, "derivative buffer has the size the host expects")
            for k in range(nsrc * NPARAMS, MAXSOURCES * NPARAMS):
                if isinstance(ret.dchi2_dp[k], S.Sym) or ret.dchi2_dp[k] != 0:
                    I.eq(ret.dchi2_dp[k], 0.0, "derivative slots of absent sources stay zero")
            live = [r for r in m.regions if r.name == "heap" and r.live]
            I.true(not live, "scratch memory is released")
    else:
        for at_end in (True, False):
            def run():
                kp = kprob.KP(I, alloc=lambda name, a: guarded(a, at_end, name != "residual"), **args)
                P = kp.patch
                if residual:
                    P.residual = guarded(P.residual, at_end, False)
                    P.device_ptrs["residual"] = P.residual.__array_interface__["data"][0]
                    P.send_patchstruct_to_device()
                prop = FP.CPUProposer()
                q = guarded(kp.proposal, at_end, True)
                for b in range(kp.nb):
                    P.residual[:] = -54321.0
                    ret = prop.evaluate_proposal_kernel(b, P.device_patch, q.__array_interface__["data"][0])
                    wrote = [i for i in range(kp.npix) if P.residual[i] != -54321.0]
                    want = band_pixels(kp, b) if residual else []
                    if wrote != want:
                        return "band %d wrote residuals %s, its pixels are %s" % (b, wrote, want)
                    d = np.asarray(ret.dchi2_dp)
                    if d.size != MAXSOURCES * NPARAMS or np.any(d[nsrc * NPARAMS:] != 0):
                        return "derivative slots of absent sources are not zero"
            msg = in_child(run)
            I.true(msg is None, "kernel memory footprint", msg or "")


def h_fields(I, **case):
    c01.h_model(I, **case)


def harnesses(tier):
    K.prepare()
    shapes = []
    for bands in ([[1]], [[2, 1]], [[1], [2]], [[], [1]], [[1], [], [1, 2]], [[2], [0, 1]], [[1, 1], [1]]):
        for nsrc, nrad, npsf in ((1, 1, 1), (2, 2, 3), (3, 1, 1), (1, 3, 2)):
            for res in (True, False):
                shapes.append(dict(bands=bands, nsrc=nsrc, nrad=nrad, npsf=[npsf] * len(bands), residual=res))
    shapes.append(dict(bands=[[1], [1]], nsrc=2, nrad=2, npsf=[1, 3], residual=True))
    shapes.append(dict(bands=[[1], [1]], nsrc=2, nrad=2, npsf=[3, 1], residual=True))
    big = [dict(bands=[[1]], nsrc=MAXSOURCES, nrad=1, npsf=[1]), dict(bands=[[1]] * MAXBANDS, nsrc=1, nrad=1, npsf=[1] * MAXBANDS),
           dict(bands=[[1]], nsrc=1, nrad=MAXRADII, npsf=[MAXRADII])]
    if tier == "thorough":
        for bands in ([[3, 2, 1]], [[2, 2], [2, 2]], [[1]] * 6, [[4], [], [], [1, 1, 1]]):
            for nsrc, nrad, npsf in ((4, 3, 5), (7, 2, 2), (2, 10, 10)):
                for res in (True, False):
                    shapes.append(dict(bands=bands, nsrc=nsrc, nrad=nrad, npsf=[npsf] * len(bands), residual=res))
        big.append(dict(bands=[[1, 2], [1]], nsrc=MAXSOURCES, nrad=MAXRADII, npsf=[MAXRADII] * 2))
    F = ["EvaluateProposal and callees (LLVM IR)", "PatchBase.build_patch", "CPUPatchMixin.send_to_device/send_patchstruct_to_device",
         "CPUProposer.send_to_device", "proposal.source_struct_dtype", "PatchBase.patch_struct_dtype"]
    B = "listed shapes up to the compiled limits (%d sources, %d bands, %d radii); pixel x positions symbolic (both sides of the cutoff), other values fixed" % (MAXSOURCES, MAXBANDS, MAXRADII)
    fields = [dict(bands=[[1], [1]], nsrc=2, nrad=2, npsf=[2, 1], bins={0: [1, 0], 1: [1]}),
              dict(bands=[[1, 1]], nsrc=2, nrad=1, npsf=[1])]
    kw = dict(div_check=False, timeout_ms=1500, prove_timeout_ms=2000, time_budget=120)
    return [Harness("memory", h_memory, shapes, functions=F, bounds=B, max_paths=300, validate=1, path_timeout=600, **kw),
            Harness("limits", h_memory, big, functions=F, bounds=B, max_paths=8, validate=1, path_timeout=600, **kw),
            Harness("fields", h_fields, fields, functions=F, bounds="2 bands, 2 sources, 2 radii, everything symbolic", validate=1, path_timeout=600, **kw)]
