"""Lowering, symbolic execution and native replay of the CPU kernel."""
import ctypes
import importlib.util
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import atexit

import numpy as np

from . import boot
from . import llvm
from . import sym as S
from . import symnp
from .sym import Sym

SRC = os.path.join(boot.REPO, "forcepho", "src", "compute_gaussians_kernel.cc")
STUB = os.path.join(boot.VERIF, "vf", "stub")
_STATE = {}


def scratch():
    if "dir" not in _STATE:
        d = tempfile.mkdtemp(prefix="vfk.")
        _STATE["dir"] = d
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return _STATE["dir"]


def lower():
    """compile the kernel source of the working tree to IR and parse it"""
    if "ir" not in _STATE:
        out = os.path.join(scratch(), "k.ll")
        cmd = ["clang++", "-std=c++17", "-O1", "-S", "-emit-llvm", "-fno-vectorize", "-fno-slp-vectorize",
               "-fno-unroll-loops", "-fno-exceptions", "-fno-rtti", "-fno-math-errno", "-ffp-contract=off",
               "-fno-discard-value-names", "-w", "-I" + STUB, "-I" + os.path.dirname(SRC), SRC, "-o", out]
        subprocess.run(cmd, check=True)
        _STATE["ir"] = llvm.Parser(open(out).read())
    return _STATE["ir"]


def build_native():
    """compile the real extension (real pybind11) into the scratch directory"""
    if "so" not in _STATE:
        import sysconfig
        import pybind11
        so = os.path.join(scratch(), "compute_gaussians_kernel" + sysconfig.get_config_var("EXT_SUFFIX"))
        cmd = ["g++", "-O1", "-shared", "-fPIC", "-std=c++14", "-w", "-I" + pybind11.get_include(),
               "-I" + sysconfig.get_paths()["include"], "-I" + os.path.dirname(SRC), SRC,
               os.path.join(STUB, "guard.cc"), "-Wl,--wrap=posix_memalign,--wrap=aligned_alloc,--wrap=free", "-o", so]
        subprocess.run(cmd, check=True)
        spec = importlib.util.spec_from_file_location("forcepho.src.compute_gaussians_kernel", so)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        _STATE["so"] = so
        _STATE["mod"] = mod
        import types
        if "forcepho.src" not in sys.modules:
            pk = types.ModuleType("forcepho.src")
            pk.__path__ = [os.path.dirname(SRC)]
            sys.modules["forcepho.src"] = pk
        sys.modules["forcepho.src.compute_gaussians_kernel"] = mod
    return _STATE["mod"]


def prepare():
    lower()
    build_native()


class Ret:
    pass


class SymKernel:
    """Callable standing for EvaluateProposal: runs the IR symbolically."""

    def __init__(self, tokens, owners, writable=("residual",)):
        self.tok = tokens
        self.owners = owners
        self.writable = writable
        self.log = []
        self.names = {}

    def regions(self, m):
        seen = set()

        def add(name, arr):
            if isinstance(arr, np.void):
                ai = arr.__array_interface__
                addr, n = ai["data"][0], arr.nbytes
            elif isinstance(arr, np.ndarray) and arr.dtype != object and arr.nbytes:
                ai = arr.__array_interface__
                addr, n = ai["data"][0], arr.nbytes
                if not arr.flags.c_contiguous:
                    return
            else:
                return
            if addr in seen:
                return
            seen.add(addr)
            m.add_host(addr, n, name, name in self.writable)
        for o in self.owners:
            for k, v in vars(o).items():
                add(k, v)
        f = sys._getframe(2)
        depth = 0
        while f is not None and depth < 6:
            for k, v in f.f_locals.items():
                add("local " + k, v)
            f = f.f_back
            depth += 1

    def __call__(self, band, patch_ptr, prop_ptr):
        m = llvm.Machine(lower(), self.tok)
        m.call("@vf_module", [0])
        self.regions(m)
        if "EvaluateProposal" not in m.registered:
            raise llvm.Unsupported("EvaluateProposal is not exported")
        thunk, fn, size = m.registered["EvaluateProposal"]
        out = m.alloc(size, "return slot")
        m.reads.clear()
        m.writes.clear()
        err = None
        ret = Ret()
        ret.error = None
        try:
            m.call(m.addr_fn[thunk], [fn, int(band), int(patch_ptr), int(prop_ptr), out.start])
        except llvm.MemError as e:
            ret.error = str(e)
            self.log.append((band, m, ret))
            raise
        for name, off, kind in m.members:
            if kind in (0, 1):
                setattr(ret, name, m.load(out.start + off, "double" if kind == 0 else "float"))
            elif kind in (2, 3):
                p = m.load(out.start + off, "ptr")
                n = m.load(out.start + off + 8, "i64")
                t, w = ("float", 4) if kind == 2 else ("double", 8)
                setattr(ret, name, symnp.sarr([m.load(p + w * i, t) for i in range(n)]))
        # commit writes to host memory as tokens
        hosts = [r for r in m.regions if r.host]
        for addr, (sz, v) in m.shadow.items():
            for r in hosts:
                if r.start <= addr < r.start + r.size:
                    if isinstance(v, Sym):
                        f = self.tok.new(v)
                        raw = struct.pack("<f", f)
                    elif isinstance(v, float):
                        raw = struct.pack("<f", v)
                    else:
                        raw = int(v).to_bytes(sz, "little", signed=v < 0)
                    ctypes.memmove(addr, raw, len(raw))
                    break
        self.log.append((band, m, ret))
        return ret


def detok(tok, arr):
    """real float32 array holding tokens -> list of Sym/float"""
    out = []
    for bits, f in zip(np.ascontiguousarray(arr, dtype=np.float32).view(np.uint32).ravel(), np.asarray(arr).ravel()):
        v = tok.lookup(int(bits))
        out.append(v if v is not None else float(f))
    return out
