"""Symbolic executor for a subset of LLVM IR text (what clang -O1 emits for the
CPU kernel).  Integers and pointers are concrete, floats are reals (Sym).

Memory: host regions are real process memory (numpy buffers) read byte by byte;
32-bit floats whose bits lie in the token range stand for symbolic values.
Virtual regions (alloca, malloc, globals) live at fake addresses.  Every access
is bounds checked; writes never touch real memory but a shadow map (and are
logged), unless committed by the caller."""
import ctypes
import math
import re
import struct

import numpy as np
import z3

from . import sym as S
from .sym import Sym

TOKEN0 = 0x70000000
TOKEN1 = 0x71000000


class Tokens:
    def __init__(self):
        self.vals = []

    def new(self, v):
        self.vals.append(v)
        bits = TOKEN0 + len(self.vals) - 1
        assert bits < TOKEN1
        return struct.unpack("<f", struct.pack("<I", bits))[0]

    def lookup(self, bits):
        if TOKEN0 <= bits < TOKEN0 + len(self.vals):
            return self.vals[bits - TOKEN0]
        return None


class MemError(Exception):
    pass


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- parsing

class Type:
    pass


INT = re.compile(r"i(\d+)$")


class Parser:
    """tokenise IR text into functions/blocks/instructions"""

    def __init__(self, text):
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            m = re.match(r'^(%(?:"[^"]+"|[\w.$:-]+)) = type (.*)$', l)
            if m:
                self.structs[m.group(1)] = m.group(2).strip()
                i += 1
                continue
            m = re.match(r'^(@(?:"[^"]+"|[\w.$]+)) = (.*)$', l)
            if m:
                self.globals[m.group(1)] = m.group(2)
                i += 1
                continue
            if l.startswith("define"):
                hdr = l
                m = re.search(r'(@(?:"[^"]+"|[\w.$]+))\((.*)\)', hdr)
                name = m.group(1)
                args = self._split_args(hdr[hdr.index(name) + len(name):])
                params = []
                for a in args:
                    toks = a.split()
                    if toks == ["..."] or not toks:
                        continue
                    params.append((toks[0], toks[-1]))
                blocks = {}
                order = []
                cur = None
                i += 1
                while lines[i].strip() != "}":
                    s = lines[i]
                    st = s.strip()
                    m = re.match(r'^("[^"]+"|[\w.$-]+):', s)
                    if m and not s.startswith(" "):
                        cur = "%" + m.group(1)
                        blocks[cur] = []
                        order.append(cur)
                    elif st and not st.startswith(";"):
                        if cur is None:
                            cur = "%entry!"
                            blocks[cur] = []
                            order.append(cur)
                        if st.startswith("switch"):
                            while "]" not in st:
                                i += 1
                                st += " " + lines[i].strip()
                        blocks[cur].append(st)
                    i += 1
                self.funcs[name] = dict(params=params, blocks=blocks, entry=order[0], decoded={})
            i += 1

    @staticmethod
    def _split_args(s):
        """content of the first balanced (...) of s split at top-level commas"""
        assert s[0] == "("
        depth = 0
        out, cur = [], ""
        q = False
        for ch in s:
            if ch == '"':
                q = not q
            if not q and ch in "([{<":
                depth += 1
                if depth == 1:
                    continue
            if not q and ch in ")]}>":
                depth -= 1
                if depth == 0:
                    break
            if ch == "," and depth == 1 and not q:
                out.append(cur.strip())
                cur = ""
            else:
                cur += ch
        if cur.strip():
            out.append(cur.strip())
        return out


def split_top(s):
    out, cur, depth, q = [], "", 0, False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
        if ch == "," and depth == 0 and not q:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def take_type(s):
    """split 'TYPE rest' -> (type, rest)"""
    s = s.strip()
    if s[0] in "[{<":
        d = 0
        q = False
        for k, ch in enumerate(s):
            if ch == '"':
                q = not q
            if q:
                continue
            if ch in "[{<(":
                d += 1
            elif ch in "]}>)":
                d -= 1
                if d == 0:
                    return s[:k + 1], s[k + 1:].strip()
    if s.startswith('%"'):
        e = s.index('"', 2)
        return s[:e + 1], s[e + 1:].strip()
    p = s.split(None, 1)
    return p[0].rstrip(","), (p[1] if len(p) > 1 else "")


ATTRS = {"noundef", "nonnull", "nocapture", "readonly", "readnone", "writeonly", "noalias", "signext", "zeroext",
         "immarg", "returned", "inreg", "writable", "dead_on_unwind", "nofree", "noreturn", "nounwind"}


class Layout:
    def __init__(self, structs):
        self.structs = structs
        self.memo = {}

    def size_align(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self._sa(t)
        self.memo[t] = r
        return r

    def _sa(self, t):
        m = INT.match(t)
        if m:
            n = max(1, (int(m.group(1)) + 7) // 8)
            return n, n
        if t == "float":
            return 4, 4
        if t == "double":
            return 8, 8
        if t == "ptr":
            return 8, 8
        if t[0] == "[" or (t[0] == "<" and t[1] != "{"):
            n, et = t[1:-1].split(" x ", 1)
            s, a = self.size_align(et.strip())
            return int(n) * s, (a if t[0] == "[" else int(n) * s)
        if t[0] == "{" or t.startswith("<{"):
            packed = t[0] == "<"
            els = self.fields(t)
            off, al = 0, 1
            for e in els:
                s, a = self.size_align(e)
                if packed:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if t in self.structs:
            return self.size_align(self.structs[t])
        raise Unsupported("type %s" % t)

    def fields(self, t):
        if t in self.structs:
            t = self.structs[t]
        if t.startswith("<{"):
            return split_top(t[2:-2].strip())
        return split_top(t[1:-1].strip())

    def field_offset(self, t, k):
        if t in self.structs:
            t = self.structs[t]
        packed = t[0] == "<"
        off = 0
        for i, e in enumerate(self.fields(t)):
            s, a = self.size_align(e)
            if packed:
                a = 1
            off = (off + a - 1) // a * a
            if i == k:
                return off, e
            off += s
        raise Unsupported("field")

    def gep(self, base_t, idx):
        off = idx[0] * self.size_align(base_t)[0]
        t = base_t
        for k in idx[1:]:
            r = self.structs.get(t, t)
            if r[0] == "[" or (r[0] == "<" and r[1] != "{"):
                et = r[1:-1].split(" x ", 1)[1].strip()
                off += k * self.size_align(et)[0]
                t = et
            else:
                o, t = self.field_offset(t, k)
                off += o
        return off


# ---------------------------------------------------------------- machine

class Region:
    __slots__ = ("start", "size", "name", "data", "init", "writable", "host", "live")

    def __init__(self, start, size, name, host=False, writable=True):
        self.start, self.size, self.name, self.host, self.writable = start, size, name, host, writable
        self.data = None if host else bytearray(size)
        self.init = None if host else bytearray(size)
        self.live = True


class Machine:
    def __init__(self, parser, tokens):
        self.p = parser
        self.lay = Layout(parser.structs)
        self.tok = tokens
        self.regions = []
        self.next = 0x7E00000000000000
        self.shadow = {}      # addr -> (size, Sym)
        self.writes = []      # (region name, offset, size)
        self.reads = []
        self.fn_addr = {}
        self.addr_fn = {}
        self.gaddr = {}
        self.registered = {}
        self.members = []
        self.steps = 0
        self.depth = 0
        self.problems = []
        for k, n in enumerate(parser.funcs):
            a = 0x7D00000000000000 + 16 * k
            self.fn_addr[n] = a
            self.addr_fn[a] = n
        for g, d in parser.globals.items():
            m = re.search(r"constant (\[(\d+) x i8\]) c\"(.*)\"", d)
            if m:
                raw = self._cstr(m.group(3))
                r = self.alloc(len(raw), g)
                r.data[:] = raw
                r.init[:] = b"\1" * len(raw)
                self.gaddr[g] = r.start
                continue
            m = re.search(r"\b(?:constant|global) (.*)$", d)
            if m and "appending" not in d and "external" not in d:
                try:
                    t, rest = take_type(m.group(1))
                    init = split_top(rest)[0] if rest else "zeroinitializer"
                    n = self.lay.size_align(t)[0]
                    r = self.alloc(n, g)
                    self.gaddr[g] = r.start
                    self._ginit(r.start, t, init)
                except Unsupported:
                    pass

    def _ginit(self, addr, t, v):
        v = v.strip()
        n = self.lay.size_align(t)[0]
        if v == "zeroinitializer":
            self.memset(addr, 0, n)
            return
        tt = self.lay.structs.get(t, t)
        if tt[0] == "[" and v[0] == "[":
            et = tt[1:-1].split(" x ", 1)[1].strip()
            es = self.lay.size_align(et)[0]
            for k, item in enumerate(split_top(v[1:-1])):
                it, iv = take_type(item)
                self._ginit(addr + k * es, et, iv)
            return
        if tt[0] == "{" and v[0] == "{":
            for k, item in enumerate(split_top(v[1:-1])):
                it, iv = take_type(item)
                o, ft = self.lay.field_offset(t, k)
                self._ginit(addr + o, ft, iv)
            return
        self.store(addr, t, self.const(v, t))

    @staticmethod
    def _cstr(s):
        out = bytearray()
        i = 0
        while i < len(s):
            if s[i] == "\\":
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                out.append(ord(s[i]))
                i += 1
        return bytes(out)

    def alloc(self, size, name):
        start = self.next
        self.next += (size + 4096 + 63) // 64 * 64
        r = Region(start, size, name)
        self.regions.append(r)
        return r

    def add_host(self, addr, size, name, writable):
        for r in self.regions:
            if r.host and r.start == addr and r.size >= size:
                return r
        r = Region(addr, size, name, host=True, writable=writable)
        self.regions.append(r)
        return r

    def find(self, addr, size, what):
        best = None
        for r in self.regions:
            if r.live and r.start <= addr and addr + size <= r.start + r.size:
                return r
        for r in self.regions:
            if r.start - 4096 <= addr < r.start + r.size + 4096:
                best = r
        raise MemError("%s of %d bytes at %s" % (
            what, size, "%s%+d (size %d)" % (best.name, addr - best.start, best.size) if best is not None else hex(addr)))

    # -- typed access
    def load(self, addr, t):
        size = self.lay.size_align(t)[0]
        tt = self.lay.structs.get(t, t)
        if tt[0] in "{[":
            n = len(self.lay.fields(t)) if tt[0] == "{" else int(tt[1:].split(" x ")[0])
            out = []
            for k in range(n):
                if tt[0] == "{":
                    o, et = self.lay.field_offset(t, k)
                else:
                    et = tt[1:-1].split(" x ", 1)[1].strip()
                    o = k * self.lay.size_align(et)[0]
                out.append(self.load(addr + o, et))
            return out
        if tt[0] == "<":
            n, et = tt[1:-1].split(" x ", 1)
            es = self.lay.size_align(et.strip())[0]
            return [self.load(addr + k * es, et.strip()) for k in range(int(n))]
        r = self.find(addr, size, "read")
        self.reads.append((r.name, addr - r.start, size))
        sh = self.shadow.get(addr)
        if sh is not None:
            if sh[0] == size and t in ("float", "double"):
                return sh[1]
            if sh[0] == size:
                raise Unsupported("integer read of a symbolic float")
            raise Unsupported("partial read of symbolic value")
        for k in range(1, 8):
            s2 = self.shadow.get(addr - k)
            if s2 is not None and s2[0] > k:
                raise Unsupported("misaligned read of symbolic value")
        if r.host:
            raw = ctypes.string_at(addr, size)
        else:
            o = addr - r.start
            if not all(r.init[o:o + size]):
                raise MemError("read of uninitialised memory %s+%d" % (r.name, o))
            raw = bytes(r.data[o:o + size])
        if t == "float":
            bits = struct.unpack("<I", raw)[0]
            v = self.tok.lookup(bits)
            if v is not None:
                return v
            return struct.unpack("<f", raw)[0]
        if t == "double":
            return struct.unpack("<d", raw)[0]
        return int.from_bytes(raw, "little", signed=(t != "ptr"))

    def store(self, addr, t, v):
        size = self.lay.size_align(t)[0]
        tt = self.lay.structs.get(t, t)
        if tt[0] in "{[<":
            vs = v
            for k, x in enumerate(vs):
                if tt[0] == "{":
                    o, et = self.lay.field_offset(t, k)
                else:
                    et = tt[1:-1].split(" x ", 1)[1].strip()
                    o = k * self.lay.size_align(et)[0]
                self.store(addr + o, et, x)
            return
        r = self.find(addr, size, "write")
        self.writes.append((r.name, addr - r.start, size))
        if not r.writable:
            raise MemError("write to read-only buffer %s+%d" % (r.name, addr - r.start))
        for k in range(-7, size):
            s2 = self.shadow.get(addr + k)
            if s2 is not None and (k >= 0 or s2[0] > -k):
                del self.shadow[addr + k]
        if isinstance(v, Sym) or (isinstance(v, float) and r.host) or isinstance(v, np.floating) or \
                (isinstance(v, float) and t == "float"):
            self.shadow[addr] = (size, v)
            if not r.host:
                o = addr - r.start
                r.init[o:o + size] = b"\1" * size
            return
        if t == "double":
            raw = struct.pack("<d", v)
        else:
            raw = (int(v) & ((1 << (8 * size)) - 1)).to_bytes(size, "little")
        if r.host:
            self.shadow[addr] = (size, v)
            return
        o = addr - r.start
        r.data[o:o + size] = raw
        r.init[o:o + size] = b"\1" * size

    def memset(self, addr, byte, n):
        if n == 0:
            return
        r = self.find(addr, n, "write")
        self.writes.append((r.name, addr - r.start, n))
        if not r.writable:
            raise MemError("memset of read-only buffer %s" % r.name)
        for k in range(-7, n):
            self.shadow.pop(addr + k, None) if k >= 0 else None
        if r.host:
            for k in range(0, n - n % 4, 4):
                self.shadow[addr + k] = (4, 0.0 if byte == 0 else float("nan"))
            return
        o = addr - r.start
        r.data[o:o + n] = bytes([byte & 255]) * n
        r.init[o:o + n] = b"\1" * n

    def memcpy(self, dst, src, n):
        if n == 0:
            return
        rs = self.find(src, n, "read")
        rd = self.find(dst, n, "write")
        self.reads.append((rs.name, src - rs.start, n))
        self.writes.append((rd.name, dst - rd.start, n))
        if not rd.writable:
            raise MemError("copy into read-only buffer %s" % rd.name)
        items = {a - src: v for a, v in self.shadow.items() if src <= a < src + n}
        if rs.host:
            raw = ctypes.string_at(src, n)
            ini = b"\1" * n
        else:
            o = src - rs.start
            raw, ini = bytes(rs.data[o:o + n]), bytes(rs.init[o:o + n])
        for k in range(n):
            self.shadow.pop(dst + k, None)
        if rd.host:
            raise Unsupported("memcpy into host memory")
        o = dst - rd.start
        rd.data[o:o + n] = raw
        rd.init[o:o + n] = ini
        for k, v in items.items():
            self.shadow[dst + k] = v

    # -- constants
    def const(self, s, t):
        s = s.strip()
        if s == "null":
            return 0
        if s == "true":
            return 1
        if s == "false":
            return 0
        if s in ("undef", "poison"):
            return UNDEF
        if s == "zeroinitializer":
            return self.zero(t)
        if s[0] == "@":
            if s in self.gaddr:
                return self.gaddr[s]
            if s in self.fn_addr:
                return self.fn_addr[s]
            return ("extern", s)
        if t in ("float", "double"):
            if s.startswith("0x"):
                f = struct.unpack(">d", bytes.fromhex(s[2:].rjust(16, "0")))[0]
            else:
                f = float(s)
            if math.isnan(f) or math.isinf(f):
                return f
            return fconst(f, t)
        if INT.match(t):
            return int(s)
        m = re.match(r"getelementptr (?:inbounds )?\((.*)\)$", s)
        if m:
            parts = split_top(m.group(1))
            base_t = parts[0]
            bt, bv = take_type(parts[1])
            idx = [int(take_type(x)[1]) for x in parts[2:]]
            return self.const(bv, "ptr") + self.lay.gep(base_t, idx)
        m = re.match(r"(?:ptrtoint|inttoptr) \((.*)\)$", s)
        if m:
            t2, v = take_type(m.group(1))
            return self.const(v.split(" to ")[0], t2)
        if s[0] in "<{[":
            tt = self.lay.structs.get(t, t)
            inner = s.strip("<>{}[]") if s[0] != "{" else s[1:-1]
            out = []
            for item in split_top(s[1:-1]):
                it, iv = take_type(item)
                out.append(self.const(iv, it))
            return out
        raise Unsupported("constant %s %s" % (t, s))

    def zero(self, t):
        tt = self.lay.structs.get(t, t)
        if tt in ("float", "double"):
            return 0.0
        if tt[0] in "[<":
            n, et = tt[1:-1].split(" x ", 1)
            return [self.zero(et.strip()) for _ in range(int(n))]
        if tt[0] == "{":
            return [self.zero(e) for e in self.lay.fields(tt)]
        return 0

    # -- running
    def call(self, name, args):
        f = self.p.funcs.get(name)
        if f is None:
            return self.external(name, args)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("call depth")
        nreg = len(self.regions)
        env = {}
        for (t, n), a in zip(f["params"], args):
            env[n] = a
        blk, prev = f["entry"], None
        try:
            while True:
                ins = f["decoded"].get(blk)
                if ins is None:
                    ins = [decode(x) for x in f["blocks"][blk]]
                    f["decoded"][blk] = ins
                nxt = None
                # phis simultaneously
                k = 0
                newv = {}
                while k < len(ins) and ins[k][0] == "phi":
                    _, dst, t, inc = ins[k]
                    for v, b in inc:
                        if b == prev:
                            newv[dst] = self.val(v, t, env)
                            break
                    else:
                        raise Unsupported("phi")
                    k += 1
                env.update(newv)
                for op in ins[k:]:
                    self.steps += 1
                    if self.steps > 3000000:
                        raise Unsupported("step limit")
                    r = self.step(op, env)
                    if r is None:
                        continue
                    if r[0] == "ret":
                        return r[1]
                    nxt = r[1]
                    break
                prev, blk = blk, nxt
        finally:
            self.depth -= 1

    def val(self, s, t, env):
        if s[0] == "%":
            v = env[s]
            if v is UNDEF:
                return v
            return v
        return self.const(s, t)

    def step(self, op, env):
        k = op[0]
        if k == "load":
            _, dst, t, pt = op
            env[dst] = self.load(self.addr(pt, env), t)
        elif k == "store":
            _, t, v, pt = op
            self.store(self.addr(pt, env), t, self.val(v, t, env))
        elif k == "gep":
            _, dst, bt, base, idx = op
            ii = [self.val(v, t, env) for t, v in idx]
            env[dst] = self.addr(base, env) + self.lay.gep(bt, ii)
        elif k == "fbin":
            _, dst, o, t, a, b = op
            env[dst] = vec2(fbin, o, self.val(a, t, env), self.val(b, t, env))
        elif k == "fneg":
            _, dst, t, a = op
            env[dst] = vec1(lambda x: S.s_neg(x) if isinstance(x, Sym) else -x, self.val(a, t, env))
        elif k == "ibin":
            _, dst, o, t, a, b = op
            w = t
            if t[0] == "<":
                w = t[1:-1].split(" x ", 1)[1].strip()
            env[dst] = vec2(lambda oo, x, y: ibin(oo, int(w[1:]), x, y), o, self.val(a, t, env), self.val(b, t, env))
        elif k == "fcmp":
            _, dst, pred, t, a, b = op
            env[dst] = vec2(fcmp, pred, self.val(a, t, env), self.val(b, t, env))
        elif k == "icmp":
            _, dst, pred, t, a, b = op
            w = 64 if t == "ptr" else int(t[1:])
            env[dst] = icmp(pred, w, self.val(a, t, env), self.val(b, t, env))
        elif k == "br":
            return ("br", op[1])
        elif k == "cbr":
            return ("br", op[2] if truth(self.val(op[1], "i1", env)) else op[3])
        elif k == "ret":
            return ("ret", None if op[1] == "void" else self.val(op[2], op[1], env))
        elif k == "call":
            _, dst, fn, args = op
            vals = [self.val(v, t, env) if t != "metadata" else None for t, v in args]
            if fn[0] == "%":
                a = env[fn]
                fn = self.addr_fn.get(a)
                if fn is None:
                    raise MemError("call through bad pointer")
            r = self.call(fn, vals)
            if dst:
                env[dst] = r
        elif k == "cast":
            _, dst, o, t, v, t2 = op
            env[dst] = self.cast(o, t, self.val(v, t, env), t2)
        elif k == "select":
            _, dst, c, t, a, b = op
            cv = self.val(c, "i1", env)
            env[dst] = self.val(a, t, env) if truth(cv) else self.val(b, t, env)
        elif k == "alloca":
            _, dst, t, n = op
            cnt = self.val(n, "i64", env) if n else 1
            env[dst] = self.alloc(self.lay.size_align(t)[0] * cnt, "stack " + dst).start
        elif k == "switch":
            _, t, v, default, cases = op
            x = self.val(v, t, env)
            return ("br", cases.get(x, default))
        elif k == "extractvalue":
            _, dst, t, v, idx = op
            x = self.val(v, t, env)
            for i in idx:
                x = x[i]
            env[dst] = x
        elif k == "insertvalue":
            _, dst, t, v, t2, w, idx = op
            x = self.val(v, t, env)
            if x is UNDEF:
                x = self.zero(t)
            x = _setdeep(x, idx, self.val(w, t2, env))
            env[dst] = x
        elif k == "extractelement":
            _, dst, t, v, i = op
            env[dst] = self.val(v, t, env)[self.val(i, "i64", env)]
        elif k == "insertelement":
            _, dst, t, v, t2, w, i = op
            x = self.val(v, t, env)
            x = list(x) if x is not UNDEF else self.zero(t)
            x[self.val(i, "i64", env)] = self.val(w, t2, env)
            env[dst] = x
        elif k == "shufflevector":
            _, dst, t, a, b, mask = op
            va, vb = self.val(a, t, env), self.val(b, t, env)
            n = int(t[1:].split(" x ")[0])
            va = va if va is not UNDEF else [UNDEF] * n
            vb = vb if vb is not UNDEF else [UNDEF] * n
            al = list(va) + list(vb)
            env[dst] = [al[m] if m is not None else UNDEF for m in mask]
        elif k == "freeze":
            env[op[1]] = self.val(op[3], op[2], env)
        elif k == "unreachable":
            raise Unsupported("unreachable executed")
        else:
            raise Unsupported("instruction %s" % (op,))
        return None

    def addr(self, s, env):
        v = self.val(s, "ptr", env)
        if v is UNDEF:
            raise MemError("use of undefined pointer")
        if isinstance(v, tuple):
            raise Unsupported("external address %s" % (v,))
        return v

    def cast(self, o, t, v, t2):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, list):
            return [self.cast(o, t[1:-1].split(" x ", 1)[1].strip(), x, t2[1:-1].split(" x ", 1)[1].strip()) for x in v]
        if o in ("fpext", "fptrunc"):
            return v
        if o in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast"):
            if {t, t2} & {"float", "double"} and t != t2:
                raise Unsupported("bitcast")
            return v
        if o == "sext":
            w = int(t[1:])
            return sgn(v, w)
        if o == "zext":
            w = int(t[1:])
            if isinstance(v, Sym):
                v = int(truth(v))
            return v & ((1 << w) - 1)
        if o == "trunc":
            w = int(t2[1:])
            return sgn(v & ((1 << w) - 1), w) if w > 1 else v & 1
        if o == "sitofp":
            return float(sgn(v, int(t[1:])))
        if o == "uitofp":
            return float(v & ((1 << int(t[1:])) - 1))
        if o in ("fptosi", "fptoui"):
            if isinstance(v, Sym):
                q = z3.simplify(z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
                return S.CTX.pick_int(q)
            return int(v)
        raise Unsupported(o)

    def external(self, name, a):
        n = name.lstrip("@").strip('"')
        if n.startswith("llvm.lifetime") or n.startswith("llvm.dbg") or n.startswith("llvm.assume") or \
                n.startswith("llvm.experimental.noalias") or n.startswith("llvm.invariant"):
            return None
        if n.startswith("llvm.memset"):
            return self.memset(a[0], a[1], a[2])
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            return self.memcpy(a[0], a[1], a[2])
        base = re.sub(r"\.v?\d*f(32|64)$", "", n).replace("llvm.", "")
        base = {"expf": "exp", "sqrtf": "sqrt", "cosf": "cos", "sinf": "sin", "fabsf": "fabs", "logf": "log",
                "powf": "pow", "fmaxf": "maxnum", "fminf": "minnum", "fmax": "maxnum", "fmin": "minnum",
                "atan2f": "arctan2", "atan2": "arctan2", "tanf": "tan"}.get(base, base)
        if base in ("exp", "sqrt", "cos", "sin", "log"):
            return vec1(lambda x: getattr(S, "s_" + base)(x) if isinstance(x, Sym) else getattr(math, base)(x), a[0])
        if base == "exp2":
            return vec1(lambda x: S.s_pow(2.0, x), a[0])
        if base == "fabs":
            return vec1(lambda x: S.s_abs(x) if isinstance(x, Sym) else abs(x), a[0])
        if base in ("fmuladd", "fma"):
            return fbin("fadd", fbin("fmul", a[0], a[1]), a[2]) if not isinstance(a[0], list) else \
                [fbin("fadd", fbin("fmul", x, y), z) for x, y, z in zip(*a)]
        if base in ("maxnum", "minnum", "maximum", "minimum"):
            big = a[0] if truth(fcmp("ogt", a[0], a[1])) else a[1]
            small = a[1] if big is a[0] else a[0]
            return big if base.startswith("max") else small
        if base in ("pow", "powi"):
            return S.s_pow(a[0], a[1])
        if n == "sincosf" or n == "sincos":
            t = "float" if n.endswith("f") else "double"
            self.store(a[1], t, self.external("sin", [a[0]]))
            self.store(a[2], t, self.external("cos", [a[0]]))
            return None
        if re.match(r"llvm\.(s|u)(max|min)\.i", n):
            w = int(n.rsplit("i", 1)[1])
            x, y = (sgn(a[0], w), sgn(a[1], w)) if ".s" in n else (a[0] & ((1 << w) - 1), a[1] & ((1 << w) - 1))
            return max(x, y) if "max" in n else min(x, y)
        if n.startswith("llvm.abs.i"):
            return abs(a[0])
        if n == "posix_memalign":
            r = self.alloc(a[2] & (2**63 - 1), "heap")
            self.store(a[0], "ptr", r.start)
            return 0
        if n in ("malloc", "_Znwm", "_Znam"):
            return self.alloc(a[0], "heap").start
        if n == "aligned_alloc" or n == "memalign":
            return self.alloc(a[1], "heap").start
        if n == "calloc":
            r = self.alloc(a[0] * a[1], "heap")
            self.memset(r.start, 0, r.size)
            return r.start
        if n in ("free", "_ZdlPv", "_ZdaPv", "_ZdlPvm"):
            if a[0] == 0:
                return None
            for r in self.regions:
                if r.start == a[0] and not r.host and r.name == "heap":
                    if not r.live:
                        raise MemError("double free")
                    r.live = False
                    return None
            raise MemError("free of a pointer that was not allocated")
        if n == "vf_alloc":
            return self.alloc(a[0], "response").start
        if n == "vf_reg_fn":
            self.registered[self.cstring(a[0])] = (a[1], a[2], a[3])
            return None
        if n == "vf_reg_member":
            self.members.append((self.cstring(a[0]), a[1], a[2]))
            return None
        if n in ("printf", "puts", "putchar", "fprintf", "fflush"):
            return 0
        raise Unsupported("external function %s" % n)

    def cstring(self, addr):
        out = b""
        while True:
            c = self.load(addr, "i8")
            if c == 0:
                return out.decode()
            out += bytes([c & 255])
            addr += 1


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()
_FC = {}


def fconst(f, t):
    """a float literal; 32-bit literals that round pi multiples or small
    fractions become those (as Sym)"""
    key = (f, t)
    if key in _FC:
        return _FC[key]
    v = f
    if f != 0 and f != int(f):
        e = S.to_z3(np.float32(f)) if t == "float" or np.float32(f) == f else S.to_z3(f)
        v = S.mk(e)
    _FC[key] = v
    return v


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def truth(v):
    if v is UNDEF:
        raise MemError("branch on undefined value")
    if isinstance(v, Sym):
        return bool(v)
    return bool(v & 1)


def vec1(f, a):
    if isinstance(a, list):
        return [f(x) for x in a]
    return f(a)


def vec2(f, o, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, list):
        return [f(o, x, y) for x, y in zip(a, b)]
    return f(o, a, b)


def fbin(o, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, Sym) or isinstance(b, Sym):
        return {"fadd": S.s_add, "fsub": S.s_sub, "fmul": S.s_mul, "fdiv": S.s_div}[o](a, b)
    if o == "fadd":
        return a + b
    if o == "fsub":
        return a - b
    if o == "fmul":
        return a * b
    if o == "fdiv":
        if b == 0:
            return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
        return a / b
    raise Unsupported(o)


def ibin(o, w, a, b):
    if o == "add":
        r = a + b
    elif o == "sub":
        r = a - b
    elif o == "mul":
        r = a * b
    elif o == "sdiv":
        x, y = sgn(a, w), sgn(b, w)
        if y == 0:
            raise MemError("integer division by zero")
        r = abs(x) // abs(y)
        r = r if (x < 0) == (y < 0) else -r
    elif o == "srem":
        x, y = sgn(a, w), sgn(b, w)
        if y == 0:
            raise MemError("integer division by zero")
        r = abs(x) % abs(y)
        r = -r if x < 0 else r
    elif o in ("udiv", "urem"):
        x, y = a & ((1 << w) - 1), b & ((1 << w) - 1)
        if y == 0:
            raise MemError("integer division by zero")
        r = x // y if o == "udiv" else x % y
    elif o == "and":
        if isinstance(a, Sym) or isinstance(b, Sym):
            return S.s_and(a if isinstance(a, Sym) else bool(a), b if isinstance(b, Sym) else bool(b))
        r = a & b
    elif o == "or":
        if isinstance(a, Sym) or isinstance(b, Sym):
            return S.s_or(a if isinstance(a, Sym) else bool(a), b if isinstance(b, Sym) else bool(b))
        r = a | b
    elif o == "xor":
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, Sym) and not isinstance(b, Sym):
                return S.s_not(a) if b & 1 else a
            raise Unsupported("xor")
        r = a ^ b
    elif o == "shl":
        r = a << b
    elif o == "lshr":
        r = (a & ((1 << w) - 1)) >> b
    elif o == "ashr":
        r = sgn(a, w) >> b
    else:
        raise Unsupported(o)
    return sgn(r, w) if w > 1 else r & 1


def fcmp(pred, a, b):
    op = pred[1:]
    if pred in ("true", "false"):
        return int(pred == "true")
    if isinstance(a, Sym) or isinstance(b, Sym):
        if S.nonfinite(a) or S.nonfinite(b):
            pass
        if pred == "ord":
            return 1
        if pred == "uno":
            return 0
        return S.s_cmp(a, b, {"gt": ">", "ge": ">=", "lt": "<", "le": "<=", "eq": "==", "ne": "!="}[op])
    if a != a or b != b:
        return int(pred[0] == "u")
    if pred in ("ord", "uno"):
        return int(pred == "ord")
    return int({"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b, "eq": a == b, "ne": a != b}[op])


def icmp(pred, w, a, b):
    if a is UNDEF or b is UNDEF:
        raise MemError("comparison of undefined value")
    if pred[0] == "u":
        a, b = a & ((1 << w) - 1), b & ((1 << w) - 1)
        pred = pred[1:]
    elif pred[0] == "s":
        a, b = sgn(a, w), sgn(b, w)
        pred = pred[1:]
    else:
        a, b = a & ((1 << w) - 1), b & ((1 << w) - 1)
    return int({"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b, "eq": a == b, "ne": a != b}[pred])


def _setdeep(x, idx, v):
    x = list(x)
    if len(idx) == 1:
        x[idx[0]] = v
    else:
        x[idx[0]] = _setdeep(x[idx[0]], idx[1:], v)
    return x


# ---------------------------------------------------------------- decoding

FLAGS = {"nsw", "nuw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc",
         "disjoint", "nneg", "volatile", "atomic", "samesign"}


def strip_flags(s):
    toks = s.split(" ")
    while toks and toks[0] in FLAGS:
        toks.pop(0)
    return " ".join(toks)


def decode(line):
    line = re.sub(r", ![\w.]+ !\d+", "", line)
    line = re.sub(r", !dbg !\d+", "", line)
    line = re.sub(r" #\d+$", "", line)
    dst = None
    m = re.match(r'^(%(?:"[^"]+"|[\w.$-]+)) = (.*)$', line)
    if m:
        dst, line = m.group(1), m.group(2)
    op, _, rest = line.partition(" ")
    if op in ("tail", "musttail", "notail"):
        op, _, rest = rest.partition(" ")
    rest = strip_flags(rest)
    if op == "load":
        t, r = take_type(rest)
        r = r.lstrip(", ")
        parts = split_top(r)
        return ("load", dst, t.rstrip(","), take_type(parts[0])[1])
    if op == "store":
        parts = split_top(rest)
        t, v = take_type(parts[0])
        return ("store", t, v, take_type(parts[1])[1])
    if op == "getelementptr":
        parts = split_top(rest)
        return ("gep", dst, parts[0], take_type(parts[1])[1], [take_type(x) for x in parts[2:]])
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        t, r = take_type(rest)
        a, b = split_top(r)
        return ("fbin", dst, op, t, a, b)
    if op == "fneg":
        t, r = take_type(rest)
        return ("fneg", dst, t, r)
    if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
        t, r = take_type(rest)
        a, b = split_top(r)
        return ("ibin", dst, op, t, a, b)
    if op in ("fcmp", "icmp"):
        pred, _, r = rest.partition(" ")
        while pred in FLAGS:
            pred, _, r = r.partition(" ")
        t, r = take_type(r)
        a, b = split_top(r)
        return (op, dst, pred, t, a, b)
    if op == "br":
        parts = split_top(rest)
        if len(parts) == 1:
            return ("br", take_type(parts[0])[1])
        return ("cbr", take_type(parts[0])[1], take_type(parts[1])[1], take_type(parts[2])[1])
    if op == "ret":
        if rest.strip() == "void":
            return ("ret", "void", None)
        t, v = take_type(rest)
        return ("ret", t, v)
    if op == "phi":
        t, r = take_type(rest)
        inc = []
        for item in split_top(r):
            v, b = split_top(item.strip()[1:-1])
            inc.append((v, b))
        return ("phi", dst, t, inc)
    if op == "call":
        m = re.search(r'((?:@|%)(?:"[^"]+"|[\w.$]+))\(', rest)
        fn = m.group(1)
        args = Parser._split_args(rest[m.end() - 1:])
        out = []
        for a in args:
            t, r = take_type(a)
            r = re.sub(r"\b(align|dereferenceable|dereferenceable_or_null|sret|byval|memory|allocptr|captures)\b(\s+\d+|\([^)]*\)+)?", "", r)
            toks = [x for x in r.split() if x not in ATTRS]
            out.append((t, " ".join(toks)))
        return ("call", dst, fn, out)
    if op in ("sext", "zext", "trunc", "fpext", "fptrunc", "bitcast", "inttoptr", "ptrtoint", "sitofp", "uitofp",
              "fptosi", "fptoui", "addrspacecast"):
        t, r = take_type(rest)
        v, t2 = r.split(" to ")
        return ("cast", dst, op, t, v.strip(), t2.strip())
    if op == "select":
        parts = split_top(rest)
        t, a = take_type(parts[1])
        return ("select", dst, take_type(parts[0])[1], t, a, take_type(parts[2])[1])
    if op == "alloca":
        parts = split_top(rest)
        n = None
        for x in parts[1:]:
            if not x.startswith("align"):
                n = take_type(x)[1]
        return ("alloca", dst, parts[0], n)
    if op == "switch":
        m = re.match(r"(\S+) (\S+), label (\S+) \[(.*)\]", rest)
        cases = {int(v): l for v, l in re.findall(r"\S+ (-?\d+), label (\S+)", m.group(4))}
        return ("switch", m.group(1), m.group(2), m.group(3), cases)
    if op == "extractvalue":
        parts = split_top(rest)
        t, v = take_type(parts[0])
        return ("extractvalue", dst, t, v, [int(x) for x in parts[1:]])
    if op == "insertvalue":
        parts = split_top(rest)
        t, v = take_type(parts[0])
        t2, w = take_type(parts[1])
        return ("insertvalue", dst, t, v, t2, w, [int(x) for x in parts[2:]])
    if op == "extractelement":
        parts = split_top(rest)
        t, v = take_type(parts[0])
        return ("extractelement", dst, t, v, take_type(parts[1])[1])
    if op == "insertelement":
        parts = split_top(rest)
        t, v = take_type(parts[0])
        t2, w = take_type(parts[1])
        return ("insertelement", dst, t, v, t2, w, take_type(parts[2])[1])
    if op == "shufflevector":
        parts = split_top(rest)
        t, a = take_type(parts[0])
        _, b = take_type(parts[1])
        mt, mv = take_type(parts[2])
        n = int(mt[1:].split(" x ")[0])
        if mv.strip() == "zeroinitializer":
            mask = [0] * n
        elif mv.strip() in ("poison", "undef"):
            mask = [None] * n
        else:
            mask = [None if x.split()[1] in ("poison", "undef") else int(x.split()[1]) for x in split_top(mv.strip()[1:-1])]
        return ("shufflevector", dst, t, a, b, mask)
    if op == "freeze":
        t, v = take_type(rest)
        return ("freeze", dst, t, v)
    if op == "unreachable":
        return ("unreachable",)
    raise Unsupported("decode %s" % line)
