"""A symbolic patch + proposal for the compiled kernel, and the documented
forward model as its specification."""
import contextlib
import math

import numpy as np

from . import boot
from . import kernel as K
from . import llvm
from . import sym as S
from . import symnp
from .cuts import Cuts
from .sym import Sym

import forcepho.proposal as FP
from forcepho.patches.patch import Patch, PatchBase
from forcepho.patches.device_patch import CPUPatchMixin
from forcepho.patches.storage import PSF_COLS

CUTOFF = 36.0
PAR = ["flux", "ra", "dec", "q", "pa", "sersic", "rhalf"]
RANGES = dict(data=(-3, 3), ierr=(0, 2), xpix=(-8, 8), ypix=(-8, 8), rad2=(0.3, 4), crpix=(-1, 1), crval=(-0.5, 0.5),
              G=(0.5, 2), ra=(-0.5, 0.5), dec=(-0.5, 0.5), q=(0.2, 1.3), pa=(-4, 4), flux=(-4, 4), mix=(-1, 1),
              dadr=(-1, 1), dadn=(-1, 1), Doff=(-0.4, 0.4), Ddia=(0.6, 1.4), Woff=(-0.5, 0.5), Wdia=(0.5, 1.5),
              pamp=(-1, 1), pcen=(-0.5, 0.5), pC=(0.6, 3), pCxy=(-0.3, 0.3))


class _Store:
    pass


class KPatch(CPUPatchMixin, Patch):
    def __init__(self):
        PatchBase.__init__(self, return_residual=True)

    def __del__(self):
        pass


class KP:
    def __init__(self, I, bands, nsrc, nrad, npsf, bins=None, residual=True, fixed=(), alloc=None):
        """bands: list (per band) of lists (per exposure) of pixel numbers;
        npsf: PSF gaussians per band; bins: radius bin of each PSF gaussian"""
        self.I = I
        self.bands, self.nsrc, self.nrad, self.npsf = bands, nsrc, nrad, npsf
        self.nb = len(bands)
        self.fixed = dict(fixed)
        self.names = []
        self.nexp = sum(len(b) for b in bands)
        self.exp_band = [k for k, b in enumerate(bands) for _ in b]
        self.exp_npix = [n for b in bands for n in b]
        self.npix = sum(self.exp_npix)
        self.bins = bins or {b: [p % nrad for p in range(npsf[b])] for b in range(self.nb)}
        self.v = {}
        self.sym = I.symbolic
        self.tok = llvm.Tokens()
        self.residual = residual
        self.alloc = alloc
        self._values()
        self._host()

    def real(self, kind, name):
        lo, hi = RANGES[kind]
        self.names.append((kind, name))
        if kind in self.fixed:
            return self.fixed[kind]
        return self.I.real(name, lo, hi)

    def sampler(self, rng):
        out = {n: round(rng.uniform(*RANGES[k]), 4) for k, n in self.names}
        m = rng.random()
        for k, n in self.names:
            if k in ("xpix", "ypix") and m < 0.6:
                out[n] = round(out[n] / 4, 4)
            if k == "data" and rng.random() < 0.3:
                out[n] = 0.0
            if k == "ierr" and rng.random() < 0.2:
                out[n] = 0.0
        return out

    def _values(self):
        v = self.v
        for p in range(self.npix):
            for k in ("data", "ierr", "xpix", "ypix"):
                v[k, p] = self.real(k, "%s_%d" % (k, p))
        for r in range(self.nrad):
            v["rad2", r] = self.real("rad2", "rad2_%d" % r)
        for e in range(self.nexp):
            v["G", e] = self.real("G", "G_%d" % e)
            for s in range(self.nsrc):
                for i in range(2):
                    v["crpix", e, s, i] = self.real("crpix", "crpix_%d_%d_%d" % (e, s, i))
                    v["crval", e, s, i] = self.real("crval", "crval_%d_%d_%d" % (e, s, i))
                    for j in range(2):
                        d = "dia" if i == j else "off"
                        v["D", e, s, i, j] = self.real("D" + d, "D_%d_%d_%d%d" % (e, s, i, j))
                        v["CW", e, s, i, j] = self.real("W" + d, "CW_%d_%d_%d%d" % (e, s, i, j))
            b = self.exp_band[e]
            for s in range(self.nsrc):
                for p in range(self.npsf[b]):
                    for c in PSF_COLS:
                        kind = {"amp": "pamp", "xcen": "pcen", "ycen": "pcen", "Cxx": "pC", "Cyy": "pC", "Cxy": "pCxy"}[c]
                        v["psf", e, s, p, c] = self.real(kind, "psf_%d_%d_%d_%s" % (e, s, p, c))
        for s in range(self.nsrc):
            for k in ("ra", "dec", "q", "pa"):
                v[k, s] = self.real(k, "%s_%d" % (k, s))
            for b in range(self.nb):
                v["flux", s, b] = self.real("flux", "flux_%d_%d" % (s, b))
            for r in range(self.nrad):
                v["mix", s, r] = self.real("mix", "mix_%d_%d" % (s, r))
                v["dadr", s, r] = self.real("dadr", "dadr_%d_%d" % (s, r))
                v["dadn", s, r] = self.real("dadn", "dadn_%d_%d" % (s, r))

    def f(self, x):
        """value as stored in host float32 memory"""
        if isinstance(x, Sym):
            return self.tok.new(x)
        return x

    @contextlib.contextmanager
    def native(self):
        if self.sym:
            with self.I.eng.patches.suspended():
                yield
        else:
            yield

    def _host(self):
        """pack with the real host code (real numpy buffers)"""
        v = self.v
        with self.native():
            P = KPatch()
            P.build_patch(npix=self.npix, n_sources=self.nsrc, n_radii=self.nrad, n_bands=self.nb, n_exp=self.nexp)
            P.return_residual = self.residual
            for p in range(self.npix):
                for k in ("data", "ierr", "xpix", "ypix"):
                    getattr(P, k)[p] = self.f(v[k, p])
            e = px = 0
            for b, exps in enumerate(self.bands):
                P.band_start[b] = e
                P.band_N[b] = len(exps)
                for n in exps:
                    P.exposure_start[e] = px
                    P.exposure_N[e] = n
                    px += n
                    e += 1
            for r in range(self.nrad):
                P.rad2[r] = self.f(v["rad2", r])
            for e in range(self.nexp):
                P.G[e] = self.f(v["G", e])
                for s in range(self.nsrc):
                    for i in range(2):
                        P.crpix[e, s, i] = self.f(v["crpix", e, s, i])
                        P.crval[e, s, i] = self.f(v["crval", e, s, i])
                        for j in range(2):
                            P.D[e, s, i, j] = self.f(v["D", e, s, i, j])
                            P.CW[e, s, i, j] = self.f(v["CW", e, s, i, j])
            # PSF table through the real packer
            P.n_bands = self.nb
            P.bandlist = ["b%d" % b for b in range(self.nb)]
            P.n_exp_per_band = np.array([len(b) for b in self.bands])
            st = _Store()
            st.data = {}
            for b in range(self.nb):
                o = _Store()
                o.attrs = dict(n_psf_per_source=self.npsf[b])
                st.data["b%d" % b] = o
            kp = self
            dt = np.dtype([(c, np.float32) for c in PSF_COLS] + [("sersic_bin", np.int32)])

            def local(band=None, source=None, **kw):
                b = P.bandlist.index(band)
                a = np.zeros(kp.npsf[b], dtype=dt)
                a["sersic_bin"] = kp.bins[b]
                return a
            st.get_local_psf = local
            P.psfstore = st
            sc = _Store()
            sc.sources = [_Store() for _ in range(self.nsrc)]
            P._pack_psf(["b%d" % b for b in self.exp_band], [None] * self.nexp, sc)
            # documented layout: psfgauss[expnum][source][psf]; a PSF of its own for each
            # exposure and source
            for e in range(self.nexp):
                b = self.exp_band[e]
                for s in range(self.nsrc):
                    for p in range(self.npsf[b]):
                        for c in PSF_COLS:
                            P.psfgauss[c][int(P.psfgauss_start[e]) + s * self.npsf[b] + p] = self.f(v["psf", e, s, p, c])
            if self.alloc:
                for name in list(vars(P)):
                    a = getattr(P, name)
                    if isinstance(a, np.ndarray) and a.nbytes and name in P.patch_struct_dtype.names:
                        setattr(P, name, self.alloc(name, a))
            P.send_to_device()
            if not self.residual:
                # what a patch without residual output looks like to the kernel
                P.device_ptrs["residual"] = 0
                P.send_patchstruct_to_device()
            q = np.zeros(self.nsrc, dtype=FP.source_struct_dtype)
            for s in range(self.nsrc):
                for k in ("ra", "dec", "q", "pa"):
                    q[s][k] = self.f(v[k, s])
                q[s]["nsersic"] = 1.5
                q[s]["rh"] = 0.1
                for b in range(self.nb):
                    q[s]["fluxes"][b] = self.f(v["flux", s, b])
                for r in range(self.nrad):
                    q[s]["mixture_amplitudes"][r] = self.f(v["mix", s, r])
                    q[s]["damplitude_drh"][r] = self.f(v["dadr", s, r])
                    q[s]["damplitude_dnsersic"][r] = self.f(v["dadn", s, r])
        self.patch, self.proposal = P, q

    # ---- running the code
    def evaluate(self):
        """run the real CPUProposer.evaluate_proposal; symbolic mode swaps the
        extension for the IR executor"""
        if self.sym:
            prop = FP.CPUProposer.__new__(FP.CPUProposer)
            with self.native():
                prop.__init__()
            self.kern = K.SymKernel(self.tok, [self.patch, prop])
            prop.evaluate_proposal_kernel = self.kern
        else:
            prop = FP.CPUProposer()
        out = prop.evaluate_proposal(self.proposal, patch=self.patch)
        chi, der = out[0], out[1]
        res = None
        if len(out) > 2:
            res = []
            for r in out[2]:
                res.extend(K.detok(self.tok, r) if self.sym else [float(x) for x in r])
        self.prop = prop
        return chi, der, res

    # ---- specification
    def spec(self, far=(), deriv=False, v=None):
        """documented model.  far: set of (pixel, source, psf) whose exponent is
        assumed beyond the cutoff, all others within it.  Returns dict."""
        real_v = v is not None
        v = v or self.v
        I = self.I
        sym = self.sym and not real_v
        if sym:
            C = Cuts(I, [n for k, n in self.names if k not in self.fixed], sampler=self.sampler)
        else:
            C = Cuts(_NoSym(), [])
        cos = (lambda x: S.s_cos(x)) if sym else math.cos
        sin = (lambda x: S.s_sin(x)) if sym else math.sin
        sqrt = (lambda x: S.s_sqrt(x)) if sym else (lambda x: math.sqrt(x) if x >= 0 else math.nan)
        exp = (lambda x: S.s_exp(x)) if sym else (lambda x: math.exp(min(x, 80.0)))
        pi = Sym(S.PI) if sym else math.pi
        conds = []
        chi2, res, scale, psc = [], [], [], []
        pix0 = 0
        e = 0
        for b, exps in enumerate(self.bands):
            tot = 0.0
            sc = 0.0
            for n in exps:
                gs = []
                for s in range(self.nsrc):
                    D = [[v["D", e, s, i, j] for j in range(2)] for i in range(2)]
                    c, sn = cos(v["pa", s]), sin(v["pa", s])
                    q = v["q", s]
                    R = [[c, -sn], [sn, c]]
                    T = [[None, None], [None, None]]
                    for i in range(2):
                        for j in range(2):
                            r = D[i][0] * R[0][j] + D[i][1] * R[1][j]
                            T[i][j] = C.define("T%d%d,%d,%d" % (i, j, e, s), r / q if j == 0 else r * q, 1)
                    CW = [[v["CW", e, s, i, j] for j in range(2)] for i in range(2)]
                    dra, ddec = v["ra", s] - v["crval", e, s, 0], v["dec", s] - v["crval", e, s, 1]
                    cx = CW[0][0] * dra + CW[0][1] * ddec + v["crpix", e, s, 0]
                    cy = CW[1][0] * dra + CW[1][1] * ddec + v["crpix", e, s, 1]
                    for p in range(self.npsf[b]):
                        k = self.bins[b][p]
                        r2 = v["rad2", k]
                        t = "%d,%d,%d" % (e, s, p)
                        cxx = C.define("Cxx," + t, r2 * (T[0][0] * T[0][0] + T[0][1] * T[0][1]) + v["psf", e, s, p, "Cxx"], 2)
                        cyy = C.define("Cyy," + t, r2 * (T[1][0] * T[1][0] + T[1][1] * T[1][1]) + v["psf", e, s, p, "Cyy"], 2)
                        cxy = C.define("Cxy," + t, r2 * (T[0][0] * T[1][0] + T[0][1] * T[1][1]) + v["psf", e, s, p, "Cxy"], 2)
                        det = C.define("det," + t, cxx * cyy - cxy * cxy, 3)
                        fxx = C.define("fxx," + t, cyy / det, 4)
                        fyy = C.define("fyy," + t, cxx / det, 4)
                        fxy = C.define("fxy," + t, -cxy / det, 4)
                        w = C.define("w," + t, sqrt(fxx * fyy - fxy * fxy), 5)
                        A = C.define("A," + t, v["flux", s, b] * v["G", e] * v["mix", s, k] * v["psf", e, s, p, "amp"] * w / (2 * pi), 6)
                        gs.append((s, p, cx + v["psf", e, s, p, "xcen"], cy + v["psf", e, s, p, "ycen"], fxx, fyy, fxy, A))
                for i in range(n):
                    px = pix0 + i
                    model = 0.0
                    mabs = 0.0
                    for (s, p, gx, gy, fxx, fyy, fxy, A) in gs:
                        t = "%d,%d,%d" % (px, s, p)
                        dx = C.define("dx," + t, v["xpix", px] - gx, 6)
                        dy = C.define("dy," + t, v["ypix", px] - gy, 6)
                        vx = C.define("vx," + t, fxx * dx + fxy * dy, 7)
                        vy = C.define("vy," + t, fyy * dy + fxy * dx, 7)
                        arg = C.define("arg," + t, dx * vx + dy * vy, 8)
                        conds.append(((px, s, p), arg))
                        if sym:
                            if (px, s, p) in far:
                                continue
                        elif arg > CUTOFF:
                            continue
                        E = C.define("E," + t, exp(-arg / 2), 9)
                        H = C.define("H," + t, 1 + (vx * vx + vy * vy - fxx - fyy) / 24, 9)
                        contrib = C.define("cts," + t, A * E * H, 10)
                        model = model + contrib
                        if not sym:
                            mabs += abs(contrib)
                    d, ie = v["data", px], v["ierr", px]
                    r = C.define("res,%d" % px, d - model, 11)
                    res.append(r)
                    tot = tot + (r * ie - d * ie) * (r * ie + d * ie)
                    if not sym:
                        psc.append(mabs + abs(d))
                        sc += ((mabs + abs(d)) * ie) ** 2
                pix0 += n
                e += 1
            chi2.append(tot)
            scale.append(sc)
        return dict(chi2=chi2, res=res, conds=conds, cuts=C, scale=scale, psc=psc)

    def gradient(self, sp, b, s, j):
        """exact derivative of the specified chi2 of band b"""
        C = sp["cuts"]
        name = PAR[j]
        if name == "flux":
            seeds = {"flux_%d_%d" % (s, b): 1.0}
        elif name in ("ra", "dec", "q", "pa"):
            seeds = {"%s_%d" % (name, s): 1.0}
        else:
            k = "dadn" if name == "sersic" else "dadr"
            seeds = {"mix_%d_%d" % (s, r): self.v[k, s, r] for r in range(self.nrad)}
        return C.deriv(sp["chi2"][b], seeds, "%s,%d,%d" % (name, s, b))

    def num_gradient(self, b, s, j):
        """float64 central difference of the specified chi2 (replay)"""
        name = PAR[j]

        def at(h):
            v = dict(self.v)
            if name == "flux":
                v["flux", s, b] += h
            elif name in ("ra", "dec", "q", "pa"):
                v[name, s] += h
            else:
                k = "dadn" if name == "sersic" else "dadr"
                for r in range(self.nrad):
                    v["mix", s, r] += h * self.v[k, s, r]
            return self.spec(v=v)["chi2"][b]
        h = 1e-4
        return (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h)

    def grad_scale(self, b, s, j):
        """magnitude of the summed terms of that derivative (for float32 tolerance)"""
        v = self.v
        sp = self.spec()
        tot = 0.0
        px = 0
        for e in range(self.nexp):
            for i in range(self.exp_npix[e]):
                if self.exp_band[e] == b:
                    tot += sp["psc"][px] * v["ierr", px] ** 2 * sum(
                        abs(v["flux", s, b] * v["G", e] * v["psf", e, s, p, "amp"]) * 0.5 for p in range(self.npsf[b]))
                px += 1
        return tot * 0.05

    # ---- decisions about the cutoff
    def set_oracle(self, sp, far):
        """conditions on a specified exponent argument are decided by the case
        (which pixels are beyond the cutoff); anything else goes to the solver"""
        from . import ratio
        import z3
        c = self.I.c
        C = sp["cuts"]
        known = []
        for key, arg in sp["conds"]:
            if isinstance(arg, Sym):
                a = C.var.get("cut!arg,%d,%d,%d" % key)
                known.append((a, key in far))
                full = C.expand(a, -1)
                c.add(full > 36 if key in far else full <= 36)
        memo = {}

        def oracle(cond):
            i = cond.get_id()
            if i in memo:
                return memo[i][1]
            r = decide(cond)
            memo[i] = (cond, r)
            return r

        def decide(cond):
            if z3.is_not(cond):
                r = decide(cond.children()[0])
                return None if r is None else not r
            k = cond.decl().kind()
            ch = cond.children()
            if len(ch) != 2 or not z3.is_real(ch[0]):
                return None
            x, y = ch
            if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
                d = x - y
            elif k in (z3.Z3_OP_LT, z3.Z3_OP_LE):
                d = y - x
            else:
                return None
            if not C._has_vars(d):
                return None
            sd = C.sweep(d)
            for a, isfar in known:
                if C.prove_equal(sd, a - 36, 10):
                    return isfar
                if C.prove_equal(sd, 36 - a, 10):
                    return not isfar
                # monotone rewritings, e.g. -arg/2 < -18
                for f in (0.5, 2, 0.25, 4):
                    m = z3.RealVal(str(f))
                    if C.prove_equal(sd, m * (a - 36), 5):
                        return isfar
                    if C.prove_equal(sd, m * (36 - a), 5):
                        return not isfar
            return None
        c.oracle = oracle


class _NoSym:
    symbolic = False
