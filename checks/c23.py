"""C23 configuration: command line over file over defaults, for every presence pattern."""
import os
import sys
import tempfile
import argparse
from unittest import mock

import numpy as np
import yaml

from vf.harness import Harness

import forcepho.config as C

KEYS = ("max_snr", "gtol", "n_sig_flux")
PAIRS = ("rhalf_range", "dpos", "sersic_range", "sqrtq_range", "pa_range")


class Env:
    """values that appear in files and on command lines: numbers when replaying,
    symbols (by name) when executing symbolically"""

    def __init__(self, I):
        self.I, self.v = I, {}

    def new(self, name):
        self.v[name] = self.I.real(name, 0, 50)
        return name

    def yaml(self, name):
        return "!vfsym %s" % name if self.I.symbolic else "%.17g" % self.v[name] if self.v[name] % 1 else "%.1f" % self.v[name]

    def cli(self, name):
        return "@" + name if self.I.symbolic else "%.17g" % self.v[name]

    def conv(self, s):
        return self.v[s[1:]] if s.startswith("@") else float(s)

    def load(self, loader, node):
        return self.v[node.value]

    def adapt(self, parser):
        if self.I.symbolic:
            for a in parser._actions:
                if a.type is float:
                    a.type = self.conv
        return parser

    def __enter__(self):
        self.tmp = tempfile.TemporaryDirectory(prefix="vfc23")
        self.saved = []
        for L in (yaml.Loader, yaml.SafeLoader, yaml.FullLoader, yaml.UnsafeLoader):
            self.saved.append((L, L.__dict__.get("yaml_constructors")))
            L.add_constructor("!vfsym", self.load)
        self.mocks = [mock.patch.dict(os.environ, {"VFBASE": "/base/dir"}), mock.patch.object(sys, "argv", ["prog", "--not_an_option", "3"])]
        for m in self.mocks:
            m.__enter__()
        return self

    def __exit__(self, *a):
        for m in self.mocks[::-1]:
            m.__exit__(*a)
        for L, s in self.saved:
            if s is None:
                del L.yaml_constructors
            else:
                L.yaml_constructors = s
        self.tmp.cleanup()

    def write(self, lines):
        p = os.path.join(self.tmp.name, "c.yml")
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n")
        return p


def same(I, got, want, label):
    if isinstance(want, (list, tuple)):
        I.true(isinstance(got, np.ndarray), label + " (an array)")
        I.true(len(got) == len(want), label + " (length)")
        for g, w in zip(got, want):
            same(I, g, w, label)
    elif want is None or isinstance(want, (str, type)):
        I.true(got is want or (isinstance(got, str) and got == want), label)
    else:
        I.eq(got, want, label)


def myparser(E):
    p = argparse.ArgumentParser()
    p.add_argument("--config_file", type=str, default=None)
    p.add_argument("--max_snr", type=float, default=7.0)
    p.add_argument("--gtol", "-g", type=float, default=0.25)
    p.add_argument("--n_sig_flux", type=float, default=None)
    p.add_argument("--rhalf_range", type=float, nargs=2, default=[0.03, 1.0])
    p.add_argument("--dpos", type=float, nargs=2, default=[0.06, 0.06])
    p.add_argument("--bandlist", type=str, nargs="*", default=["F200W"])
    p.add_argument("--pix_dtype", type=str, default="float32")
    p.add_argument("--store_directory", type=str, default="")
    p.add_argument("--pixelstorefile", type=str, default=None)
    p.add_argument("--psfstorefile", type=str, default="psf.h5")
    return E.adapt(p)


def style(I, key, vals, multi):
    opts = ["space", "abbrev"] + ([] if multi else ["equals"])
    s = I.choose("style_" + key, opts)
    if s == "space":
        return ["--" + key] + vals
    if s == "equals":
        return ["--%s=%s" % (key, vals[0])]
    return ["--" + key[:-1]] + vals


def h_parse_all(I, keys, order):
    with Env(I) as E:
        p = myparser(E)
        want = {k: p.get_default(k) for k in ("max_snr", "gtol", "n_sig_flux", "rhalf_range", "dpos", "bandlist")}
        lines, argv = ["extra: %s" % E.yaml(E.new("extra")), "nothing:"], []
        usefile = False
        for k in keys:
            where = I.choose("where_" + k, ["default", "file", "cli", "both"])
            multi = k in PAIRS
            if where in ("file", "both"):
                usefile = True
                if k == "bandlist":
                    lines += ["bandlist:", "  - A", "  - B"]
                    want[k] = ["A", "B"]
                elif multi:
                    n = [E.new(k + "_y%d" % i) for i in range(2)]
                    lines += [k + ": [%s]" % ", ".join(E.yaml(x) for x in n)]
                    want[k] = [E.v[x] for x in n]
                else:
                    n = E.new(k + "_y")
                    lines += [k + ": " + E.yaml(n)]
                    want[k] = E.v[n]
            if where in ("cli", "both"):
                if k == "bandlist":
                    argv += style(I, k, ["C", "D", "E"], True)
                    want[k] = ["C", "D", "E"]
                elif multi:
                    n = [E.new(k + "_c%d" % i) for i in range(2)]
                    argv += style(I, k, [E.cli(x) for x in n], True)
                    want[k] = [E.v[x] for x in n]
                else:
                    n = E.new(k + "_c")
                    argv += style(I, k, [E.cli(n)], False)
                    want[k] = E.v[n]
        if usefile or I.choose("emptyfile", [False, True]):
            path = E.write(lines)
            argv = (["--config_file", path] + argv) if order else (argv + ["--config_file=" + path])
            want["extra"] = E.v["extra"]
            want["config_file"] = path
        else:
            p.set_defaults(config_file=None)
        cfg = C.parse_all(p, ["prog"] + argv)
        for k, w in want.items():
            same(I, getattr(cfg, k), w, "%s comes from the command line, else the file, else the defaults" % k)
        I.true(cfg.pix_dtype is np.float32, "dtype names become numpy types")
        for k in ("rhalf_range", "dpos", "n_sig_flux"):
            if want[k] is None:
                I.true(k not in cfg.bounds_kwargs, "options that are not set are not bounds options")
            else:
                same(I, cfg.bounds_kwargs[k], want[k], "bounds option %s is the configured value" % k)
        I.true(set(cfg.bounds_kwargs) <= {"rhalf_range", "dpos", "n_sig_flux"}, "no other bounds options")
        d = p.parse_args([])
        same(I, d.max_snr, 7.0, "parser defaults are left as they were")
        I.true(d.rhalf_range == [0.03, 1.0] and d.bandlist == ["F200W"], "parser defaults are left as they were")


def h_default_file(I):
    """the file named by the parser's default is used unless one is given"""
    with Env(I) as E:
        p = myparser(E)
        a, b = E.new("a"), E.new("b")
        path = E.write(["max_snr: " + E.yaml(a)])
        p.set_defaults(config_file=path)
        argv = ["prog"]
        want = E.v[a]
        if I.choose("given", [False, True]):
            p2 = os.path.join(E.tmp.name, "other.yml")
            with open(p2, "w") as f:
                f.write("max_snr: " + E.yaml(b) + "\n")
            argv += ["--config_file", p2]
            want = E.v[b]
        cfg = C.parse_all(p, argv)
        same(I, cfg.max_snr, want, "settings come from the configuration file in force")


def h_stores(I):
    with Env(I) as E:
        p = myparser(E)
        argv, lines = [], []
        sd, px, ps = "", None, "psf.h5"
        w = I.choose("dir", ["no", "file", "cli"])
        if w != "no":
            sd = I.choose("dirname", ["stores", "$VFBASE/stores", "/abs/st"])
            if w == "file":
                lines += ["store_directory: " + sd]
            else:
                argv += ["--store_directory=" + sd]
        w = I.choose("px", ["no", "file", "cli"])
        if w != "no":
            px = I.choose("pxname", ["pix.h5", "${VFBASE}.h5"])
            if w == "file":
                lines += ["pixelstorefile: " + px]
            else:
                argv += ["--pixelstorefile", px]
        w = I.choose("ps", ["no", "cli"])
        if w != "no":
            ps = "sub/psf2.h5"
            argv += ["--psfstorefile", ps]
        lines += ["metastorefile: m.json", "outbase: $VFBASE/out", "unset: $VF_NOT_SET/x", "number: 3"]
        cfg = C.parse_all(p, ["prog", "--config_file", E.write(lines)] + argv)

        def ex(s):
            return s.replace("${VFBASE}", "/base/dir").replace("$VFBASE", "/base/dir")

        def pth(n):
            return n if n is None else ex(sd + "/" + n if sd else n)
        same(I, cfg.pixelstorefile, pth(px), "pixel store is placed in the store directory once")
        same(I, cfg.psfstorefile, pth(ps), "psf store is placed in the store directory once")
        same(I, cfg.metastorefile, pth("m.json"), "metadata store is placed in the store directory once")
        same(I, cfg.store_directory, ex(sd), "store directory is kept, variables expanded")
        same(I, cfg.outbase, "/base/dir/out", "shell variables are expanded")
        same(I, cfg.unset, "$VF_NOT_SET/x", "unknown variables are left alone")
        I.true(cfg.number == 3, "numbers are kept")


def h_read(I, asdict):
    """read_config: file (or dictionary) with optional overriding namespace"""
    with Env(I) as E:
        n = [E.new("f%d" % i) for i in range(4)]
        m = [E.new("n%d" % i) for i in range(2)]
        want = dict(max_snr=E.v[n[0]], gtol=E.v[n[1]], pa_range=[E.v[n[2]], E.v[n[3]]], note="x/$VFBASE")
        if asdict:
            src = dict(want, pa_range=list(want["pa_range"]), meta_dtype="float64")
        else:
            src = E.write(["max_snr: " + E.yaml(n[0]), "gtol: " + E.yaml(n[1]), "pa_range: [%s, %s]" % (E.yaml(n[2]), E.yaml(n[3])),
                           "note: x/$VFBASE", "meta_dtype: float64"])
        args = None
        if I.choose("args", [False, True]):
            args = argparse.Namespace(gtol=None)
            for k, x in zip(("max_snr", "new"), m):
                if I.choose("has_" + k, [False, True]):
                    setattr(args, k, E.v[x])
                    want[k] = E.v[x]
        want["note"] = "x//base/dir"
        cfg = C.read_config(src, args)
        for k, w in want.items():
            same(I, getattr(cfg, k), w, "%s is the argument where given, else the file's value" % k)
        I.true(cfg.meta_dtype is np.float64, "dtype names become numpy types")
        I.true(set(vars(cfg)) == set(want) | {"meta_dtype", "bounds_kwargs"}, "no setting appears or disappears")
        I.true(list(cfg.bounds_kwargs) == ["pa_range"], "bounds options are those configured")
        if asdict:
            I.true(src["note"] == "x/$VFBASE" and type(src["pa_range"]) is list, "the dictionary given is not changed")


def h_update(I, n):
    """update_config over arbitrary presence patterns"""
    base, over, want = argparse.Namespace(), argparse.Namespace(), {}
    for i in range(n):
        k = "k%d" % i
        w = I.choose("w%d" % i, ["base", "over", "both", "none-over"])
        if w != "over":
            setattr(base, k, I.real("b%d" % i))
            want[k] = getattr(base, k)
        if w in ("over", "both"):
            setattr(over, k, I.real("o%d" % i))
            want[k] = getattr(over, k)
        if w == "none-over":
            setattr(over, k, None)
    keep = dict(vars(over))
    out = C.update_config(base, over)
    I.true(set(vars(out)) == set(want), "exactly the settings of both namespaces")
    for k, v in want.items():
        I.eq(getattr(out, k), v, "overriding values win, other values are kept")
    for k, v in keep.items():
        if v is not None:
            I.eq(getattr(over, k), v, "the overriding namespace is not changed")
    I.true(C.update_config(base, None) is base, "nothing to override")


def h_bounds(I, fields):
    cfg = argparse.Namespace(other=I.real("other"))
    want = {}
    for f in fields:
        w = I.choose("w_" + f, ["absent", "none", "set"])
        if w == "none":
            setattr(cfg, f, None)
        if w == "set":
            want[f] = I.real(f)     # any value, zero included
            setattr(cfg, f, want[f])
    got = C.make_bounds_kwargs(cfg)
    I.true(set(got) == set(want), "bounds options are those that are set, and only those")
    for k, v in want.items():
        I.eq(got[k], v, "bounds options have the configured values")
    import inspect
    from forcepho.superscene import make_bounds
    I.true(set(got) <= set(inspect.signature(make_bounds).parameters), "every bounds option is understood by make_bounds")


def h_main(I, FITS, key):
    """the distributed parser: each option overrides the file, for numbers, ranges"""
    with Env(I) as E:
        p = E.adapt(C.main_config_parser(FITS=FITS))
        p.add_argument("--config_file", type=str, default=None)
        a = [x for x in p._actions if x.dest == key][0]
        n = 2 if a.nargs == 2 else 1
        y, c = [[E.new(t + str(i)) for i in range(n)] for t in "yc"]
        lines, argv = ["other: 3"], []
        where = I.choose("where", ["default", "file", "cli", "both"])
        want = a.default
        pack = (lambda v: v) if n == 2 else (lambda v: v[0])
        if where in ("file", "both"):
            lines += ["%s: %s" % (key, "[%s]" % ", ".join(map(E.yaml, y)) if n == 2 else E.yaml(y[0]))]
            want = pack([E.v[x] for x in y])
        if where in ("cli", "both"):
            argv = ["--" + key] + [E.cli(x) for x in c]
            want = pack([E.v[x] for x in c])
        cfg = C.parse_all(p, ["prog"] + argv + ["--config_file", E.write(lines)])
        same(I, getattr(cfg, key), want, "%s comes from the command line, else the file, else the defaults" % key)
        for x in p._actions:
            if x.dest in (key, "help", "config_file") or "dtype" in x.dest:
                continue
            w = x.default
            same(I, getattr(cfg, x.dest), w, "settings that are not given keep their defaults")
        if key in PAIRS:
            same(I, cfg.bounds_kwargs[key], want, "bounds options follow the same value")


def h_template(I, FITS):
    """the default configuration file reads back as the defaults"""
    with Env(I) as E:
        path = os.path.join(E.tmp.name, "default.yml")
        txt = C.default_config_file(path, FITS=FITS)
        p = C.main_config_parser(FITS=FITS)
        p.add_argument("--config_file", type=str)
        c1 = C.parse_all(p, ["prog", "--config_file", path])
        c0 = C.rectify_config(p.parse_args([]))
        for k, v in vars(c0).items():
            if k in ("config_file", "bounds_kwargs"):
                continue
            same(I, getattr(c1, k), list(v) if isinstance(v, np.ndarray) else v, "the default file holds the default %s" % k)
        x = I.real("probe")
        I.eq(x, x, "reached")


FN = ("parse_all", "new_args", "update_config", "yaml_to_namespace", "rectify_config", "make_bounds_kwargs", "read_config",
      "main_config_parser", "default_config_file")


def harnesses(tier):
    th = tier == "thorough"
    sets = [("max_snr", "rhalf_range"), ("gtol", "bandlist"), ("n_sig_flux", "dpos")]
    if th:
        sets += [("max_snr", "gtol", "rhalf_range"), ("n_sig_flux", "dpos", "max_snr")]
    fl = ["max_snr", "sqrtq_range", "pa_range", "rhalf_range", "sersic_range", "dpos", "gtol", "buffer_size", "patch_maxradius"]
    return [
        Harness("parse_all", h_parse_all, [dict(keys=k, order=o) for k in sets for o in (0, 1)], functions=FN, max_paths=4000, validate=2,
                bounds="2 options at a time (3 thorough), each in file and (or) command line or neither, three ways of writing an option, symbolic values"),
        Harness("default_file", h_default_file, functions=FN, bounds="file given or default"),
        Harness("stores", h_stores, functions=FN, bounds="store directory and store files from file, command line or nowhere", validate=2),
        Harness("read", h_read, [dict(asdict=a) for a in (False, True)], functions=FN, bounds="any values; namespaces with any subset of two settings"),
        Harness("update", h_update, [dict(n=3)], functions=("update_config",), bounds="3 settings, any presence pattern, any values", validate=2),
        Harness("bounds", h_bounds, [dict(fields=("sqrtq_range", "sersic_range", "rhalf_range", "pa_range")), dict(fields=("dpos", "n_sig_flux", "n_pix", "pixscale"))],
                functions=("make_bounds_kwargs",), bounds="any presence pattern, any values", validate=2),
        Harness("main", h_main, [dict(FITS=f, key=k) for k in fl for f in ((True, False) if th else (True,))], functions=FN,
                bounds="each numeric option of the distributed parser", validate=2),
        Harness("template", h_template, [dict(FITS=f) for f in (True, False)], functions=FN, bounds="both parsers"),
    ]


ASSUMPTIONS = ["argparse and yaml themselves are executed, not modelled; numbers enter as symbols where argparse converts an argument or yaml builds a scalar"]
