"""python -m vf.driver <property> [tier]"""
import importlib
import json
import os
import sys
import time
import traceback

from . import boot
from . import sym as S
from . import harness as H

KNOWN = os.path.join(boot.VERIF, "known_findings.jsonl")


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                out.append(d)
    return out


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        if isinstance(x, dict):
            return {str(k): jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [jsonable(v) for v in x]
        return repr(x)


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    setup_error = mod = None
    try:
        mod = importlib.import_module("checks.%s" % pid.lower())
        harnesses = mod.harnesses(tier)
    except (ImportError, AttributeError, KeyError, NameError, TypeError) as e:
        # a name the harnesses are built on is gone: nothing can be decided
        harnesses, setup_error = [], traceback.format_exc()[-2000:]
    budget = getattr(mod, "BUDGET", {"quick": 500, "thorough": 3000})[tier]
    only = os.environ.get("VF_ONLY")
    if only:
        harnesses = [h for h in harnesses if only in h.name]
    results = H.run_all(harnesses, seed, budget) if harnesses else []
    tot = S.Stats()
    viol = None
    per = {}
    errors = [setup_error] if setup_error else []
    validated = 0
    samples = []
    for r in results:
        st = S.Stats()
        st.__dict__.update(r["stats"])
        tot.merge(st)
        validated += r["validated"]
        p = per.setdefault(r["harness"], dict(cases=0, paths=0, completed=0, exhausted=True, limits=[], wall=0.0))
        p["cases"] += 1
        p["wall"] += round(r.get("wall", 0), 2)
        if r["result"]:
            p["paths"] += r["result"]["paths"]
            p["completed"] += r["result"]["completed"]
            p["exhausted"] &= r["result"]["exhausted"]
            p["limits"] += r["result"]["limits"][:3]
            if len(samples) < 5:
                samples.append(dict(harness=r["harness"], case=jsonable(r["case"]), paths=r["result"]["paths"],
                                    completed=r["result"]["completed"]))
        if r["error"]:
            errors.append("%s %s: %s" % (r["harness"], r["case"], r["error"]))
        if r["violation"] and viol is None:
            viol = (r["harness"], r["violation"])
    hs = {h.name: h for h in harnesses}
    vac = [n for n, p in per.items() if p["completed"] == 0]
    incon = sorted(set(tot.inconclusive))[:20]
    known = load_known(pid)
    rc = 0
    nviol = 0
    lines = []
    if viol is not None:
        hn, v = viol
        rdir = os.path.join(boot.VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % pid)
        json.dump(dict(property=pid, harness=hn, case=jsonable(v["case"]), inputs=jsonable(v["inputs"]),
                       label=v["label"], detail=v["detail"],
                       how="bash %s/run.sh replay %s" % (boot.VERIF, path)), open(path, "w"), indent=1)
        k = [d for d in known if d["harness"] == hn and d["label"] in v["label"]]
        if k:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
        else:
            nviol = 1
            rc = 1
            lines.append("harness %s: %s -- %s" % (hn, v["label"], v["detail"]))
            lines.append("case %s inputs %s" % (jsonable(v["case"]), jsonable(v["inputs"])))
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    ev = dict(
        property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"),
        coverage=dict(
            states=tot.paths, transitions=tot.branches, traces_validated_against_impl=validated,
            samples=samples or [dict(violation=bool(viol))],
            solver_queries=tot.queries, solver_unsat=tot.unsat, solver_sat=tot.sat, solver_unknown=tot.unknown,
            solver_seconds=round(tot.solver_s, 2), obligations=tot.obligations, discharged=tot.discharged,
            functions_encoded={h.name: list(h.functions) for h in harnesses},
            bounds={h.name: h.bounds for h in harnesses},
            per_harness=per, vacuous=vac, inconclusive=incon,
            not_reproduced_by_real_code=sorted(set(tot.spurious))[:20],
            concretised_reads=sorted(set(tot.concretised))[:20], engine_errors=errors[:5],
            exhaustive=bool(per) and all(p["exhausted"] and not p["limits"] for p in per.values()) and not incon and not errors,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
            "floating point is modelled by exact real arithmetic; rounding is outside the claim",
            "transcendental functions are uninterpreted with algebraic axioms",
            "only the listed sizes and value ranges are claimed"],
        wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(boot.VERIF, "evidence", "%s.json" % pid), "w"), indent=1)
    for n, p in sorted(per.items()):
        print("%-28s cases %3d paths %5d completed %5d exhausted %s limits %d wall %.1f" %
              (n, p["cases"], p["paths"], p["completed"], p["exhausted"], len(p["limits"]), p["wall"]))
        for l in sorted(set(p["limits"]))[:4]:
            print("    limit:", l)
    print("obligations %d discharged %d queries %d (unsat %d sat %d unknown %d) solver %.1fs validated %d wall %.1fs" % (
        tot.obligations, tot.discharged, tot.queries, tot.unsat, tot.sat, tot.unknown, tot.solver_s, validated, time.time() - t0))
    for i in incon:
        print("INCONCLUSIVE", i)
    for i in sorted(set(tot.spurious))[:10]:
        print("NOT-REPRODUCED", i)
    for i in sorted(set(tot.concretised))[:10]:
        print("CONCRETISED", i)
    for n in vac:
        print("VACUOUS harness", n)
    for e in errors[:3]:
        print("ENGINE-ERROR", e)
    for l in lines:
        print(l)
    return rc


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module("checks.%s" % d["property"].lower())
    for tier in ("quick", "thorough"):
        for h in mod.harnesses(tier):
            if h.name == d["harness"]:
                eng = H.Engine(h)
                r = eng.replay(d["inputs"], d["case"])
                print("replay:", r if r else "property holds on this input")
                return 1 if r else 0
    print("harness not found")
    return 3


if __name__ == "__main__":
    sys.exit(main())
