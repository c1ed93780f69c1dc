"""MANIFEST.json from the checks present (run after adding a check)."""
import json, os
props = [json.loads(l) for l in open("properties.jsonl")]
NOTE = {
 "C01": "Kernel lowered to LLVM IR from the working tree and executed symbolically; residual and chi2 terms decided equal to the documented model (rational normal form + z3) for all values, listed shapes.",
 "C02": "As C01; derivative terms decided equal to the exact derivative of the specified chi2.",
 "C03": "As C01 with every load/store bounds-checked; both sides of the cutoff explored; replay on the native extension behind guard pages.",
}
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("checks/%s.py" % i.lower()):
        checks.append(dict(property=i, quick_cmd="bash run.sh %s quick" % i, thorough_cmd="bash run.sh %s thorough" % i,
            technique="symbolic execution of the real code with SMT (z3) deciding every path condition and assertion; counterexamples replayed on the unmodified code",
            level="model_checking",
            level_note=NOTE.get(i, "Real Python functions executed on z3 terms; all values within the bounds in the evidence file, sizes and option combinations enumerated; floats modelled as reals.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open("MANIFEST.json", "w"), indent=1)
