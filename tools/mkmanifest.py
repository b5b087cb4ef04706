#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a harness file, not_applicable for the others."""
import json, os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {}
exec(open(os.path.join(here, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
have = set()
for d, _, fs in os.walk(os.path.join(here, "harness")):
    for f in fs:
        m = re.match(r"zz_vf_(c\d\d)", f)
        if m: have.add(m.group(1).upper())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique="symbolic execution of the real code's SSA (rebuilt from /repo), assertions and branches decided by SMT (z3), counterexamples replayed natively",
            level="model_checking",
            level_note=NOTES.get(i, "Bounded: holds for every value within the bounds stated in the harness and the evidence; trusts go/ssa, the interpreter in engine/ and z3; sampled paths are replayed against the real code.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
