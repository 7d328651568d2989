#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
src = "".join(open(f).read() for f in glob.glob(V + "/harness/h/*.go"))
have = set(re.findall(r"^func (C\d\d)_\w+\(\)", src, re.M))
NA = {}
NOTES = {}
if os.path.exists(V + "/tools/level_notes.json"):
    NOTES = json.load(open(V + "/tools/level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "symbolic execution of the real Go code (SSA) with an SMT solver (z3) deciding every branch and assertion; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": NOTES.get(i, "Bounded: holds for every value within the input sizes the harness states (see evidence bounds and DESIGN.md).") +
              " Trusts: go/ssa, the gosym interpreter and its library models (sampled paths are re-run natively and compared), z3.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check is built for this property yet.")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "verifsym", "enable": "no hooks are needed: nothing in /repo is guarded", "source_commits": []},
     "notes": "Engine in engine/, property harnesses in harness/h, library models in harness/models; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not applicable")
