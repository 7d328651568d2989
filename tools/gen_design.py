#!/usr/bin/env python3
"""Writes DESIGN.md: head, bounds (from the harness sources), tail, planted bugs."""
import re, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(V + "/tools/design_head.md").read()
out += "\n## 3. Harnesses and bounds\n\nGenerated from the `sym.Bound` statements by tools/gen_design.py (in brackets: thorough).\n\n"
SB = re.search(r'sizedBound += "([^"]*)"|const sizedBound = "([^"]*)"', open(V + '/harness/h/sized.go').read()).group(2) or ''
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
src = {}
for f in sorted(glob.glob(V + "/harness/h/*.go")):
    for m in re.finditer(r'^func (C\d\d)_(\w+)\(\).*?^}', open(f).read(), re.M | re.S):
        src.setdefault(m.group(1), []).append((m.group(2), m.group(0)))
for p in props:
    out += "* **%s** (harnesses %s)\n" % (p, ", ".join(n for n, _ in src[p]))
    seen = set()
    for n, s in src[p]:
        for m in re.finditer(r'sym\.Bound\("([^"]*)", "((?:[^"\\]|\\.)*)"', s.replace('sizedBound)', '"%s")' % SB).replace('sizedBound+"', '"' + SB)):
            t = (m.group(1), json.loads('"' + m.group(2) + '"'))
            if t not in seen:
                seen.add(t)
                out += "  - %s: %s\n" % t
out += open(V + "/tools/design_tail.md").read()
out += "\n## 5. Planted bugs\n\nEach was written from the property text and the code, confirmed to build, pass the tests and fail its\ndemonstration, and run through its property's check (`tools/seedrun.sh`).\n\n| planted bug | property | caught | harness |\n|---|---|---|---|\n"
res = {}
if os.path.exists(V + "/tools/seed_results.txt"):
    for l in open(V + "/tools/seed_results.txt"):
        w = l.split()
        if len(w) >= 3 and w[2].startswith("rc="):
            res[w[0]] = ("yes" if w[2] == "rc=1" else "no", w[4] if len(w) > 4 else "")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    c = res.get(d, ("not run", ""))
    out += "| %s: %s | %s | %s | %s |\n" % (d, m["what_it_breaks"], m["property"], c[0], c[1])
if os.path.exists(V + "/tools/design_end.md"):
    out += open(V + "/tools/design_end.md").read()
open(V + "/DESIGN.md", "w").write(out)
