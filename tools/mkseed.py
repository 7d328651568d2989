#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: makes planted bugs from a spec file (a list S of
dicts with id, property, needs, breaks, edits=[(file, old, new)], demo) and
keeps those that build, pass the tests and whose demonstration tells the two
trees apart. Works in a scratch copy of /repo."""
import sys, os, subprocess, json, shutil, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exits non-zero if the property is broken in the tree of the current directory
D="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
O="$(mktemp)"
trap 'unlink "$O"' EXIT
printf '{"Replace":{"%s/%szz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "PKGDIR" "$D" >"$O"
go test FLAGS-timeout 120s -overlay "$O" -count=1 -run '^TestDemo$' ./PKGDIR
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
spec = runpy.run_path(sys.argv[1])["S"]
only = sys.argv[2:]
W = tempfile.mkdtemp(prefix="seed")
sh(f"cp -a /repo {W}/r", "/")
R = W + "/r"
base = json.load(open("/opt/vp/BASELINE.json"))
for s in spec:
    i = s["id"]
    if only and i not in only: continue
    sh("git checkout -q -- . && git clean -qfd", R)
    bad = None
    for f, old, new in s["edits"]:
        t = open(f"{R}/{f}").read()
        if t.count(old) != 1:
            bad = f"{f}: {t.count(old)} matches of {old!r}"; break
        open(f"{R}/{f}", "w").write(t.replace(old, new))
    if bad: print(i, "BAD", bad); continue
    d = f"{V}/seeded/{i}"
    D = W + "/" + i
    os.makedirs(D, exist_ok=True)
    open(D + "/demo.sh", "w").write(DEMO.replace("FLAGS", s.get("flags", "")).replace("PKGDIR", s.get("pkg", "")))
    os.chmod(D + "/demo.sh", 0o755)
    open(D + "/demo_test.go", "w").write(s["demo"].lstrip())
    sh(f"gofmt -w {D}/demo_test.go", "/")
    diff = sh("git diff", R).stdout
    open(D + "/patch.diff", "w").write(diff)
    env = ". /opt/vp/env.sh; export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off; "
    g = sh(env + "gofmt -l *.go locales/*.go | grep -v '^access.go$'; go vet . 2>&1 | grep -v '^#' | head -5; go test -count=1 ./... 2>&1", R)
    okb = "FAIL" not in g.stdout and "build failed" not in g.stdout and "ok" in g.stdout
    dm = sh(f"bash {D}/demo.sh", R)
    sh("git checkout -q -- . && git clean -qfd", R)
    dc = sh(f"bash {D}/demo.sh", R)
    ok = okb and dm.returncode != 0 and dc.returncode == 0 and "FAIL" in dm.stdout and "[build failed]" not in dm.stdout
    print(i, "KEPT" if ok else "REJECTED", "tests", okb, "demo patched", dm.returncode, "clean", dc.returncode)
    if not ok:
        print(g.stdout[-1500:] if not okb else dm.stdout[-600:] if dm.returncode == 0 or "build failed" in dm.stdout else dc.stdout[-800:])
        continue
    os.makedirs(d, exist_ok=True)
    for f in ("demo.sh", "demo_test.go", "patch.diff"):
        shutil.copy(D + "/" + f, d + "/" + f)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")
shutil.rmtree(W)
