#!/usr/bin/env python3
"""mkseed.py FILE...: writes seeded/<id>/ from a description (see the dict fields below).
The description is Python: SEED = dict(id, prop, needs, breaks, edits=[(file, old, new)], pkg, demo)."""
import os, subprocess, sys, json, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
DEMO = '''#!/bin/bash
# Exit 0 when the behaviour is right, nonzero when it is broken. Run in the repository.
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$d/demo_test.go.txt" >"$t/overlay.json"
go test -overlay "$t/overlay.json" -vet=off -count=1 %(flags)s-run '^TestDemo' ./%(pkg)s
'''
STUB = """mkdir "$t/meld"
printf 'module snqk.dev/slog/meld\\n' >"$t/meld/go.mod"
printf 'package meld\\nimport "log/slog"\\nfunc NewHandler(h slog.Handler) slog.Handler { return h }\\n' >"$t/meld/meld.go"
cp go.mod go.sum "$t"
go mod edit -replace "snqk.dev/slog/meld=$t/meld" "$t/go.mod"
"""
def make(s):
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    for f, old, new in s["edits"]:
        p = W + "/" + f
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = here + "/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", W, "diff"], check=True, capture_output=True, text=True).stdout)
    demo = DEMO % {"pkg": s["pkg"], "flags": s.get("flags", "")}
    if s.get("stub"):
        demo = demo.replace("go test ", STUB + 'go test -modfile="$t/go.mod" ')
    open(d + "/demo.sh", "w").write(demo)
    open(d + "/demo_test.go.txt", "w").write(s["demo"].strip() + "\n")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    subprocess.run(["gofmt", "-l", W], check=True)

if not os.path.isdir(W):
    subprocess.run(["cp", "-a", "/repo", W], check=True)
else:
    subprocess.run("git -C /repo rev-parse HEAD | xargs git -C %s checkout -q -f 2>/dev/null || (rm -rf %s && cp -a /repo %s)" % (W, W, W), shell=True, check=True)
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for s in ns["SEEDS"]:
        make(s)
        print("wrote", s["id"])
