#!/usr/bin/env python3
"""plant.py ID...: confirms planted bugs of /verif/seeded against /repo: applies, builds, passes the stable
tests, demo fails with it and passes without it; then runs the checks named in meta.json's property (or --props)."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, V = "/repo", here
if "--copy" in sys.argv:  # work in scratch copies, /repo stays as it is
    R, V = "/tmp/plantwt", "/tmp/plantverif"
    subprocess.run(f"rm -rf {R} {V}; cp -a /repo {R}; mkdir {V}; cp -a {here}/bin {here}/harness {here}/checks {here}/known_findings.json {V}/", shell=True, check=True)
LEFT = r'^github.com/madkins23/go-slog/(cmd/server|creator/(chanchalzap|snqkmeld|svcrunnerjsonlog)|internal/scoring(/(filter|group|keeper))?)$'
def tests():
    if R == "/repo":
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        return set(json.load(open("/tmp/plant.json")).get("passed", []))
    ov = json.load(open("/opt/vp/overlay.json"))
    json.dump({"Replace": {p.replace("/repo/", R + "/"): v for p, v in ov["Replace"].items()}}, open("/tmp/plantov.json", "w"))
    o = sh(f"export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off; go test -json -vet=off -count=1 -timeout 120s -overlay /tmp/plantov.json $(go list -e ./... | grep -vE '{LEFT}')")[1]
    res = set()
    for l in o.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and e.get("Test"): res.add(e["Package"] + "/" + e["Test"])
    return res
def sh(c, t=900):
    try:
        p = subprocess.run(c, shell=True, cwd=R, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"
base = json.load(open("/opt/vp/BASELINE.json"))
base = base if isinstance(base, list) else base.get("passed") or base.get("stable") or list(base)
fast = "--fast" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(here + "/seeded"))
assert sh("git status --porcelain")[1].strip() == "", "repo is dirty"
for i in ids:
    d = f"{here}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    res = []
    rc0, o0 = sh(f"bash {d}/demo.sh")
    res.append("demo-clean=" + str(rc0))
    rc, o = sh(f"git apply {d}/patch.diff")
    try:
        if rc:
            print(i, "DOES NOT APPLY", o[:300]); continue
        rc, o = sh("bash /opt/vp/build.sh") if R == "/repo" else (0, "")
        res.append("build=" + str(rc))
        if rc: print(o[-500:])
        if not fast:
            p = tests()
            miss = sorted(set(base) - p)
            res.append("missing=" + str(miss[:3]))
        rc1, o1 = sh(f"bash {d}/demo.sh")
        res.append("demo-patched=" + str(rc1))
        if rc1 == 0 or "build failed" in o1: print(o1[-500:])
        for prop in ([] if "--nocheck" in sys.argv else [meta["property"]]) + [a[2:] for a in sys.argv if a.startswith("--C")]:
            rc2, o2 = sh(f"{V}/bin/gosym -prop {prop} -repo {R} -verif {V}")
            v = [l for l in o2.splitlines() if l.startswith("VIOLATION")]
            res.append(f"{prop}: exit={rc2} " + ("CAUGHT" if rc2 == 1 and v else "MISSED " + o2[-300:]))
    finally:
        sh("git checkout -- .")
    if rc0: print(o0[-600:])
    print(i, *res, flush=True)
