#!/usr/bin/env python3
"""mutants.py OUT PROPS FILE...: makes every small change tools/mutate lists for the files in scratch copies, keeps
those that build and pass the stable tests, and runs the checks on them. Prints survivors. For development only."""
import json, os, subprocess, sys, threading, queue, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, props, files = sys.argv[1], sys.argv[2].split(","), sys.argv[3:]
N = int(os.environ.get("MUTW", "6"))
base = json.load(open("/opt/vp/BASELINE.json"))
base = set(base if isinstance(base, list) else base.get("passed") or base.get("stable"))
muts = []
# MUTSKIP=file:from-to,… leaves lines out
SKIP = {f"{r.split(':')[0]}:{i}" for r in os.environ.get("MUTSKIP", "").split(",") if r for i in range(int(r.split(":")[1].split("-")[0]), int(r.split("-")[-1]) + 1)}
for l in subprocess.run(["/tmp/mutate"] + files, cwd="/repo", capture_output=True, text=True).stdout.splitlines():
    m = json.loads(l)
    if f"{m['file']}:{m['line']}" not in SKIP: muts.append(m)
ENV = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
ov = json.load(open("/opt/vp/overlay.json"))
LEFT = r'^github.com/madkins23/go-slog/(cmd/server|creator/(chanchalzap|snqkmeld|svcrunnerjsonlog)|internal/scoring(/(filter|group|keeper))?)$'
def worker(k, q, res):
    d = f"/tmp/mut/w{k}"
    subprocess.run(f"rm -rf {d}; mkdir -p /tmp/mut; cp -a /repo {d}", shell=True, check=True)
    json.dump({"Replace": {p.replace("/repo/", d + "/"): v for p, v in ov["Replace"].items()}}, open(f"/tmp/mut/ov{k}.json", "w"))
    pk = subprocess.run(f"go list -e ./... | grep -vE '{LEFT}'", shell=True, cwd=d, env=ENV, capture_output=True, text=True).stdout.split()
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        p = d + "/" + m["file"]
        src = open(p, "rb").read()
        open(p, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["off"] + len(m["old"].encode()):])
        try:
            r = subprocess.run(["go", "test", "-p", "2", "-json", "-vet=off", "-count=1", "-timeout", "60s", "-overlay", f"/tmp/mut/ov{k}.json"] + pk, cwd=d, env=ENV, capture_output=True, text=True, timeout=240)
            passed = set()
            bf = "[build failed]" in r.stdout
            for l in r.stdout.splitlines():
                try: e = json.loads(l)
                except Exception: continue
                if e.get("Action") == "pass" and e.get("Test"):
                    passed.add(e["Package"] + "::" + e["Test"])
            res.append((m, bf, passed))
        except subprocess.TimeoutExpired:
            res.append((m, False, set()))
        finally:
            open(p, "wb").write(src)
q = queue.Queue(); res = []
q.put({"file": files[0], "off": 0, "old": "", "new": "", "line": 0, "kind": "none"})
for m in muts: q.put(m)
ts = [threading.Thread(target=worker, args=(k, q, res)) for k in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
ref = [r for r in res if r[0]["kind"] == "none"][0][2]
surv = [r[0] for r in res if r[0]["kind"] != "none" and not r[1] and not (ref - r[2])]
print(f"{len(muts)} changes, {sum(r[1] for r in res)} do not build, {len(surv)} pass the tests ({len(ref)} ids)", flush=True)
surv.sort(key=lambda m: (m["file"], m["off"]))
V = "/tmp/mut/verif-" + os.path.basename(out)
subprocess.run(f"rm -rf {V}; mkdir -p {V}; cp -a {here}/bin {here}/harness {here}/checks {here}/known_findings.json {V}/", shell=True, check=True)
D = f"/tmp/mut/c-" + os.path.basename(out)
subprocess.run(f"rm -rf {D}; cp -a /repo {D}", shell=True, check=True)
with open(out, "w") as f:
    for m in surv:
        p = D + "/" + m["file"]
        src = open(p, "rb").read()
        open(p, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["off"] + len(m["old"].encode()):])
        caught = None; notes = []
        for pr in props:
            r = subprocess.run([V + "/bin/gosym", "-prop", pr, "-repo", D, "-verif", V], capture_output=True, text=True, env=dict(ENV, GOSYM_FIRST="1"))
            if r.returncode == 1: caught = pr; break
            if r.returncode not in (0, 1) or "MISMATCH" in r.stdout or "UNCONFIRMED" in r.stdout or "UNDECIDED" in r.stdout: notes.append(pr + ":" + str(r.returncode) + " " + (r.stdout + r.stderr)[:200])
        open(p, "wb").write(src)
        ln = src[:m["off"]].count(b"\n") + 1
        f.write(json.dumps({**m, "caught": caught, "notes": notes, "text": src.decode().splitlines()[ln - 1].strip()}) + "\n"); f.flush()
        if not caught:
            print("SURVIVES", m["file"], ln, m["kind"], repr(m["old"][:60]), "->", repr(m["new"][:60]), "|", src.decode().splitlines()[ln - 1].strip()[:100], notes, flush=True)
    print("done", flush=True)
subprocess.run(f"rm -rf {D} {V}", shell=True)
