#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_list.py."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []

def prop(pid, title, statement, over, text, why, files, mechanism, observe, note=None, state=None, na=None):
    assert len(title) <= 80, title
    d = {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append((d, note, na))

exec(open(os.path.join(here, "tools", "props_list.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for d, note, why in P:
    if why:
        na.append({"property": d["id"], "reason": why})
        continue
    spec = json.load(open(os.path.join(here, "checks", d["id"] + ".json")))
    checks.append({"property": d["id"], "quick_cmd": "./run.sh " + d["id"], "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + d["id"],
        "technique": "symbolic execution of the Go SSA of the real code, assertions decided by an SMT solver",
        "level": "model_checking",
        "level_note": "Bounded: " + spec["bounds"] + ". Outside: " + spec["outside"] + ". " + (note or "") + " Trusts the SSA interpreter and its stand-ins for run-time functions, which are compared with the native build on sampled paths in every run; a counterexample is reported only after it reproduced natively."})
m = {"version": 1, "setup_cmd": "./run.sh --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
