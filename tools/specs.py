#!/usr/bin/env python3
"""Writes checks/*.json: which harness runs with which parameters for which property."""
import json, os, itertools
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}

def prod(*rs):
    return [list(t) for t in itertools.product(*rs)]

def spec(pid, package, cases, bounds, outside, assumptions=(), quick=120, thorough=780, race=False, patches=(), mains=(), steps=0):
    cs = []
    for c in cases:
        fn, args = c[0], c[1]
        d = {"fn": fn, "args": args}
        if len(c) > 2:
            d["thorough"] = c[2]
        if args is None:
            d = {"fn": fn, "args": c[2], "tier": "thorough"}
        cs.append(d)
    out[pid] = {"property": pid, "package": package, "cases": cs, "bounds": bounds, "outside": outside,
                "assumptions": list(assumptions), "quick_s": quick, "thorough_s": thorough, **({"race": True} if race else {}), **({"patches": list(patches)} if patches else {}), **({"mains": list(mains)} if mains else {}), **({"steps": steps} if steps else {})}

H = (0, 1)
exec(open(os.path.join(here, "tools", "specs_list.py")).read())

for pid, s in out.items():
    with open(os.path.join(here, "checks", pid + ".json"), "w") as f:
        f.write(json.dumps(s) + "\n")
for f in os.listdir(os.path.join(here, "checks")):
    if f[:-5] not in out:
        os.remove(os.path.join(here, "checks", f))
