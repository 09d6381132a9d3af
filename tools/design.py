#!/usr/bin/env python3
"""Writes the generated part of DESIGN.md: the properties with their bounds, the planted changes and the defects found."""
import json, os, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
from design_text import TEXT, LATE
props = [json.loads(l) for l in open(root / "properties.jsonl")]
manifest = json.load(open(root / "MANIFEST.json"))
na = {n["property"] if isinstance(n, dict) and "property" in n else n.get("id"): n for n in manifest.get("not_applicable", [])}
out = ["## Properties", "", "Generated by `tools/design.py` from `properties.jsonl`, `checks/*.json` and `tools/design_text.py`; the statements are in `properties.jsonl`.", ""]
for p in props:
    i = p["id"]
    out += [f"### {i}: {p['title']}", ""]
    if i in na:
        out += ["Not applicable: " + na[i].get("reason", ""), ""]
        continue
    c = json.load(open(root / "checks" / f"{i}.json"))
    fns = ", ".join(f"`{k['fn']}`" for k in c["cases"])
    t = TEXT[i]
    out += [f"*Harness*: `harness/{c['package']}`, {fns}.", "",
            f"*Decided how*: {t[0]}", "", f"*Oracle*: {t[1]}", "", f"*Beyond tests*: {p['why_tests_cant']}", "",
            f"*Bounds*: {c['bounds']}.", "", f"*Outside*: {c['outside'].rstrip('.')}."]
    if c["assumptions"]:
        out += ["", "*Assumed*: " + "; ".join(c["assumptions"]) + "."]
    out += ["", f"*Cost*: quick at most {c['quick_s']} s, thorough at most {c['thorough_s']} s of one machine with 8 cores.", ""]
out += ["## Planted changes", "", "Each is caught by the check of its property, as `tools/plant.py` shows; for those first missed it says what was added.", "",
        "| change | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    late = LATE.get(d.name, "")
    out.append("| {} | {} | {} | {} |".format(d.name, m["property"], (m["what_it_breaks"] + (f" (first missed: {late})" if late else "")).replace("|", "\\|"), m["needs"].replace("|", "\\|")))
k = json.load(open(root / "known_findings.json"))
out += ["", "## Defects found in go-slog", "", "Known findings (recorded, not repaired): " + ("none." if not k["findings"] else ""), ""]
out += [f"- {f}" for f in k["findings"]]
out += ["", "Repaired:", ""]
for f in k["fixed"]:
    w = f.replace("fixed: property=", "").split(" ", 2)
    out.append(f"- {w[0]}, {w[1]}: {w[2]}")
text = open(root / "DESIGN.md").read()
a, b = "<!-- generated -->", "<!-- end -->"
i, j = text.index(a), text.index(b)
open(root / "DESIGN.md", "w").write(text[:i + len(a)] + "\n" + "\n".join(out) + "\n" + text[j:])
