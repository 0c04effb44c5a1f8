#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import plan
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in plan.PLAN:
        na.append(dict(property=i, reason="machinery not built yet")); continue
    specs = sorted({r["spec"] for r in plan.PLAN[i]["runs"]})
    mods = sorted({m["module"] for m in plan.PLAN[i]["models"]})
    checks.append(dict(property=i,
        quick_cmd="python3 /verif/tools/check.py %s --tier quick" % i,
        thorough_cmd="python3 /verif/tools/check.py %s --tier thorough" % i,
        evidence_file="/verif/evidence/%s.json" % i,
        technique="TLA+ specification checked with TLC (%s) and TLC trace validation of recorded and specification-generated histories of the real code (%s)" % (", ".join(mods), ", ".join(specs)),
        level="model_checking",
        level_note=plan.PLAN[i].get("note", "")))
man = dict(version=1, setup_cmd="python3 /verif/tools/setup.py", checks=checks, not_applicable=na,
           notes="known findings and repaired defects: /verif/known_findings.txt; design: /verif/DESIGN.md")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1); f.write("\n")
