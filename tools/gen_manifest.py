#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks and the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "analysis"))
import checks
checks.load()
AI = "abstract interpretation of MIR (symbolic terms, trace partitioning)"
TECH = {}
NOTE = {}
exec(open(os.path.join(HERE, "tools", "manifest_notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 analysis/facts.py", "checks": [], "not_applicable": [],
     "notes": "Every check re-extracts the type-checked program from /repo's working tree (rustc driver, cached by content hash) and decides its property from it. No code of /repo is executed."}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
    elif i in checks.REG:
        m["checks"].append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i, "evidence_file": "evidence/%s.json" % i,
                            "technique": TECH.get(i, AI), "level": "other", "level_note": NOTE.get(i, "Static analysis of every function and path the rule names; trusts the driver's MIR facts and the models of std functions.")})
    else:
        m["not_applicable"].append({"property": i, "reason": "the static rule for this property is still being built; not claimed"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not claimed")
