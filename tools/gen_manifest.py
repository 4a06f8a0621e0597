#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the implemented rules and the table of properties that are not claimed."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.manifest_data import TECH, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "analysis/rules", p.lower() + ".py")) and p in TECH:
        tech, note = TECH[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check has been built for this property yet; it is not claimed")})
m = {"version": 1, "setup_cmd": "python3 -m analysis.facts", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
