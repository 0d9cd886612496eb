#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have a check (props/cNN.py)."""
import importlib, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
sys.dont_write_bytecode = True
NA = {}
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(root, "props", p.lower() + ".py")):
        m = importlib.import_module("props." + p.lower()).PROP
        checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": m.technique,
                       "level": "exploration", "level_note": m.level_note})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check has been built yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt -B -m vf.build", "checks": checks, "not_applicable": na,
           "notes": "Built without hooks: the drivers in c/ compile /repo's sources as they are. The tier is taken from VERIF_TIER."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
