#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the plan."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import plan
props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
NOTE = plan.NOTES
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    if p in plan.CLAIMED:
        m["checks"].append({
            "property": p,
            "quick_cmd": "python3 tools/check.py %s quick" % p,
            "thorough_cmd": "python3 tools/check.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": plan.TECHNIQUE.get(p, "TLA+ specification checked with TLC; traces of the real code validated against it"),
            "level": plan.LEVEL.get(p, "model_checking"),
            "level_note": NOTE[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": plan.UNCLAIMED.get(p, "check under construction")})
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
