#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, vlib

ids = [json.loads(l)["id"] for l in open(os.path.join(vlib.VERIF, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 tools/check.py setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 tools/check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % i,
            "technique": p.get("technique", props.TECH), "level": p.get("level", "model_checking"),
            "level_note": p.get("note", props.NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(vlib.VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
