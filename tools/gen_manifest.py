#!/usr/bin/env python3
"""Writes MANIFEST.json from the check registry and the list of properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sa"); sys.path.insert(0, V + "/sa/checks")
import run
reg = run.registry()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/tools/not_applicable.json"))
tech = json.load(open(V + "/tools/techniques.json"))
m = {"version": 1, "setup_cmd": "python3 sa/run.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in reg:
        t = tech[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 sa/run.py %s quick" % i, "thorough_cmd": "python3 sa/run.py %s thorough" % i,
                            "technique": t[0], "level": "other", "level_note": t[1]})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check built yet")})
assert set(reg) <= {p["id"] for p in props}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
