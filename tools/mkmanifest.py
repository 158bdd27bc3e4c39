#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when engine/checks/pXX.py exists, otherwise it is listed under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    t = T[i]
    if os.path.exists(os.path.join(V, "engine", "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 engine/check.py " + i, "thorough_cmd": "python3 engine/check.py %s --thorough" % i,
                       "technique": t["technique"], "level": t.get("level", "other"), "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": t.get("na", "not claimed yet: its analysis is being built")})
json.dump({"version": 1, "setup_cmd": "python3 engine/dump.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
