#!/usr/bin/env python3
"""writes MANIFEST.json from props.json"""
import json
P = json.load(open("/verif/props.json"))
checks = []
for k, p in P["properties"].items():
    checks.append({
        "property": k,
        "quick_cmd": "python3 check.py %s quick" % k,
        "thorough_cmd": "python3 check.py %s thorough" % k,
        "technique": p["technique"], "level": p["level"], "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": checks,
     "not_applicable": [{"property": k, "reason": r} for k, r in P["not_applicable"].items()],
     "notes": P.get("notes", "")}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
