#!/usr/bin/env python3
"""Regenerate MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + "/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/not_applicable.json")) if os.path.exists(V + "/not_applicable.json") else {}
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                            "technique": c["technique"], "level": c["level"], "level_note": c["level_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
