#!/usr/bin/env python3
"""addcheck.py ID level units(comma) technique | rule | quick-bounds | thorough-bounds | level_note | assumption;assumption"""
import json, sys, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = V + "/checks.json"
cfg = json.load(open(f)) if os.path.exists(f) else {}
i, level, units = sys.argv[1:4]
tech, rule, qb, tb, note, ass = [x.strip() for x in sys.argv[4].split("|")]
us = []
for u in units.split(","):
    t, _, v = u.partition("@")
    d = {"target": "bin/" + t}
    if v: d["variant"] = v
    us.append(d)
old = cfg.get(i, {})
cfg[i] = {"level": level, "technique": tech, "rule": rule, "bounds": {"quick": qb, "thorough": tb}, "level_note": note,
          "assumptions": [a.strip() for a in ass.split(";") if a.strip()], "units": us}
json.dump(dict(sorted(cfg.items())), open(f, "w"), indent=1)
subprocess.call([sys.executable, V + "/tools/manifest.py"])
