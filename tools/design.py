#!/usr/bin/env python3
"""regenerates DESIGN.md from tools/design_head.md, properties.jsonl, checks.json, tools/design_notes.json, seeded/ and known_findings.txt"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = json.load(open(V + "/checks.json"))
notes = json.load(open(V + "/tools/design_notes.json"))
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## Properties and how each is decided", ""]
for p in props:
    i = p["id"]; c = checks.get(i); n = notes["props"].get(i, {})
    out += ["### %s %s" % (i, p["title"]), "", p["statement"], ""]
    if not c:
        continue
    out += ["* **Decided by** (`%s`): %s." % (", ".join(sorted({u["target"].replace("bin/", "harness/") for u in c["units"]})), c["technique"]),
            "* **Explored**: %s." % c["rule"],
            "* **Bounds**: quick: %s. Thorough: %s." % (c["bounds"]["quick"], c["bounds"]["thorough"])]
    if n.get("cost"):
        out += ["* **Cost**: %s." % n["cost"]]
    out += ["* **Oracle and tolerance**: %s." % c["level_note"].rstrip("."),
            "* **Assumed**: %s." % "; ".join(c["assumptions"]),
            "* **Beyond the tests**: %s" % p["why_tests_cant"]]
    if n.get("narrow"):
        out += ["* **False alarms met and what became of them**:"] + ["  * %s" % x for x in n["narrow"]]
    if n.get("gap"):
        out += ["* **Not covered**: %s" % n["gap"]]
    out += [""]
out += ["## Planted bugs", "", "Each was confirmed with the demonstration beside it; 'caught' is the result of the quick check.", "",
        "| bug | property | needs | breaks | quick check |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); s = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["needs"], m["what_it_breaks"], notes["caught"].get(s, "caught")))
out += ["", notes["seeds_text"], "", "## Defects found in golems/amino", "",
        "Repaired ones are `fix:` commits in /repo, one per defect; recorded ones are listed with the key that identifies the failing history.", ""]
k = {}
for l in open(V + "/known_findings.txt"):
    if l.startswith(("fixed:", "known:")):
        kind, rest = l.strip().split(": ", 1)
        pid, txt = rest.split(" ", 1)
        k.setdefault(pid[9:], []).append((kind, txt))
for i in sorted(k):
    out.append("* **%s**" % i)
    for kind, txt in k[i]:
        out.append("  * %s%s" % ("RECORDED, NOT REPAIRED: " if kind == "known" else "", txt))
out += ["", notes["open_text"], ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
