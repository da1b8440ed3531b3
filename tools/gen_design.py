#!/usr/bin/env python3
"""DESIGN.md from tools/design_src.md and the seeded bugs (tools/caught.txt: ID CHECK...)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(os.path.join(V, "tools/caught.txt")):
    w = l.split()
    if w:
        caught[w[0]] = w[1:]
rows = ["## Planted bugs", "", "Each lives in `seeded/<id>/` with a demonstration. \"Caught by\" lists the checks (quick tier) seen to report it.", "",
        "| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], ", ".join(caught.get(i, ["-"]))))
s = open(os.path.join(V, "tools/design_src.md")).read().replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
