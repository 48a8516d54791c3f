#!/usr/bin/env python3
"""Writes DESIGN.md from design.md and the table of planted bugs."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
t = json.load(open(here + "/detected.json"))
seed = here + "/../seeded"
rows = ["| bug | property | what it breaks | quick check |", "|---|---|---|---|"]
n = 0
for k in sorted(os.listdir(seed)):
    m = json.load(open("%s/%s/meta.json" % (seed, k)))
    d = t.get(k, {"result": "not run", "how": ""})
    n += d["result"] == "caught"
    rows.append("| %s | %s | %s | %s |" % (k, m["property"], m["what_it_breaks"].replace("|", "\\|"), (d["result"] + ": " + d["how"]).replace("|", "\\|").strip(": ")))
s = open(here + "/design.md").read()
s += "%d planted, %d caught by the quick check of their property.\n\n" % (len(rows) - 2, n) + "\n".join(rows) + "\n"
open(here + "/../DESIGN.md", "w").write(s)
