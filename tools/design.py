#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md (between the two markers)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | what it breaks | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], d["what_it_breaks"], d.get("caught_by", d["property"])))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- end planted -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
