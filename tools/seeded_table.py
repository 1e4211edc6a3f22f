#!/usr/bin/env python3
"""rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json"""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted change | needs | caught by | how it is seen |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append("| %s | %s | %s | %s%s |" % (d, m["needs"], m.get("caught_by", m["property"]), m.get("seen_as", ""), (" (missed at first: %s)" % m["missed_first"]) if m.get("missed_first") else ""))
s = open(V + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(V + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
