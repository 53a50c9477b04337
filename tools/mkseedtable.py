#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.txt (id check ...)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for line in open(os.path.join(HERE, "tools", "caught.txt")):
    w = line.split()
    if w:
        caught[w[0]] = " ".join(w[1:])
rows = ["| planted bug | what it needs in order to manifest | caught by |", "|---|---|---|"]
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    needs = " ".join(m["needs"].split()).replace("|", "\\|")
    rows.append("| %s | %s | %s |" % (i, needs, caught.get(i, "not run")))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted bugs -->\n", "<!-- end of planted bugs -->\n"
head, rest = s.split(a)
tail = rest.split(b)[1]
open(p, "w").write(head + a + "\n".join(rows) + "\n" + b + tail)
