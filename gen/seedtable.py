"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import sys

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| bug | property | needs |", "|---|---|---|"]
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/")))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeded -->", "<!-- /seeded -->"
tail = s.split(b, 1)[1] if b in s else "\n"
s = s.split(a, 1)[0] + a + "\n" + "\n".join(rows) + "\n" + b + tail
open(p, "w").write(s)
