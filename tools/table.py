#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"]))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
i = s.index("| id | property | breaks")
j = s.index("## Not applicable")
head = s[i:].split("\n")[:2]
open(p, "w").write(s[:i] + "\n".join(head + rows) + "\n\n" + s[j:])
