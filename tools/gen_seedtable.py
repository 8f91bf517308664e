#!/usr/bin/env python3
"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"]))
s = open(here + "/DESIGN.md").read()
s = re.sub(r"(?m)(^\|---\|---\|---\|\n)(?:\| s\d+ .*\n)+", lambda g: g.group(1) + "\n".join(rows) + "\n", s)
open(here + "/DESIGN.md", "w").write(s)
