#!/usr/bin/env python3
"""Assembles DESIGN.md from design_head.md, design_table.md, design_tail.md and the planted bugs."""
import json, os, re
d = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(d)
rd = lambda n: open(os.path.join(d, n)).read()
by = json.load(open(os.path.join(d, "caught.json"))) if os.path.exists(os.path.join(d, "caught.json")) else {}
rows = []
for b in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], by.get(b, "not run")))
open(os.path.join(root, "DESIGN.md"), "w").write(rd("design_head.md") + rd("design_table.md") + rd("design_tail.md").replace("@BUGS@", "\n".join(rows) + "\n"))
