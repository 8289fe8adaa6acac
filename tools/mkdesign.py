#!/usr/bin/env python3
"""assemble DESIGN.md: design_head.md, a section per property (sections in
design_sections.py), design_tail.md, the table of planted bugs (seeds.txt)"""
import os
D = os.path.dirname(os.path.abspath(__file__))
rd = lambda n: open(os.path.join(D, n)).read()
ns = {}
exec(rd("design_sections.py"), ns)
o = rd("design_head.md") + "## The properties, one by one\n\n"
for title, f, gen, oracle, bounds in ns["S"]:
    o += "### %s\n\n* generated: %s\n* oracle: %s\n" % (title, gen, oracle)
    if bounds:
        o += "* bounds and remarks: %s\n" % bounds
    o += "* harness: `harness/%s`\n\n" % f
o += rd("design_tail.md")
import json
o += "| planted bug | what it needs | caught by |\n|---|---|---|\n"
for l in open(D + "/seeds/results.txt"):
    a, b = l.rstrip("\n").split(None, 1)
    j = json.load(open(os.path.dirname(D) + "/seeded/" + a + "/meta.json"))
    o += "| %s | %s | %s |\n" % (a, j["needs"].replace("|", "/"), b.replace(" CAUGHT", ""))
o += "\n" + rd("design_end.md")
open(os.path.join(os.path.dirname(D), "DESIGN.md"), "w").write(o)
