"""Rewrites the table of planted bugs at the end of DESIGN.md.

usage: mkseedtable.py LOG   (lines "ID PROP rc=1 ...", of a run of each planted
bug against its property's check)
"""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
runs = {}
for name in sys.argv[1:]:
    for line in open(name):
        w = line.split()
        if len(w) > 2 and w[2].startswith("rc="):
            runs[w[0]] = w[2] == "rc=1"
rows = []
for i in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, i)))
    rows.append((m["property"], i, m["what_it_breaks"].replace("|", "or"),
                 m["property"] if runs.get(i) else "MISSED"))
out = "| property | planted bug | what it breaks | caught by |\n|---|---|---|---|\n"
for r in sorted(rows):
    out += "| %s | %s | %s | %s |\n" % r
p = here + "/DESIGN.md"
s = open(p).read()
mark = "<!-- table -->\n"
s = s[:s.index(mark) + len(mark)] + out
open(p, "w").write(s)
print(len(rows), sum(1 for r in rows if r[3] == "MISSED"))
