#!/usr/bin/env python3
"""usage: catchtable.py LOG...   rewrites the table of planted bugs at the end of DESIGN.md from the output of 'seeds.py catch'."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sys.argv[1:]:
    for line in open(f):
        m = re.match(r"(\S+) (.*)", line)
        rc = re.search(r"CHECK rc=(\d+) (\d+)s", line)
        rows[m.group(1)] = "caught" if rc and rc.group(1) == "1" and "VIOLATION" in line else "MISSED"
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
mark = "## Table of planted bugs\n"
s = s[:s.index(mark)].rstrip("\n") + "\n\n" if mark in s else s.rstrip("\n") + "\n\n"
out = [mark, "Output of `tools/seeds.py catch` (quick tier, seed 1): each change against the check of its own property.\n", "| change | needs | check |", "|---|---|---|"]
for k in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", k, "meta.json")))
    out.append("| %s | %s | %s %s |" % (k, m["needs"].replace("|", "\\|"), m["property"], rows.get(k, "not run")))
open(p, "w").write(s + "\n".join(out) + "\n")
print({v: list(rows.values()).count(v) for v in set(rows.values())})
