#!/usr/bin/env python3
"""Rewrites the tables at the end of DESIGN.md (rules; planted bugs and the checks that object to them).
The second table is taken from the output of tools/seed/verify.py given as argument, or kept."""
import os, re, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
from framework import *
import rules
d = open(V + "/DESIGN.md").read()
head, _, tail = d.partition("## Planted bugs\n")
bugs = tail.partition("## Rules\n")[0].strip()
if len(sys.argv) > 1:
    rows = []
    for l in open(sys.argv[1]):
        m = re.match(r"(\S+)\s+(C\d+) (caught|MISSED) apply=0: ?(.*)", l)
        if m:
            need = json.load(open("%s/seeded/%s/meta.json" % (V, m.group(1))))["what_it_breaks"]
            rows.append("| %s | %s | %s | %s |" % (m.group(1), m.group(2), need, m.group(4) or "none"))
    bugs = "\n".join(["Sources in `tools/seed/specs`, built into `seeded/`; each was confirmed to build, to pass the stable tests and to be demonstrated.", "",
                      "| bug | property | what it breaks | checks that object |", "|---|---|---|---|"] + rows)
o = ["| rule | properties | decided on every path | feature sets (quick) |", "|---|---|---|---|"]
for r in RULES:
    o.append("| %s | %s | %s | %s |" % (r.id, " ".join(r.all_props), r.text.replace("|", "\\|"), " ".join(r.configs)))
open(V + "/DESIGN.md", "w").write(head.rstrip() + "\n\n## Planted bugs\n\n" + bugs + "\n\n## Rules\n\n" + "\n".join(o) + "\n")
