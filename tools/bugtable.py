#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(here + "/DESIGN.md").read()
rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, d)))
    rows.append("| %s | %s | %s |\n" % (d, m["property"], m["needs"]))
head = "| bug | property (caught by its check) | needs |\n|---|---|---|\n"
i = t.index(head) + len(head)
j = i
while t.startswith("|", j):
    j = t.index("\n", j) + 1
open(here + "/DESIGN.md", "w").write(t[:i] + "".join(rows) + t[j:])
