#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md (run from /verif)."""
import json, os, re
rows = []
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/")))
t = open("DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
body = a + "| bug | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n" + b
if a in t:
    t = t[:t.index(a)] + body + t[t.index(b) + len(b):]
else:
    t = re.sub(r"\| bug \| caught by \| what had to be added \|\n\|---\|---\|---\|\nSEEDTABLE\n", lambda _: body, t)
open("DESIGN.md", "w").write(t)
