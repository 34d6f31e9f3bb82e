#!/usr/bin/env python3
"""Assembles DESIGN.md from doc/ (run by hand)."""
import os, json, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rd(n):
    p = os.path.join(V, "doc", n)
    return open(p).read().rstrip() if os.path.exists(p) else "(none yet)"
s = rd("DESIGN.in.md") + "\n"
caught = {}
p = os.path.join(V, "doc", "caught.json")
if os.path.exists(p): caught = json.load(open(p))
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], caught.get(i, "?")))
s = s.replace("@@SEEDED@@", rd("seeded.md") + "\n\n" + "\n".join(rows))
s = s.replace("@@PROPS@@", rd("props.md"))
f = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
s = s.replace("@@DEFECTS@@", "\n" + "\n".join("* " + x["line"] for x in f) + "\n\n" + rd("defects.md"))
s = s.replace("@@ALARMS@@", rd("alarms.md"))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
