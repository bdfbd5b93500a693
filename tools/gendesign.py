#!/usr/bin/env python3
"""fills the generated parts of DESIGN.md from tools/props.py and seeded/*/meta.json (DESIGN.in.md -> DESIGN.md)"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
s = open(V + "/DESIGN.in.md").read()
o, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append("* **%s %s** — %s" % (p["id"], p["title"], " ".join(p["na"].split())))
        continue
    o.append("### %s — %s\n" % (p["id"], p["title"]))
    o.append("*Specified:* " + " ".join(p["statement"].split()) + "\n")
    o.append("*Quantifies over:* %s\n" % " ".join(p["all"].split()))
    o.append("*Decided by:* %s (`rules/%s.py`, entry `%s`).%s\n" % (p["technique"], p["rule"][0], p["rule"][1],
             " " + " ".join(p["how"].split()) if p.get("how") else ""))
    o.append("*Bounds and trust:* %s%s\n" % (" ".join(p["note"].split()), " Assumes: " + "; ".join(p["assume"]) + "." if p.get("assume") else ""))
    o.append("*Beyond the tests:* %s\n" % " ".join(p["why"].split()))
rows = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], CAUGHT.get(d, m["property"]) if (CAUGHT := json.load(open(HERE + "/caught.json"))) is not None else ""))
s = s.replace("PROPS_HERE", "\n".join(o)).replace("SEEDS_HERE", "\n".join(rows)).replace("NA_HERE", "\n".join(na) or "(none so far)").replace("FINDINGS_MORE\n", "")
open(V + "/DESIGN.md", "w").write(s)
