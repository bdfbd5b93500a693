#!/usr/bin/env python3
"""Regenerates properties.jsonl, MANIFEST.json and rules/index.json from tools/props.py (committed outputs)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS  # noqa

V = os.path.dirname(HERE)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": p["all"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
checks, na, index = [], [], {}
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    mod, ent = p["rule"]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
                   "technique": p["technique"], "level": "other", "level_note": " ".join(p["note"].split())})
    index[p["id"]] = {"module": mod, "entry": ent, "level": "other", "assumptions": p.get("assume", [])}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks share one rustc driver (driver/) that dumps MIR, resolved callees, types, impls and constants of every workspace "
              "crate from /repo's current tree, and one path-sensitive abstract interpreter (lib/absint.py) over those facts. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump(index, open(os.path.join(V, "rules", "index.json"), "w"), indent=1)
import runpy; runpy.run_path(os.path.join(HERE, "gendesign.py"))
print(len(checks), "checks", len(na), "not applicable")
