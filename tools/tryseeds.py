#!/usr/bin/env python3
"""apply each planted bug to /repo, run every check (or --own: the property's own), undo"""
import json, os, subprocess, sys
own = "--own" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir("/verif/seeded"))
man = json.load(open("/verif/rules/index.json"))
for i in ids:
    d = "/verif/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    r = subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], capture_output=True, text=True)
    if r.returncode:
        print(i, "does not apply", r.stderr[:200]); continue
    try:
        res = {}
        for p in ([prop] if own else man):
            if p not in man:
                continue
            c = subprocess.run([sys.executable, "/verif/check.py", p], capture_output=True, text=True, cwd="/verif")
            res[p] = c.returncode
            if p == prop:
                out = c.stdout
        print("%-34s %s %s others=%s" % (i, prop, {1: "CAUGHT", 0: "MISSED"}.get(res.get(prop), "NO ANSWER"),
                                         [p for p, c in res.items() if c and p != prop]))
        if res.get(prop) == 1:
            print("      ", [l for l in out.split("\n") if l.startswith("  ")][:1])
        elif res.get(prop):
            print(out[-600:])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
