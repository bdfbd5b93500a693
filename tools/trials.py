#!/usr/bin/env python3
"""trials.py FILE [NAME...]: applies each edit set of tools/trials/FILE.py to a scratch copy of /repo and runs the checks it names there.
A trial is T(name, edits, {property: "quiet"|"fire"}); behaviour-preserving edits must be quiet, bugs must fire."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SCR = "/tmp/trial"
TR = []


def T(name, edits, expect):
    TR.append((name, edits, expect))


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


exec(open(os.path.join(HERE, "trials", sys.argv[1] + ".py")).read())
names = sys.argv[2:]
env = dict(os.environ, VP_REPO=SCR + "/repo", VP_CACHE=SCR + "/cache")
bad = 0
for name, edits, expect in TR:
    if names and not any(n in name for n in names):
        continue
    r = sh("mkdir -p %s && rsync -a --delete --exclude target --exclude .git %s/ %s/repo/" % (SCR, os.environ.get("VP_BASE", "/repo"), SCR))
    assert r.returncode == 0, r.stderr
    ok = True
    for f, a, b in edits:
        p = os.path.join(SCR, "repo", f)
        s = open(p).read()
        if s.count(a) < 1:
            print(name, "EDIT DOES NOT APPLY", f, a[:60])
            ok = False
            break
        open(p, "w").write(s.replace(a, b))
    if not ok:
        continue
    for prop, want in expect.items():
        c = subprocess.run([sys.executable, HERE + "/../check.py", prop], capture_output=True, text=True, env=env, cwd=HERE + "/..")
        got = {0: "quiet", 1: "fire"}.get(c.returncode, "error")
        und = c.stdout.count("\nUNDECIDED")
        good = got == want
        bad += not good
        print("%-34s %s %s%s%s" % (name, prop, got, "" if good else "   <<<< WANTED " + want, "  (%d undecided)" % und if und else ""))
        if not good or "-v" in os.environ.get("V", ""):
            print("     ", "\n      ".join(c.stdout.strip().split("\n")[-8:])[:1500] if got != "error" else (c.stdout + c.stderr)[-1800:])
        elif und:
            print("     ", [l for l in c.stdout.split("\n") if l.startswith("UNDECIDED")][:2])
    sys.stdout.flush()
print("bad", bad)
