#!/usr/bin/env python3
"""mkseed.py SPEC.py...: turn planted-bug specs into /verif/seeded/<id>/ and confirm them in a scratch copy of /repo.
A spec sets: id, prop, needs, breaks, edits=[(file, old, new)], demo=(kind, rust source)  (kind: key of DEMOS)."""
import json, os, shutil, subprocess, sys
SCR = "/tmp/seed/repo"
DEMOS = {
    "core": open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed", "core.sh")).read(),
    "lists": open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed", "lists.sh")).read(),
    "dropdown": open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed", "dropdown.sh")).read(),
    "virtual": open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed", "virtual.sh")).read(),
    "slot": open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed", "slot.sh")).read(),
    "events": open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed", "events.sh")).read(),
    "native": open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed", "native.sh")).read(),
}


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


ENV = (". /opt/vp/env.sh; cd " + SCR + "; ")


def reset():
    r = sh("mkdir -p /tmp/seed; rsync -a --delete --exclude target --exclude .git /repo/ /tmp/seed/repo/ && cd /tmp/seed/repo && "
           "(git init -q 2>/dev/null; git add -A; git -c user.name=x -c user.email=x commit -qm x --allow-empty)")
    assert r.returncode == 0, r.stdout


def tests():
    r = sh(ENV + "cargo build --workspace --offline 2>&1 | tail -40; exit ${PIPESTATUS[0]}", executable="/bin/bash")
    if r.returncode:
        return "does not build\n" + r.stdout
    r = sh(ENV + "cargo test --workspace --target x86_64-unknown-linux-gnu --no-fail-fast --offline 2>&1", executable="/bin/bash")
    open("/tmp/seed/t.log", "w").write(r.stdout)
    sh("python3 /opt/vp/results.py /tmp/seed/out.json cargo:/tmp/seed/t.log")
    out = json.load(open("/tmp/seed/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    s = json.dumps(out)
    passed = set(out.get("passed", out.get("pass", [])))
    miss = [b for b in base if b not in passed]
    return "" if not miss else "tests fail: %s" % miss[:5]


def demo(d):
    r = sh("cd %s && timeout 300 bash %s/demo.sh 2>&1 | tail -15; exit ${PIPESTATUS[0]}" % (SCR, d), executable="/bin/bash")
    return r.returncode, r.stdout


def main(spec):
    g = {}
    exec(open(spec).read(), g)
    d = "/verif/seeded/" + g["id"]
    os.makedirs(d, exist_ok=True)
    reset()
    kind, src = g["demo"]
    open(d + "/demo.sh", "w").write(DEMOS[kind])
    os.chmod(d + "/demo.sh", 0o755)
    if kind in ("lists", "dropdown", "events", "slot", "virtual"):
        src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed", kind + ".rs")).read() + src
    if kind in ("core", "web"):
        src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed", "common.rs")).read() + src
    open(d + "/main.rs", "w").write(src)
    for name, text in g.get("files", {}).items():
        open(os.path.join(d, name), "w").write(text)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc0, o0 = demo(d)
    for f, a, b in g["edits"]:
        p = os.path.join(SCR, f)
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    r = sh("cd %s && git diff > %s/patch.diff" % (SCR, d))
    t = tests()
    rc1, o1 = demo(d)
    good = rc0 == 0 and rc1 != 0 and not t
    print(g["id"], "OK" if good else "BAD demo clean=%d patched=%d %s" % (rc0, rc1, t))
    if not good:
        print(o0, "-----\n", o1)
    else:
        print("   ", o1.strip().split("\n")[-1][:160] if o1 else "")
    return good


for s in sys.argv[1:]:
    main(s)
