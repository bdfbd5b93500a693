#!/usr/bin/env python3
"""check.py ID: decides property ID for /repo's current working tree by static analysis."""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "rules")]
sys.setrecursionlimit(20000)
import build  # noqa: E402
from facts import Facts  # noqa: E402
from report import Report  # noqa: E402


def known(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return {k["key"]: k for k in json.load(f)["findings"]
                if k["property"] == prop and k["status"] == "known"}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    index = json.load(open(os.path.join(HERE, "rules", "index.json")))
    ent = index[prop]
    mod = importlib.import_module(ent["module"])
    kind = getattr(mod, "KIND", "all")
    rep = Report(prop)
    try:
        if kind == "none":
            F, bt, cmd = None, 0.0, "source read directly"
        else:
            d, bt, cmd = build.facts(kind)
            F = Facts(d)
        fn = getattr(mod, ent.get("entry", "run"))
        try:
            fn(F, rep)
        except build.BuildError:
            raise
        except Exception as e:      # the rule met code it has no case for: what it found so far stands, the rest is undecided
            traceback.print_exc()
            rep.undecided("internal", "the analysis stopped: %s: %s" % (type(e).__name__, e), "")
        st = getattr(mod, ent.get("entry", "run") + "_selftest", None)
        stats = None
        if st is not None and (tier == "thorough" or ent.get("selftest_quick")):
            stats = selftest(st, d, rep, prop)
    except build.BuildError as e:
        print(e)
        print("ERROR property=%s the tree could not be analysed" % prop)
        return 2
    wall = time.time() - t0
    kf = known(prop)
    new = {k: v for k, v in rep.violations.items() if k not in kf}
    hit = [k for k in rep.violations if k in kf]
    n = len(rep.obligations)
    cov = {
        "explanation": (mod.__doc__ or "").strip(),
        "rule": (fn.__doc__ or "").strip(),
        "obligations": n,
        "discharged": sum(1 for o in rep.obligations if o[1] == "discharged"),
        "undecided": [list(u) for u in rep.undecided_][:50],
        "functions_analysed": len(rep.analysed),
        "facts": cmd, "facts_seconds": round(bt, 1),
        "samples": [list(o) for o in rep.obligations[:12]],
        "notes": rep.notes[:50],
    }
    cov.update(rep.counts)
    if F is not None:
        cov["functions_in_scope"] = sum(len(c.fns) for c in F.crates.values())
    if stats is not None:
        cov["selftest"] = stats
    ev = {"property": prop, "tier": tier, "seed": seed, "level": ent.get("level", "other"), "coverage": cov,
          "assumptions": ent.get("assumptions", []), "wall_s": round(wall, 2),
          "violations": [{"key": k, "message": v[0], "where": v[1], "known": k in kf} for k, v in rep.violations.items()]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d functions, %.1fs (%s tier)" % (
        prop, n, cov["discharged"], len(rep.undecided_), len(rep.analysed), wall, tier))
    for u in rep.undecided_[:10]:
        print("UNDECIDED property=%s %s: %s %s" % (prop, u[0], u[1], u[2]))
    for k in hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[k]["what"]))
    if new:
        path = os.path.join(HERE, "evidence", prop + ".violation.txt")
        with open(path, "w") as f:
            for k, (msg, where) in new.items():
                f.write("property %s\nkey      %s\nwhat     %s\nwhere    %s\nre-run   python3 check.py %s\n\n" % (
                    prop, k, msg, where, prop))
        for k, (msg, where) in list(new.items())[:20]:
            print("  %s\n    %s\n    at %s" % (k, msg, where))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
        return 1
    return 0


def selftest(st, d, rep, prop):
    """mutate the facts in memory (drop a call, drop a store, ...) and see that the rule fires"""
    out = {"mutants": 0, "fired": 0, "silent": []}
    for name, mutate, run in st():
        F = Facts(d)
        try:
            if not mutate(F):
                continue
        except Exception:
            continue
        r = Report(prop)
        try:
            run(F, r)
        except Exception as e:  # noqa
            out["silent"].append(name + " (error %s)" % e)
            continue
        out["mutants"] += 1
        if r.violations:
            out["fired"] += 1
        else:
            out["silent"].append(name)
    return out


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
