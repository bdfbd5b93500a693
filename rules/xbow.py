"""x-bow: every implementation of the path trait (hand written, macro generated for the standard
library types, and the derive macro's output for a fixture crate that uses every shape the derive
accepts) is evaluated symbolically; the place it borrows, the place it borrows mutably, the identity
it feeds to change tracking and the tracker it reports to are compared with one another."""
import build
from common import *
from facts import Facts

KIND = "xbow"

CANON = {"Path::path_borrow_mut": "Path::path_borrow", "DerefMut::deref_mut": "Deref::deref", "Rc::get_mut": "Deref::deref",
         "HashMap::get_mut": "HashMap::get", "Option::as_deref_mut": "Option::as_deref", "IndexMut::index_mut": "Index::index",
         "slice::get_mut": "slice::get", "Vec::get_mut": "Vec::get", "BTreeMap::get_mut": "BTreeMap::get",
         "PathExt::borrow_opt_mut_without_notifying": "Path::path_borrow", "PathExt::borrow_opt": "Path::path_borrow"}
SELF = ("D", ("init", (("L", 0, 1), ())))


def norm(v):
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "sym":
        return ("call", CANON.get(v[2], v[2]), norm(v[3]))
    return tuple(norm(x) for x in v)


class PathMon(Trace):
    """parent borrows succeed (parent=1) or fail (parent=0)"""

    def __init__(self, parent):
        Trace.__init__(self, None, ("HashVisitor::finish_one",))
        self.parent = parent

    def results(self, eng, ev, env, st):
        if ev.key in ("Path::path_borrow", "Path::path_borrow_mut"):
            from models import some, NONE
            if not self.parent:
                return [(dict(NONE), st, False)]
            g = eng.sym(env, ev.ctx, ev.block, ev.key, ev.args)
            return [(some({(): g}), st, False)]
        return None


def runm(F, rep, f, mon):
    e = Engine(F, mon)
    e.budget = 60000
    e.run(f)
    rep.engine(e)
    return mon


def guard_place(env, v):
    """the guard value a borrow returns -> (parent guard, projected place) ; None if not understood"""
    if v[0] == "gproj":
        base, ref = v[1], v[2]
        return base, ref
    if v[0] == "guard":
        return v, ("ref", v[2])
    if v[0] == "sym":
        return v, ("ref", (("D", ("gderef", v)), ()))
    return None


def receiver(args):
    """the place of the inner path a forwarded call works on, normalised"""
    return norm(args[0])


def place_of(f, F):
    pass


class PathImpl:
    pass


def analyse_impl(F, rep, i, prefix):
    """-> PathImpl summary or None"""
    name = i["self_ty"].n if i["self_ty"].k == "adt" else i["self_ty"].s
    short_name = name.split("::")[-1] if i["self_ty"].k == "adt" else name
    if i["self_ty"].k == "adt" and i["self_ty"].a and "dyn" in i["self_ty"].s:
        short_name = i["self_ty"].s.split("<")[0].split("::")[-1] + "<dyn Path>"
    key = "%s:%s" % (prefix, short_name if prefix == "x_bow" and "tuple" not in name else "::".join(name.split("::")[-2:]))
    p = PathImpl()
    p.impl, p.name, p.key = i, name, key
    fns = {}
    for m in ("path_borrow", "path_borrow_mut", "visit_hashes", "store_wakers"):
        fns[m] = F.impl_fn(i, m)
        if not rep.anchor(fns[m], key + ":" + m, "method %s of the path implementation %s" % (m, name)):
            return None
    p.loc = fns["path_borrow"].loc
    p.fns = fns
    p.recv = {}
    p.proj = {}
    p.partial = {}
    p.root = False
    for m in ("path_borrow", "path_borrow_mut"):
        recvs, projs, none = set(), set(), False
        mon = runm(F, rep, fns[m], PathMon(1))
        for val, st, env in mon.rets:
            for c in st:
                if c[0] in ("Path::path_borrow", "Path::path_borrow_mut", "PathExt::borrow_opt"):
                    recvs.add((CANON.get(c[0], c[0]), receiver(c[1])))
                    if c[0] == "Path::path_borrow_mut" and m == "path_borrow" or \
                            c[0] == "Path::path_borrow" and m == "path_borrow_mut":
                        rep.violation("X03:%s:%s:mode" % (key, m), "%s of %s uses the other kind of borrow" % (m, name), fns[m].loc)
            v = val[()]
            if v[0] == "agg" and v[4] == "None":
                none = True
                continue
            if v[0] == "agg" and v[4] == "Some":
                g = guard_place(env, val.get((("v", "Some"), ("f", "0")), TOP))
                if g is None:
                    projs.add(("?",))
                else:
                    projs.add((norm(g[0]), norm(g[1])))
            else:
                projs.add(("?", norm(v)))
        if not recvs:
            # the root of a store: borrows its own cell
            p.root = True
        p.recv[m] = {r[1] for r in recvs}
        p.proj[m] = projs
        p.partial[m] = none
        if recvs:
            mon0 = runm(F, rep, fns[m], PathMon(0))
            bad = [val for val, st, env in mon0.rets if not (val[()][0] == "agg" and val[()][4] == "None")]
            rep.check(not bad, "X03:%s:%s:absent-parent" % (key, m),
                      "%s of %s must give None when the enclosing data is absent" % (m, name), fns[m].loc)
    # hashes
    p.levels = []
    p.hrecv = set()
    mon = runm(F, rep, fns["visit_hashes"], PathMon(1))
    VIS = ("ref", (("D", ("init", (("L", 0, 2), ()))), ()))
    for val, st, env in mon.rets:
        seq = []
        for c in st:
            if c[0] == "Path::visit_hashes":
                seq.append(("parent", norm(c[1][0])))
                p.hrecv.add(norm(c[1][0]))
                if c[1][1] != VIS:
                    seq.append(("badvisitor",))
            elif c[0] == "HashVisitor::finish_one":
                seq.append(("level",))
                if c[1][0] != VIS:
                    seq.append(("badvisitor",))
            elif c[0].startswith("Hasher::write") or c[0] == "Hash::hash":
                dst = c[1][0] if c[0].startswith("Hasher") else c[1][1]
                src = c[1][1] if c[0].startswith("Hasher") else c[1][0]
                if not contains(dst, lambda x: x == ("D", ("init", (("L", 0, 2), ())))):
                    continue    # some other hasher
                seq.append(("id", c[0], norm(src)))
        p.levels.append(tuple(seq))
    # tracker
    p.wrecv = set()
    p.wret = set()
    mon = runm(F, rep, fns["store_wakers"], PathMon(1))
    for val, st, env in mon.rets:
        for c in st:
            if c[0] == "Path::store_wakers":
                p.wrecv.add(norm(c[1][0]))
        p.wret.add(norm(val[()]))
    return p


def identity_terms(proj):
    """self-held data a projection depends on (index, key): what identity must cover"""
    out = set()

    def walk(v, under):
        if not isinstance(v, tuple):
            return
        if v and v[0] == "ix":
            out.add(("ix", v[1]))
            return
        if len(v) >= 3 and v[0] == "call" and v[1].endswith("::get") and len(v[2]) > 1:
            out.add(("key", v[2][1]))
            walk(v[2][0], False)
            return
        for x in v:
            walk(x, under)
    walk(proj[1] if len(proj) > 1 else proj, True)
    return out


def optional_variant(F, proj):
    """the place lies inside an enum variant that may not be the current one"""
    vs = set()
    contains(proj, lambda x: bool(vs.add(x[1])) if isinstance(x, tuple) and len(x) == 2 and x[0] == "v" and isinstance(x[1], str) else False)
    for v in vs:
        adts = [a for a in F.adts.values() if a["crate"].name in ("vp_fixture_xbow",)
                and any(x["name"] == v for x in a["variants"])]
        if not adts or any(len(a["variants"]) > 1 for a in adts):
            return True
    return False


LOSSY = ("trunc", "Div", "Rem", "BitAnd", "BitOr", "Shr", "Shl", "Mul", "Lt", "Le", "Gt", "Ge", "Eq", "Ne", "Len")


def mentions_place(src, want):
    """hash source src denotes the datum want (an index value or a key reference)"""
    def strip(v):
        while isinstance(v, tuple) and v:
            if v[0] == "ref" and v[1][0] != () and isinstance(v[1][0], tuple):
                return ("place", v[1])
            if v[0] == "init":
                return ("place", v[1])
            if v[0] in ("op",) and v[1] in ("Cast",):
                v = v[2]
                continue
            if v[0] == "call" and v[1] in ("Clone::clone", "Deref::deref", "Borrow::borrow") and v[2]:
                v = v[2][0]
                continue
            if v[0] == "clone":
                v = v[1]
                continue
            break
        return v
    a, b = strip(src), strip(want)
    def has(v):
        return contains(v, lambda x: x == b or (b[0] == "place" and x == b[1]))
    if a == b:
        return True
    # two values may not be mapped to one: a lossy operation on the selecting value is no identity
    if contains(src, lambda x: isinstance(x, tuple) and len(x) > 2 and x[0] == "op" and x[1] in LOSSY and has(x)):
        return False
    return has(src)


def all_path_impls(F, rep):
    out = []
    for i in F.trait_impls("Path"):
        if i["trait"] not in ("x_bow::path::Path",) and not i["trait"].endswith("path::Path"):
            continue
        try:
            p = analyse_impl(F, rep, i, i["crate"].name)
        except Incomplete as e:
            rep.undecided("X03:%s" % i["id"], str(e), "")
            continue
        if p:
            out.append(p)
    return out


def with_fixture(F):
    """facts of x-bow together with the fixture crate's derive output"""
    d = build.fixture("xbow")
    G = Facts(d)
    for c in G.crates.values():
        F.crates[c.name] = c
    F.fns.update(G.fns)
    F.adts.update(G.adts)
    F.impls += G.impls
    return F


def coherence(F, rep):
    """Obligations per path implementation: (1) shared and mutable borrow go to the same place of the same
    parent, and fail for the same reason; (2) change tracking visits that same parent first, then feeds this
    level's own identity, then closes the level exactly once - or does neither if the level is a pure
    forwarder; (3) every index or key the place depends on is part of the identity; (4) the tracker is the
    parent's; (5) different places below one parent have different identities; (6) an accessor named after a
    field reaches that field."""
    with_fixture(F)
    impls = all_path_impls(F, rep)
    byadt = {}
    nlevels = 0
    for p in impls:
        k, loc = p.key, p.loc
        if p.root:
            lv = p.levels
            rep.check(lv and all([x[0] for x in s].count("level") == 1 and not any(x[0] in ("parent", "badvisitor") for x in s)
                                 for s in lv), "X03:%s:levels" % k, "a store's root must be exactly one level", loc)
            a = {x[1] for x in p.proj["path_borrow"] if len(x) > 1}
            b = {x[1] for x in p.proj["path_borrow_mut"] if len(x) > 1}
            rep.check(a == b and len(a) == 1, "X03:%s:same-place" % k, "root must borrow one place both ways", loc)
            rep.check(not p.partial["path_borrow"] and not p.partial["path_borrow_mut"], "X03:%s:total" % k,
                      "a store's root is always there", loc)
            rep.check(len(p.wret) == 1 and next(iter(p.wret))[0] == "ref", "X03:%s:tracker" % k,
                      "the root must report to its own store", loc)
            if len(a) == 1 and len(p.wret) == 1:
                da, dw = next(iter(a)), next(iter(p.wret))
                ra, rw = repr(da), repr(dw)
                # both live in the same store object
                base = ("f", "store")
                rep.check(contains(da, lambda x: x == base) == contains(dw, lambda x: x == base),
                          "X03:%s:one-store" % k, "data and tracker must belong to one store", loc)
            continue
        recv = p.recv["path_borrow"] | p.recv["path_borrow_mut"]
        if not rep.check(len(recv) == 1, "X03:%s:one-parent" % k,
                         "%s borrows through %d different parents" % (p.name, len(recv)), loc):
            continue
        r = next(iter(recv))
        pa, pb = p.proj["path_borrow"], p.proj["path_borrow_mut"]
        if any(x[0] == "?" for x in pa | pb):
            rep.undecided("X03:%s:same-place" % k, "the borrowed place is not understood", loc)
            continue
        rep.check(pa == pb and len(pa) == 1, "X03:%s:same-place" % k,
                  "%s: shared and mutable borrow reach different places" % p.name, loc)
        usesrc = "Rc" in p.name or any(contains(x, lambda y: y == "Deref::deref") for x in pb)
        rep.check(p.partial["path_borrow"] == p.partial["path_borrow_mut"]
                  or (p.partial["path_borrow_mut"] and not p.partial["path_borrow"] and usesrc),
                  "X03:%s:same-failure" % k, "%s: only one kind of borrow can fail" % p.name, loc)
        proj = next(iter(pa))
        forwarder = proj[1] == ("ref", (("D", ("gderef", proj[0])), ()))
        terms = identity_terms(proj)
        if terms or optional_variant(F, proj[1]):
            rep.check(p.partial["path_borrow"] and p.partial["path_borrow_mut"], "X03:%s:missing-is-none" % k,
                      "%s must give None when the item does not exist" % p.name, loc)
        # hashes
        good = bool(p.levels)
        for s in p.levels:
            kinds = [x[0] for x in s]
            if "badvisitor" in kinds:
                good = False
            if kinds.count("parent") != 1 or kinds[0] != "parent" or s[0][1] != r:
                good = False
                rep.violation("X03:%s:track-parent" % k, "%s must first visit the parent it borrows through, once" % p.name,
                              p.fns["visit_hashes"].loc)
                break
            if forwarder:
                if len(kinds) != 1:
                    good = False
            else:
                nlevels += 1
                if kinds.count("level") != 1 or kinds[-1] != "level" or "id" not in kinds:
                    good = False
        rep.check(good, "X03:%s:track-level" % k,
                  "%s must feed %s" % (p.name, "nothing of its own (it adds no level)" if forwarder else
                                       "its identity and then close its level exactly once, on every path"),
                  p.fns["visit_hashes"].loc)
        if good and not forwarder:
            for s in p.levels:
                ids = [x for x in s if x[0] == "id"]
                for kind, t in terms:
                    rep.check(any(mentions_place(x[2], t) for x in ids), "X03:%s:identity" % k,
                              "%s: the %s that selects the item is not part of the identity that is tracked" % (
                                  p.name, "index" if kind == "ix" else "key"), p.fns["visit_hashes"].loc)
        rep.check(p.wrecv == {r} and all(contains(w, lambda x: x == ("call", "Path::store_wakers", (r,))) for w in p.wret),
                  "X03:%s:tracker" % k, "%s must report to its parent's store" % p.name, p.fns["store_wakers"].loc)
        if p.impl["self_ty"].k == "adt":
            byadt[p.name] = (p, proj[1], tuple(tuple((x[1], x[2]) for x in s if x[0] == "id") for s in p.levels), terms)
    rep.floor("path_impls", len(impls), 125)
    rep.floor("levels", nlevels, 121)
    builders(F, rep, byadt)


def strip_recv(proj):
    """projection relative to the parent's borrow"""
    def f(v):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "gderef":
            return ("gderef",)
        if isinstance(v, tuple):
            return tuple(f(x) for x in v)
        return v
    return f(proj)


def field_name(proj):
    """('f', name) / variant parts of a plain field projection"""
    if proj[0] != "ref":
        return None
    parts = proj[1][1]
    v = [x[1] for x in parts if x[0] == "v"]
    f = [x[1] for x in parts if x[0] == "f"]
    if len(f) == 1 and len(v) <= 1 and len(parts) == len(f) + len(v):
        return (v[0] if v else None), f[0]
    return None


def builders(F, rep, byadt):
    """accessor methods of path builders: which mapper they make, from what"""
    groups = {}
    n = 0
    for f in list(F.fns.values()):
        if f.crate.name not in ("x_bow", "vp_fixture_xbow") or f.kind != "AssocFn" or f.impl_of or f.argc < 1:
            continue
        st = f.self_ty
        if st is None or st.k != "adt" or not st.n.split("::")[-1].endswith("PathBuilder"):
            continue
        last = f.id.rsplit("::", 1)[-1]
        if last in ("new", "into_path"):
            continue
        try:
            m = runm(F, rep, f, BuilderMon(set(byadt)))
        except Incomplete as e:
            rep.undecided("X03:builder:%s" % f.name, str(e), f.loc)
            continue
        n += 1
        bkey = "X03:accessor:%s::%s" % (st.n.split("::")[-1] if "tuple" not in st.n else "::".join(st.n.split("::")[-2:]), last)
        for val, stt, env in m.rets:
            made = []
            if not stt:
                # not deferred to another builder: the mapper sits inside the returned leaf builder
                made = [(val[()][2], None)] if val[()][0] == "agg" else []
            used = [c for c in stt]
            adts = find_mapper(val, byadt, used)
            if not rep.check(len(adts) == 1, bkey + ":makes", "%s must extend the path by exactly one step, makes %s" % (
                    f.name, sorted(adts)), f.loc):
                continue
            adt, tree = next(iter(adts.items()))
            p, proj, ids, terms = byadt[adt]
            # the parent held by the mapper is this builder's path; arguments reach the identity fields
            tv = list(tree.values())
            rep.check(any(contains(v, lambda x: x == (("L", 0, 1), (("f", "inner_path"),)) or (isinstance(x, tuple) and len(x) == 2 and x[0] == ("L", 0, 1))) for v in tv),
                      bkey + ":parent", "%s must extend its own path" % f.name, f.loc)
            for a in range(2, f.argc + 1):
                rep.check(any(contains(v, lambda x: x == ("init", (("L", 0, a), ()))) for v in tv), bkey + ":arg",
                          "%s must use the item its caller names" % f.name, f.loc)
            groups.setdefault(st.n, {}).setdefault(adt, []).append(last)
            fn_ = field_name(proj)
            if fn_ is not None:
                v, fld = fn_
                want = "%s_%s" % (v, fld) if v else ("t" + fld if fld.isdigit() else fld)
                if st.n.split("::")[-1] not in ("VecPathBuilder", "HashMapPathBuilder", "BoxPathBuilder"):
                    rep.check(last == want, bkey + ":field", "%s reaches field %s" % (f.name, want), f.loc)
    for b, ms in groups.items():
        items = sorted(ms)
        for x in range(len(items)):
            for y in range(x + 1, len(items)):
                p1, j1, i1, t1 = byadt[items[x]]
                p2, j2, i2, t2 = byadt[items[y]]
                if strip_recv(j1) == strip_recv(j2):
                    continue
                if t1 or t2:
                    continue
                rep.check(set(i1).isdisjoint(set(i2)), "X03:siblings:%s" % "/".join(
                    sorted((p1.key, p2.key))), "%s and %s are different data but are tracked under one identity" % (
                    p1.name, p2.name), p1.loc)
    rep.floor("accessors", n, 125)


class BuilderMon(Trace):
    def __init__(self, adts):
        Trace.__init__(self, ("Trackable::new_path_builder",), ())
        self.trees = {}

    def on_call(self, eng, ev, env, st):
        if ev.key.endswith("::new_path_builder"):
            st = st + ((ev.key, tuple(sorted(ev.trees[0].items(), key=repr)), ev.loc, ev.site),)
        return st


def find_mapper(val, byadt, used):
    out = {}
    trees = [dict(c[1]) for c in used] + [val]
    for t in trees:
        for path, v in t.items():
            if v[0] == "agg" and v[1] == "adt" and v[2] in byadt:
                n = len(path)
                out.setdefault(v[2], {p[n:]: w for p, w in t.items() if p[:n] == path and p != path})
    return out
