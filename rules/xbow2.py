"""x-bow change tracking. The effects of the tracking code (which key is looked up, which counter is bumped, which
wakers are woken, which subscription is registered) are extracted symbolically from the current MIR on every path and
compared with one another: what a mutation announces must be what a subscription listens to."""
from common import *
from absint import Env
from models import some, NONE
import re
import xbow

KIND = "xbow"

ARENA = ("WakersArena::add", "WakersArena::remove", "WakersArena::iter", "WakersArena::update", "WakersArena::add_sublist",
         "WakersArena::remove_sublist_if_empty")
SELF = ("init", (("L", 0, 1), ()))
SELFP = ("D", SELF)
READY = {(): ("agg", "adt", "core::task::poll::Poll", 0, "Ready")}
PENDING = {(): ("agg", "adt", "core::task::poll::Poll", 1, "Pending")}


def deref1(v):
    """the object a reference value denotes (references to a dereferenced pointer are that pointer)"""
    if v[0] == "ref" and v[1][1] == () and v[1][0][0] == "D":
        return v[1][0][1]
    return v


def lookup_some(eng, ev, env, st):
    if ev.key in ("HashMap::get_mut", "HashMap::get"):
        s = eng.sym(env, ev.ctx, ev.block, "HashMap::lookup", ())
        return [(some({(): ("ref", (("D", s), ()))}), st, False)]
    if ev.key in ("Entry::or_insert_with", "Entry::or_insert", "Entry::or_default", "Entry::or_insert_with_key"):
        return [(None, st, False)]
    return None


def full_iter(it, v):
    """it runs over every element of v"""
    n = 0
    while n < 8:
        n += 1
        if it == v:
            return True
        if it[0] == "op" and it[1] in ("iter", "rev", "enumerate", "copied", "cloned", "peekable", "iter_mut"):
            it = it[2]
            continue
        if it[0] == "ref" and v[0] == "ref" and it[1] == v[1]:
            return True
        break
    return False


def keyval(rec, i):
    t = rec.trees[i]
    v = t.get((), TOP)
    if v[0] == "ref" and ("*",) in t:
        v = t[("*",)]
        if v[0] == "agg":
            inner = [w for p, w in t.items() if p and p[0] == "*" and len(p) == 2]
            if len(inner) == 1:
                return inner[0]
        return v
    if v[0] == "agg":
        inner = [w for p, w in t.items() if len(p) == 1]
        if len(inner) == 1:
            return inner[0]
    return v


def template(v, visroot, isdepth):
    """key expression over H (hash so far) and D (depth of the level)"""
    if not isinstance(v, tuple) or not v:
        return v
    if isdepth(v):
        return ("D",)
    if v[0] == "sym" and v[2] == "Hasher::finish":
        r = v[3][0]
        return ("H",) if r[0] == "ref" and r[1][0] == visroot else ("otherhash",)
    if v[0] == "op":
        a = [template(x, visroot, isdepth) for x in v[2:]]
        if v[1] in ("BitOr", "BitAnd", "BitXor", "Add", "Mul"):
            a = sorted(a, key=repr)
        return ("op", v[1]) + tuple(a)
    if v[0] == "i":
        return v
    if v[0] == "sym" and v[3]:
        return ("fn", v[2]) + tuple(template(x, visroot, isdepth) for x in v[3])
    return ("X", v[0])


def uses(t, what):
    return contains(t, lambda x: x == (what,))


class Sem:
    """what the tracking code does"""


def visitor_adt(F):
    ms = [f for f in F.fns.values() if f.id == "x_bow::path::Path::visit_hashes"]
    a = F.adt("hash_visitor::HashVisitor")
    return a[0]["id"] if a else None


def wake_problems(hist, rec, E):
    """rec: the successful lookup of place E; what is missing from a complete wake of it"""
    out = []
    st = [r for r in hist if r.key == "store" and r.args[0][0] == E]
    bumped = None
    for r in st:
        loc, val = r.args
        if bumps(val, loc):
            bumped = loc
    if bumped is None:
        out.append("the change counter is not advanced")
    it = [r for r in hist if r.key == "WakersArena::iter" and r.args[1][0] == "ref" and r.args[1][1][0] == E]
    if not it:
        out.append("the waiting tasks are not visited")
        return out, bumped
    r = it[0]
    ends = [x for x in hist if x.key == "end" and is_iter_of(x.args[0], r)]
    if not ends:
        out.append("not every waiting task is visited")
    for x in hist:
        if x.key == "item" and is_iter_of(x.args[0], r):
            if not any(w.key in ("Waker::wake_by_ref", "Waker::wake") and contains(w.args[0], lambda y: y == x.args[1])
                       for w in hist):
                out.append("a visited task is not woken")
    return out, bumped


def is_iter_of(it, rec):
    n = 0
    while it[0] == "op" and it[1] in ("iter", "rev", "enumerate", "copied", "cloned", "peekable") and n < 8:
        it = it[2]
        n += 1
    if it[0] == "sym" and it[1] == rec.site:
        return True
    return it[0] == "sym" and it[2] == "WakersArena::iter" and it[3] == rec.args


def bumps(val, loc):
    if val[0] == "op" and val[1] == "Add" and len(val) > 3 and val[3][0] == "i" and val[3][1] != 0:
        return val[2][0] in ("init", "proj", "sym")
    if val[0] == "op" and val[1] == "Add" and val[2][0] == "i" and val[2][1] != 0:
        return True
    return val[0] == "sym" and val[2].endswith(("wrapping_add", "saturating_add", "checked_add")) and val[3][1] != ("i", 0)


def semantics(F, rep, pre, report=True):
    """what finishing one level does in each tracking mode"""
    vid = visitor_adt(F)
    fo = [f for f in F.fns.values() if f.self_ty is not None and f.self_ty.k == "adt" and f.self_ty.n == vid and f.argc == 1
          and f.id.endswith("::finish_one")]
    if not rep.anchor(vid and fo, pre + ":anchor:finish_one", "the function that closes one level of a path"):
        return None
    fo = fo[0]
    fields = F.field_tys(vid)[0]
    S = Sem()
    S.vid = vid
    S.behavior = [n for n, t in fields if t.k == "adt" and t.n in F.adts and len(F.adts[t.n]["variants"]) > 1]
    S.depth = [n for n, t in fields if t.s in ("u8", "u16", "u32", "u64", "usize")]
    if not rep.anchor(len(S.behavior) == 1 and len(S.depth) <= 1, pre + ":anchor:mode", "the tracking mode of a visitor"):
        return None
    S.behavior = S.behavior[0]
    S.depth = S.depth[0] if S.depth else None
    bt = [t for n, t in fields if n == S.behavior][0].n
    S.bt = bt
    S.modes = {}
    S.version = set()
    V = ("D", ("vis",))
    for vi, v in enumerate(F.adts[bt]["variants"]):
        env = Env()
        env.write_tree((V, (("f", S.behavior),)), {(): ("agg", "adt", bt, vi, v["name"])})
        h0 = []

        def hook(eng, ev, env, st):
            return lookup_some(eng, ev, env, st)
        m = calls(F, rep, fo, opaque=ARENA, stores=True, results=hook, argvals={1: ("ref", (V, ()))}, env=env)
        mode = {"reg": set(), "wake": set(), "probs": [], "depth": set(), "lists": set()}
        for val, hist, e in m.rets:
            d0 = ("init", (V, (("f", S.depth),)))
            dn = e.read((V, (("f", S.depth),))) if S.depth else None
            step = None
            if dn is not None:
                if dn[0] == "op" and dn[1] == "Add" and dn[2] == d0 and dn[3][0] == "i":
                    step = dn[3][1]
                elif dn[0] == "sym" and dn[2].split("::")[-1].endswith("_add") and dn[3][0] == d0 and dn[3][1][0] == "i":
                    step = dn[3][1][1]
                elif dn == d0:
                    step = 0
            mode["depth"].add(step)
            isd = (lambda x: x == dn) if dn is not None else (lambda x: False)
            for r in hist:
                if r.key == "HashMap::entry":
                    k = template(keyval(r, 1), V, isd)
                    ok = registered(hist, r)
                    mode["reg"].add((k, ok))
                if r.key in ("HashMap::get_mut", "HashMap::get"):
                    k = template(keyval(r, 1), V, isd)
                    E = ("D", ("sym", r.site, "HashMap::lookup", ()))
                    pr, ver = wake_problems(hist, r, E)
                    mode["wake"].add(k)
                    mode["probs"] += pr
                    if ver:
                        S.version.add(ver[1])
            if not any(r.key == "HashMap::entry" for r in hist):
                mode["reg"].add(None)
            if not any(r.key in ("HashMap::get_mut", "HashMap::get") for r in hist):
                mode["wake"].add(None)
        S.modes[vi] = mode
    return S


def registered(hist, r):
    """after looking up the entry of rec r a slot is taken in that entry's list and kept with the same key"""
    ent = [x for x in hist if x.key.startswith("Entry::or_") and contains(x.args[0], lambda y: y == r.site)]
    add = [x for x in hist if x.key == "WakersArena::add" and any(contains(x.args[1], lambda y: y == e.site) for e in ent)]
    if not ent or not add:
        return "no slot is taken"
    kv = keyval(r, 1)
    for x in hist:
        if x.key in ("Vec::push", "Extend::extend", "Vec::insert", "store", "Vec::extend_from_slice"):
            vals = [w for t in x.trees[1:] for w in t.values()] if x.key != "store" else [x.args[1]]
            if any(contains(w, lambda y: y == add[0].site) for w in vals):
                if x.key == "store" or any(w == kv for w in vals):
                    return None
                return "the slot is kept under another key"
    return "the slot is not kept"


def visits(S, hist):
    """(index, path visited, mode, payload refs, visitor root) for each visit of a path's levels"""
    for i, r in enumerate(hist):
        if r.key == "Path::visit_hashes":
            t = r.trees[1]
            b = t.get(("*", ("f", S.behavior)))
            pay = [w for p, w in t.items() if len(p) > 2 and p[0] == "*" and p[1] == ("f", S.behavior)]
            root = t[()][1][0] if t[()][0] == "ref" else None
            yield i, deref1(r.args[0]), (b[3] if b is not None and b[0] == "agg" else None), pay, root


def notification(S, hist, path, wakers):
    """problems with the announcement of a change of `path` in this history; [] when complete"""
    vs = [v for v in visits(S, hist) if v[1] == path]
    if not vs:
        return ["the change is never announced"]
    out = []
    kb = kr = False
    for i, p, mode, pay, root in vs:
        if mode is None:
            return ["?"]
        sem = S.modes[mode]
        if not any(w[0] == "ref" and w[1][0] == ("D", wakers) for w in pay):
            if sem["wake"] != {None}:
                out.append("the announcement goes to another store's subscribers")
            continue
        if None not in sem["wake"] and sem["wake"]:
            kb = True
        for r in hist[i:]:
            if r.key in ("HashMap::get_mut", "HashMap::get") and r.args[0][0] == "ref" and r.args[0][1][0] == ("D", wakers):
                isd = depth_after(S, root)
                k = template(keyval(r, 1), root, isd)
                E = ("D", ("sym", r.site, "HashMap::lookup", ()))
                pr, ver = wake_problems(hist, r, E)
                out += pr
                S.regular_wake = k
                kr = True
    if not kb:
        out.append("subscribers to changes inside enclosing data are not notified")
    if not kr:
        out.append("subscribers to this datum and the data inside it are not notified")
    return out


def depth_after(S, root):
    def isd(x):
        if x[0] == "proj" and x[2] and x[2][-1] == ("f", S.depth):
            return True
        if x[0] == "init" and x[1][0] == root and x[1][1][-1:] == (("f", S.depth),):
            return True
        return False
    return isd


def borrow_ok(eng, ev, env, st):
    """the data is there"""
    if ev.key in ("Path::path_borrow", "Path::path_borrow_mut"):
        g = eng.sym(env, ev.ctx, ev.block, ev.key, ev.args)
        return [(some({(): g}), st, False)]
    return lookup_some(eng, ev, env, st)


def borrow_none(eng, ev, env, st):
    if ev.key in ("Path::path_borrow", "Path::path_borrow_mut"):
        return [(dict(NONE), st, False)]
    return lookup_some(eng, ev, env, st)


def guards_in(F, val):
    """values of types with their own drop code inside a returned value"""
    out = []
    for p, v in val.items():
        if v[0] == "agg" and v[1] == "adt" and v[2] in F.adts:
            for i in F.trait_impls("Drop"):
                if i["self_ty"].k == "adt" and i["self_ty"].n == v[2]:
                    out.append((i, {q[len(p):]: w for q, w in val.items() if q[:len(p)] == p}))
    return out


def writers(F):
    """functions that obtain exclusive access to a path's data"""
    out = []
    impls = {it["id"] for i in F.trait_impls("Path") for it in i["items"]}
    for f in F.fns.values():
        if f.crate.name != "x_bow" or f.id in impls or f.coroutine:
            continue
        if f.parent in impls:
            continue
        for b in f.blocks:
            t = b["t"]
            if t[0] == "call" and "c" in t[1] and "fn" in t[1]["c"]:
                n = t[1]["c"]["fn"]["id"]
                if n.endswith(("Path::path_borrow_mut", "PathExt::borrow_opt_mut", "PathExt::borrow_opt_mut_without_notifying",
                               "PathExtGuaranteed::borrow_mut", "PathExtGuaranteed::borrow_mut_without_notifying")):
                    out.append(f)
                    break
    return out


def notify(F, rep):
    """Obligations (who is told is decided in track.x01): every function that obtains a mutable borrow of a path's data borrows that very
    path; a guard gives access to the datum it holds; nothing is announced when the data is absent; a
    setter stores exactly the given value at the path, or hands it back."""
    pre = "X01"
    S = semantics(F, rep, pre)
    if S is None:
        return
    S.regular_wake = None
    ws = writers(F)
    n = 0
    for f in sorted(ws, key=lambda f: f.id):
        last = f.id.rsplit("::", 1)[-1]
        silent = "without_notifying" in last
        if f.kind not in ("AssocFn",) or f.self_ty is not None and f.self_ty.k == "adt":
            continue     # the adaptors are judged by X06
        key = "%s:%s" % (pre, last)
        try:
            m = calls(F, rep, f, opaque=ARENA, stores=True, results=borrow_ok)
            m0 = calls(F, rep, f, opaque=ARENA, stores=True, results=borrow_none)
        except Incomplete as e:
            rep.undecided(key, str(e), f.loc)
            continue
        for val, hist, env in m.rets:
            n += 1
            b = [r for r in hist if r.key == "Path::path_borrow_mut"]
            if not rep.check(b and all(deref1(r.args[0]) == SELF for r in b), key + ":place", "%s must borrow its own path" % f.name, f.loc):
                continue
            gs = guards_in(F, val)
            own = [r for r in hist if r.key == "Path::visit_hashes"]
            if silent:
                rep.check(not own and not gs, key + ":silent", "%s is documented not to notify" % f.name, f.loc)
                continue
            if gs:
                for impl, tree in gs:
                    check_guard(F, rep, S, f, key, impl, tree, b[0])
        for val, hist, env in m0.rets:
            rep.check(not any(r.key in ("Path::visit_hashes", "HashMap::get_mut") for r in hist), key + ":absent",
                      "%s announces a change although the data is absent" % f.name, f.loc)
        if last in ("set", "set_opt"):
            setter(F, rep, S, f, key, m, m0)
        if last == "borrow_opt_mut":
            rep.check(all(v[()][0] == "agg" and v[()][4] == "None" for v, h, e in m0.rets) and m0.rets, key + ":none",
                      "%s gives None when the data is absent" % f.name, f.loc)
    for mname in ("notify_changed", "borrow_opt_mut", "set_opt", "until_change", "until_bubbling_change"):
        rep.anchor(F.fn_named("PathExt::" + mname), pre + ":anchor:" + mname, "path operation " + mname)
    readers(F, rep, pre)
    store_access(F, rep, pre)
    rep.floor("mutable_access_paths", n, 6)


def store_site(hist):
    for r in hist:
        if r.key == "Path::store_wakers" and deref1(r.args[0]) == SELF:
            return r.site
    return None


def settle(rep, key, pr, f):
    if pr == ["?"]:
        rep.undecided(key, "tracking mode not a constant", f.loc)
    else:
        rep.check(not pr, key, "%s: %s" % (f.name, "; ".join(sorted(set(pr)))), f.loc)


def check_guard(F, rep, S, f, key, impl, tree, borrow):
    """the guard that f returns announces, when dropped, the path f was called on"""
    G = ("D", ("guardobj",))
    g = [w for p, w in tree.items() if w == ("sym", borrow.site, "Path::path_borrow_mut", borrow.args)]
    rep.check(len(g) == 1, key + ":guard-data", "%s: the guard must hold the borrow it was given" % f.name, f.loc)
    # what the guard dereferences to is the borrowed datum
    for tr in ("Deref", "DerefMut"):
        for i in F.trait_impls(tr):
            if i["self_ty"].k == "adt" and i["self_ty"].n == impl["self_ty"].n:
                fn = F.impl_fn(i, "deref" if tr == "Deref" else "deref_mut")
                env = Env()
                env.write_tree((G, ()), tree)
                m = calls(F, rep, fn, argvals={1: ("ref", (G, ()))}, env=env)
                for v, h, e in m.rets:
                    r = v[()]
                    rep.check(contains(r, lambda x: x == (g[0] if g else None)), key + ":guard-" + tr.lower(),
                              "the guard must give access to the datum it borrowed", fn.loc)


def setter(F, rep, S, f, key, m, m0):
    A2 = ("init", (("L", 0, 2), ()))
    for val, hist, env in m.rets:
        b = [r for r in hist if r.key == "Path::path_borrow_mut"]
        st = [r for r in hist if r.key == "store" and b and r.args[0][0] == ("D", ("gderef", ("sym", b[0].site, "Path::path_borrow_mut", b[0].args)))]
        if not st:
            st = [r for r in hist if r.key == "store" and b and contains(r.args[0], lambda x: x == b[0].site)]
        rep.check(st and st[-1].args[1] == A2, key + ":stores", "%s must store the given value at the path" % f.name, f.loc)
        v = val[()]
        if v[0] == "agg":
            rep.check(v[4] == "Ok", key + ":ok", "%s must report success" % f.name, f.loc)
    for val, hist, env in m0.rets:
        v = val[()]
        if v[0] == "agg":
            rep.check(v[4] == "Err" and val.get((("v", "Err"), ("f", "0"))) == A2, key + ":err",
                      "%s must hand the value back when there is no place for it" % f.name, f.loc)


def readers(F, rep, pre):
    """shared access never announces anything and reaches the path's datum"""
    for suffix in ("PathExt::borrow_opt", "PathExt::get_opt", "PathExtGuaranteed::borrow", "PathExtGuaranteed::get"):
        for f in F.fn_named(suffix):
            m = calls(F, rep, f, opaque=ARENA, results=borrow_ok)
            for val, hist, env in m.rets:
                b = [r for r in hist if r.key == "Path::path_borrow"]
                rep.check(len(b) >= 1 and all(deref1(r.args[0]) == SELF for r in b) and not any(
                    r.key in ("Path::visit_hashes", "Path::path_borrow_mut") for r in hist), "%s:%s:read" % (pre, suffix.split("::")[-1]),
                    "%s must read its own path and announce nothing" % f.name, f.loc)
                if b:
                    rep.check(any(contains(w, lambda x: x == b[-1].site) for w in val.values()),
                              "%s:%s:value" % (pre, suffix.split("::")[-1]), "%s must return the path's datum" % f.name, f.loc)


def store_access(F, rep, pre):
    """the store's cell is borrowed mutably only by its root path"""
    roots = [i for i in F.trait_impls("Path") if i["self_ty"].k == "adt"]
    impls = {it["id"] for i in roots for it in i["items"]}
    sid = [a["id"] for a in F.adt("store::Store")]
    if not rep.anchor(sid, pre + ":anchor:store", "the store type"):
        return
    cells = [n for n, t in F.field_tys(sid[0])[0] if t.k == "adt" and t.n.endswith("RefCell") and t.a and t.a[0].k != "adt"]
    cnt = 0
    for f in F.fns.values():
        if f.crate.name != "x_bow":
            continue
        txt = [(b["t"][1]["c"]["fn"]["name"], b["t"]) for b in f.blocks if b["t"][0] == "call" and "c" in b["t"][1] and "fn" in b["t"][1]["c"]]
        if not any("RefCell" in n and n.split("::")[-1] in ("borrow_mut", "get_mut", "replace", "as_ptr", "take", "swap", "replace_with", "try_borrow_mut") for n, t in txt):
            continue
        try:
            m = calls(F, rep, f, keys=("RefCell::borrow_mut", "RefCell::get_mut", "RefCell::replace", "RefCell::as_ptr", "RefCell::take",
                                       "RefCell::swap", "RefCell::try_borrow_mut"), opaque=ARENA, merge=False, seconds=20)
        except Incomplete:
            continue
        for val, hist, env in m.rets:
            for r in hist:
                a = r.args[0]
                if a[0] == "ref" and a[1][1][-1:] and a[1][1][-1] == ("f", cells[0] if cells else None):
                    cnt += 1
                    rep.check(f.id in impls and f.id.endswith("path_borrow_mut"), pre + ":raw:%s" % f.name,
                              "%s changes store data outside a path's mutable borrow" % f.name, r.where)
    rep.count("raw_store_writes", cnt)


def reach(F, rep):
    """Obligations: subscribing to a path registers, for every level of the path, exactly the key that a mutation at
    that level wakes (same function of identity and depth); subscribing to bubbling changes registers exactly the key that
    every mutation at or below wakes; the two kinds of key differ; each level advances the depth alike in
    every mode; a wake advances the counter and reaches every waiting task."""
    pre = "X02"
    S = semantics(F, rep, pre)
    if S is None:
        return
    S.regular_wake = None
    fo_loc = [f for f in F.fns.values() if f.id.endswith("::finish_one")][0].loc
    for vi, mode in S.modes.items():
        rep.check(not mode["probs"], "%s:mode%d:wake" % (pre, vi), "finishing a level: %s" % "; ".join(sorted(set(mode["probs"]))), fo_loc)
    nf = F.fn_named("PathExt::notify_changed")
    uc, ub = F.fn_named("PathExt::until_change"), F.fn_named("PathExt::until_bubbling_change")
    if not rep.anchor(nf and uc and ub, pre + ":anchor", "change notification and the two kinds of subscription"):
        return
    m = calls(F, rep, nf[0], opaque=ARENA, stores=True, results=borrow_ok)
    kws, kbs = set(), set()
    for val, hist, env in m.rets:
        w = ("sym", store_site(hist), "Path::store_wakers", (("ref", (SELFP, ())),))
        S.regular_wake = None
        settle(rep, pre + ":announce", notification(S, hist, SELF, w), nf[0])
        kws.add(S.regular_wake)
        for i, p, mode, pay, root in visits(S, hist):
            if mode is not None:
                kbs |= S.modes[mode]["wake"]
    krs, kb2 = set(), set()
    depthmodes = set()
    for f, kind in ((uc[0], "regular"), (ub[0], "bubbling")):
        m = calls(F, rep, f, opaque=ARENA, stores=True, results=borrow_ok)
        if not m.rets:
            rep.undecided(pre + ":" + kind, "no return", f.loc)
        for val, hist, env in m.rets:
            site = store_site(hist)
            wk = ("sym", site, "Path::store_wakers", (("ref", (SELFP, ())),))
            vs = list(visits(S, hist))
            if not rep.check(len(vs) >= 1 and all(v[1] == SELF for v in vs), "%s:%s:path" % (pre, kind),
                             "%s must subscribe to its own path" % f.name, f.loc):
                continue
            made = any(contains(v, lambda x: x == site) for v in val.values())
            rep.check(made, "%s:%s:store" % (pre, kind), "the subscription must belong to the path's store", f.loc)
            direct = False
            for i, p, mode, pay, root in vs:
                if mode is None:
                    rep.undecided("%s:%s" % (pre, kind), "tracking mode not a constant", f.loc)
                    continue
                sem = S.modes[mode]
                rep.check(sem["wake"] == {None}, "%s:%s:quiet" % (pre, kind), "subscribing must not notify anybody", f.loc)
                regs = {x for x in sem["reg"] if x is not None}
                if kind == "regular" and None not in sem["reg"] and regs:
                    for k, prob in regs:
                        rep.check(prob is None, "%s:%s:slot" % (pre, kind), "subscribing: %s" % prob, fo_loc)
                        krs.add(k)
                    lists = [w for w in pay if w[0] == "ref" and w[1][0][0] == "L"]
                    rep.check(any(w[0] == "ref" and w[1][0] == ("D", wk) for w in pay), "%s:%s:store" % (pre, kind),
                              "the subscription must be registered with the path's store", f.loc)
                    direct = True
                elif kind == "bubbling":
                    rep.check(sem["reg"] == {None}, "%s:%s:own-level-only" % (pre, kind),
                              "a bubbling subscription must not listen to the enclosing data", f.loc)
                    for r in hist[i:]:
                        if r.key == "HashMap::entry":
                            rep.check(r.args[0][0] == "ref" and r.args[0][1][0] == ("D", wk), "%s:%s:store" % (pre, kind),
                                      "the subscription must be registered with the path's store", f.loc)
                            kb2.add(template(keyval(r, 1), root, depth_after(S, root)))
                            ent = [x for x in hist if x.key.startswith("Entry::or_") and contains(x.args[0], lambda y: y == r.site)]
                            add = [x for x in hist if x.key == "WakersArena::add" and any(contains(x.args[1], lambda y: y == e.site) for e in ent)]
                            rep.check(len(add) == 1, "%s:%s:slot" % (pre, kind), "the subscription must take one slot in that entry's list", f.loc)
                            direct = True
            rep.check(direct, "%s:%s:registers" % (pre, kind), "%s never registers" % f.name, f.loc)
    rep.check(len(kws) == 1 and krs == kws, pre + ":regular:key",
              "a subscription must listen under the key that a mutation wakes: listens %s, wakes %s" % (sorted(krs, key=repr), sorted(kws, key=repr)), fo_loc)
    rep.check(len(kbs) == 1 and kb2 == kbs, pre + ":bubbling:key",
              "a bubbling subscription must listen under the key that a mutation below wakes: listens %s, wakes %s" % (
                  sorted(kb2, key=repr), sorted(kbs, key=repr)), fo_loc)
    rep.check(krs.isdisjoint(kb2), pre + ":kinds", "the two kinds of subscription must have different keys", fo_loc)
    for k in krs | kb2 | kws | kbs:
        if k is not None:
            rep.check(uses(k, "H"), pre + ":identity", "a key must depend on the path's identity", fo_loc)
            rep.check(not contains(k, lambda x: x in (("otherhash",),) or (isinstance(x, tuple) and len(x) == 2 and x[0] == "X")), pre + ":key-inputs",
                      "a key must be a function of the path's identity and depth only", fo_loc)
    if any(uses(k, "D") for k in krs if k):
        ds = set().union(*[m["depth"] for m in S.modes.values()])
        rep.check(len(ds) == 1 and 0 not in ds, pre + ":depth", "each level must advance the depth alike in every mode, advances %s" % sorted(ds, key=repr), fo_loc)


def guarantee(F, rep):
    """Obligations: the unconditional-access trait is implemented for a path type only if that path's own step can never
    fail and its parent also has the guarantee."""
    xbow.with_fixture(F)
    pre = "X04"
    impls = {}
    for i in F.trait_impls("Path"):
        p = None
        try:
            p = xbow.analyse_impl(F, Quiet(rep), i, i["crate"].name)
        except Incomplete:
            pass
        if p and i["self_ty"].k == "adt":
            impls.setdefault(i["self_ty"].n, []).append(p)
        elif p:
            impls.setdefault(i["self_ty"].k, []).append(p)
    n = total = 0
    have = set()
    for i in F.impls:
        if not (i.get("trait") or "").endswith("guarantee::PathExtGuaranteed"):
            continue
        st = i["self_ty"]
        name = st.n if st.k == "adt" else st.k
        key = "%s:%s:%s" % (pre, i["crate"].name, name)
        ps = impls.get(name)
        n += 1
        if not rep.check(ps is not None and st.k != "param", key + ":path", "the guarantee is given to %s, which is not a known path" % st.s, i["loc"]):
            continue
        have.add(name)
        for p in ps:
            rep.check(not p.partial["path_borrow"] and not p.partial["path_borrow_mut"], key + ":partial",
                      "%s promises unconditional access, but its own step can find no data" % st.s, i["loc"])
            if p.root:
                continue
            params = parent_params(F, p, st)
            ok = any(t.split("::")[-1].startswith("PathExtGuaranteed") and q in params for q, t in clauses(i))
            rep.check(ok, key + ":parent", "%s promises unconditional access, but its parent need not" % st.s, i["loc"])
    for name, ps in impls.items():
        if all(not p.partial["path_borrow"] and not p.partial["path_borrow_mut"] for p in ps):
            total += 1
    rep.count("total_paths", total)
    rep.floor("guarantees", n, 60)


class Quiet:
    """a report that records what was analysed but raises nothing"""

    def __init__(self, rep):
        self.r = rep

    def __getattr__(self, n):
        if n in ("engine", "note", "count"):
            return getattr(self.r, n)
        return lambda *a, **k: (bool(a[0]) if a else None)


def clauses(i):
    """(type, trait) bounds of an impl"""
    out = []
    for p in i["preds"]:
        m = re.search(r"TraitClause\(<(.*) as (.*)>, polarity", p)
        if m:
            out.append((m.group(1), m.group(2)))
    return out


def parent_params(F, p, st):
    """type parameters of the path type that are paths themselves"""
    out = [q for q, t in clauses(p.impl) if t.split("::")[-1].split("<")[0] == "Path"]
    if st.k in ("ref",):
        out += [st.t.s]
    return out


# ------------------------------------------------------------------------------------------- streams and adaptors
def uc_adt(F, rep, pre):
    a = [x for x in F.adt("until_change::UntilChange") if x["crate"].name == "x_bow"]
    if not rep.anchor(a, pre + ":anchor:stream", "the change stream type"):
        return None
    fields = F.field_tys(a[0]["id"])[0]
    ints = [n for n, t in fields if t.s in ("u64", "usize", "u32", "u128")]
    vecs = [n for n, t in fields if "Vec" in t.s or "SmallVec" in t.s or "[" in t.s]
    if not rep.anchor(len(ints) == 1 and len(vecs) == 1, pre + ":anchor:fields", "the change stream's last seen version and its slots"):
        return None
    return a[0]["id"], ints[0], vecs[0]


def poll_impl(F, adt, trait, meth):
    for i in F.trait_impls(trait):
        if i["self_ty"].k == "adt" and i["self_ty"].n == adt:
            return F.impl_fn(i, meth)
    return None


def over_field(it, fld):
    """iterator over all of self.<fld>; None when it is over something else, False when it leaves elements out"""
    n = 0
    part = False
    while it[0] == "op" and n < 8:
        if it[1] in ("take", "skip", "step_by", "zip", "filter", "take_while", "skip_while", "chain"):
            part = True
        elif it[1] not in ("iter", "rev", "enumerate", "copied", "cloned", "peekable", "iter_mut"):
            return None
        it = it[2]
        n += 1
    if it[0] == "ref" and it[1][1] and ("f", fld) in it[1][1]:
        return not part and it[1][1][-1] == ("f", fld)
    if it[0] == "init" and ("f", fld) in it[1][1]:
        return not part
    return None


def stream(F, rep):
    """Obligations: each poll visits every subscription slot, leaves the current waker in it, and records the combined
    version; it is ready exactly if it was polled before and the version moved; dropping gives back every slot once, and removes a
    key's entry only when nobody else waits there."""
    pre = "X05"
    u = uc_adt(F, rep, pre)
    S = semantics(F, rep, pre)
    if u is None or S is None:
        return
    adt, lv, slots = u
    pn = poll_impl(F, adt, "Stream", "poll_next")
    dr = poll_impl(F, adt, "Drop", "drop")
    if not rep.anchor(pn and dr, pre + ":anchor:impl", "poll and drop of the change stream"):
        return
    LV = (SELFP, (("f", lv),))
    vers = {v[-1] for v in S.version if v}
    for zero in (True, False):
        env = Env()
        if zero:
            env.write(LV, ("i", 0))
        try:
            m = calls(F, rep, pn, opaque=ARENA, stores=True, results=lookup_some, env=env)
        except Incomplete as e:
            rep.undecided(pre + ":poll", str(e), pn.loc)
            return
        eng = Engine(F, Monitor())
        read_version = False
        for val, hist, e in m.rets:
            its = [(r, over_field(r.args[0], slots)) for r in hist if r.key in ("item", "end")]
            ends = [r for r, o in its if r.key == "end" and o]
            if any(o is False for r, o in its):
                rep.violation(pre + ":poll:all", "a poll leaves out some of the keys it listens to", pn.loc)
            if not ends:
                if any(o is not None for r, o in its):
                    rep.violation(pre + ":poll:all", "a poll can stop before it has visited every key it listens to", pn.loc)
                else:
                    rep.undecided(pre + ":poll:all", "loop over the slots not recognised", pn.loc)
                continue
            rep.ok(pre + ":poll:all")
            new = e.read(LV)
            items = [r.args[1] for r, o in its if r.key == "item" and o]
            for item in items:
                up = [r for r in hist if r.key == "WakersArena::update" and contains(r.args[1], lambda y: y == item)]
                rep.check(up and all(contains(r.args[2], lambda y: y == ("init", (("L", 0, 2), ()))) for r in up), pre + ":poll:waker",
                          "every poll must leave the current task's waker at every key", pn.loc)
                ent = [r for r in hist if r.key in ("HashMap::entry", "HashMap::get", "HashMap::get_mut") and contains(
                    r.args[1], lambda y: y == item)]
                rep.check(ent, pre + ":poll:key", "every poll must look at the version of every key", pn.loc)
                if vers and contains(new, lambda y: y in vers):
                    read_version = True
            st = [r for r in hist if r.key == "store" and r.args[0] == LV]
            rep.check(st, pre + ":poll:baseline", "every poll must remember the version it has seen", pn.loc)
            old = ("i", 0) if zero else ("init", LV)
            v = val[()]
            ready = v[0] == "agg" and v[4] == "Ready"
            if v[0] != "agg":
                rep.undecided(pre + ":poll:result", "result not understood", pn.loc)
                continue
            if zero:
                rep.check(not ready, pre + ":poll:first", "the first poll only sets the baseline", pn.loc)
                continue
            if not st:
                continue
            eq = eng.known(e, ("op", "Eq", old, new))
            lt = eng.known(e, ("op", "Lt", old, new))
            zk = eng.known(e, ("op", "Eq", old, ("i", 0)))
            if eng.excluded(e, old, 0):
                zk = 0
            cmpd = any(contains(x, lambda y: y == old) and contains(x, lambda y: y == new) for x in e.facts)
            if ready:
                some_ = val.get((("v", "Ready"), ("f", "0")), TOP)
                rep.check(some_[0] == "agg" and some_[4] == "Some", pre + ":poll:endless", "the stream must not end", pn.loc)
                if zk == 1 or eq == 1 or lt == 0:
                    rep.violation(pre + ":poll:ready", "the stream fires although nothing changed since the last poll", pn.loc)
                elif eq is None and lt is None and not cmpd and items:
                    rep.violation(pre + ":poll:ready", "the stream fires without comparing versions", pn.loc)
                else:
                    rep.ok(pre + ":poll:ready")
            elif zk == 1:
                rep.ok(pre + ":poll:pending")
            else:
                if eq == 0 or lt == 1:
                    rep.violation(pre + ":poll:pending", "the stream misses a change that happened since the last poll", pn.loc)
                elif eq is None and lt is None and not cmpd and items:
                    rep.violation(pre + ":poll:pending", "the stream stays pending without comparing versions", pn.loc)
                else:
                    rep.ok(pre + ":poll:pending")
        if vers:
            rep.check(read_version, pre + ":poll:version", "the version a poll remembers must come from the counters that wakes advance", pn.loc)
    # drop
    for occupied in (True, False):
        def hook(eng, ev, env, st):
            if ev.key == "WakersArena::remove_sublist_if_empty":
                out = []
                for k in (0, 1):
                    r = Rec(("emptied", (("i", k),), (), str(ev.loc), ("@", ev.ctx.id, ev.block, "")))
                    out.append(({(): ("i", k)}, st if r in st else st + (r,), False))
                return out
            if ev.key == "HashMap::entry":
                s = eng.sym(env, ev.ctx, ev.block, "HashMap::lookup", ())
                return [({(): ("agg", "adt", "std::collections::hash_map::Entry", 0, "Occupied"), (("v", "Occupied"), ("f", "0")): s}, st, False)]
            return lookup_some(eng, ev, env, st)
        try:
            m = calls(F, rep, dr, opaque=ARENA, stores=True, results=hook)
        except Incomplete as e:
            rep.undecided(pre + ":drop", str(e), dr.loc)
            break
        for val, hist, e in m.rets:
            its = [(r, over_field(r.args[0], slots)) for r in hist if r.key in ("item", "end")]
            ends = [r for r, o in its if r.key == "end" and o]
            if not ends:
                if its:
                    rep.violation(pre + ":drop:all", "dropping a stream can leave slots behind", dr.loc)
                else:
                    rep.undecided(pre + ":drop:all", "loop over the slots not recognised", dr.loc)
                continue
            rep.ok(pre + ":drop:all")
            items = [r.args[1] for r, o in its if r.key == "item" and o]
            for item in items:
                rm = [r for r in hist if r.key == "WakersArena::remove" and contains(r.args[1], lambda y: y == item)]
                rep.check(len(rm) == 1, pre + ":drop:slot", "dropping a stream must give back each slot exactly once", dr.loc)
                lk = [r for r in hist if r.key in ("HashMap::entry", "HashMap::get", "HashMap::get_mut", "HashMap::remove") and contains(
                    r.args[1], lambda y: y == item)]
                gone = [r for r in hist if r.key in ("OccupiedEntry::remove", "OccupiedEntry::remove_entry", "HashMap::remove", "HashMap::clear")]
                emp = [r for r in hist if r.key == "emptied"]
                if gone:
                    rep.check(any(x.args[0] == ("i", 1) and hist.index(x) < hist.index(gone[0]) for x in emp), pre + ":drop:others",
                              "a key's entry may be removed only when nobody else waits there", dr.loc)
                    rep.check(lk, pre + ":drop:entry", "the entry removed must be the slot's own", dr.loc)
                elif emp:
                    rep.check(all(x.args[0] == ("i", 0) for x in emp), pre + ":drop:stale",
                              "an entry whose list has been given back must not stay in the map", dr.loc)
                if emp and rm:
                    rep.check(hist.index(emp[0]) > hist.index(rm[0]), pre + ":drop:order", "the slot must be given back before the list is", dr.loc)
        break


def mk(vn, vi, payload=None):
    t = {(): ("agg", "adt", "core::task::poll::Poll", vi, vn)}
    if payload is not None:
        for p, v in payload.items():
            t[(("v", vn), ("f", "0")) + p] = v
    return t


def adaptors(F, rep):
    """Obligations, for every combination of first/later poll, changed/unchanged data and present/absent data: the change stream
    is polled (so the waker is registered) on every poll; the callback runs exactly once if this is the first poll or the
    data changed, with the path's data, and otherwise not at all; the other parts of each adaptor's contract as documented."""
    pre = "X06"
    u = uc_adt(F, rep, pre)
    if u is None:
        return
    adt, lv, slots = u
    n = 0
    kinds = {"ForEach": ("Future", "poll"), "ForEachAsync": ("Future", "poll"), "BindForEach": ("Future", "poll"), "SignalStream": ("Stream", "poll_next")}
    for name, (tr, meth) in kinds.items():
        a = [x for x in F.adt(name) if x["crate"].name == "x_bow"]
        fn = poll_impl(F, a[0]["id"], tr, meth) if a else None
        if not rep.anchor(fn, "%s:anchor:%s" % (pre, name), "adaptor " + name):
            continue
        fields = F.field_tys(a[0]["id"])[0]
        ucf = [f for f, t in fields if t.k == "adt" and t.n == adt]
        pf = [f for f, t in fields if t.k == "ref"]
        futf = [f for f, t in fields if t.k == "adt" and t.n.endswith("option::Option")]
        bf = [f for f, t in fields if t.s == "bool"]
        if not rep.anchor(len(ucf) == 1 and len(pf) == 1, "%s:anchor:%s:fields" % (pre, name), "parts of " + name):
            continue
        for first in (1, 0):
            for c0 in ((0, 1) if not first else (0,)):
                for data in (1, 0):
                    for fire in ((0, 1) if bf else (0,)):
                        n += adaptor_case(F, rep, pre, name, fn, adt, lv, ucf[0], pf[0], futf[0] if futf else None, bf[0] if bf else None,
                                          first, c0, data, fire)
    rep.floor("adaptor_cases", n, 24)


def adaptor_case(F, rep, pre, name, fn, adt, lv, ucf, pf, futf, bf, first, c0, data, fire):
    key = "%s:%s" % (pre, name)
    PATH = ("init", (SELFP, (("f", pf),)))
    env = Env()
    env.write((SELFP, (("f", ucf), ("f", lv))), ("i", 0 if first else 7))
    if bf:
        env.write((SELFP, (("f", bf),)), ("i", fire))

    def hook(eng, ev, env, st):
        site = ("@", ev.ctx.id, ev.block, "")
        if ev.key == "Stream::poll_next":
            rid = ev.info.get("rid") if ev.info else None
            g = F.fns.get(rid) if rid else None
            if g is not None and g.self_ty is not None and g.self_ty.k == "adt" and g.self_ty.n == adt:
                loc = eng.deref(env, ev.args[0])
                vl = (loc[0], loc[1] + (("f", lv),))
                cur = env.read(vl)
                prev = [i for i, r in enumerate(st) if r.key == "uc"]
                chg = any(r.key == "Path::visit_hashes" for r in st[(prev[-1] if prev else 0):]) or (c0 and not prev)
                ready = cur != ("i", 0) and chg
                env.write(vl, ("i", 7))
                k = Rec(("uc", (("i", int(ready)), ("i", len(prev)), ev.args[1]), (), str(ev.loc), site))
                return [(mk("Ready", 0, some({(): UNIT})) if ready else mk("Pending", 1), st if len(prev) > 6 else st + (k,), False)]
            s = ("s", "<value 2>" if any(r.key == "inc" for r in st) else "<value 1>")
            def rec(x):
                r = Rec(("inc", (("s", x), s), (), str(ev.loc), site))
                return st if r in st else st + (r,)
            return [(mk("Ready", 0, some({(): s})), rec("Some"), True), (mk("Ready", 0, dict(NONE)), rec("None"), True),
                    (mk("Pending", 1), rec("Pending"), True)]
        if ev.key in ("Path::path_borrow", "Path::path_borrow_mut"):
            return borrow_ok(eng, ev, env, st) if data else borrow_none(eng, ev, env, st)
        if ev.key == "Future::poll":
            def rec2(x):
                return st + (Rec(("fut", (("s", x), ev.args[0]), (), str(ev.loc), site)),)
            return [(mk("Ready", 0, {(): UNIT}), rec2("Ready"), False), (mk("Pending", 1), rec2("Pending"), False)]
        return lookup_some(eng, ev, env, st)

    scen = "%s poll, data %s, %s%s" % ("first" if first else "later", "present" if data else "absent", "changed" if c0 else "unchanged",
                                       ", firing immediately" if fire else "")
    try:
        m = calls(F, rep, fn, opaque=ARENA, stores=True, results=hook, env=env)
    except Incomplete as e:
        rep.undecided(key, str(e), fn.loc)
        return 0
    want = bool(first or c0)
    eng = Engine(F, Monitor())
    for val, hist, e in m.rets:
        v = val[()]
        if v[0] != "agg":
            rep.undecided(key + ":result", "result not understood", fn.loc)
            continue
        ready = v[4] == "Ready"
        cb = [r for r in hist if r.key in ("FnMut::call_mut", "FnOnce::call_once", "Fn::call") and not contains(r.args[0], lambda x: x == "closure" )]
        uc = [r for r in hist if r.key == "uc"]
        inc = [r.args[0][1] for r in hist if r.key == "inc"]
        borrow = [r for r in hist if r.key == "Path::path_borrow"]
        if not ready or name == "SignalStream":
            rep.check(uc, key + ":registers", "%s: a poll that stays pending must poll the change stream (%s)" % (name, scen), fn.loc)
        rep.check(all(contains(r.args[2], lambda x: x == ("init", (("L", 0, 2), ()))) for r in uc), key + ":waker",
                  "%s must pass its own task context on" % name, fn.loc)
        rep.check(all(deref1(r.args[0]) == PATH for r in borrow), key + ":path", "%s must read its own path" % name, fn.loc)
        if name == "SignalStream":
            w = bool((first and fire) or c0)
            rep.check(ready == w, key + ":fires", "%s %s (%s)" % (name, "must fire" if w else "must not fire", scen), fn.loc)
            if ready and w:
                o = val.get((("v", "Ready"), ("f", "0")), TOP)
                if o[0] == "agg":
                    rep.check((o[4] == "Some") == bool(data), key + ":ends", "%s must end exactly when the data is absent" % name, fn.loc)
            continue
        exp = want and bool(data)
        if name == "BindForEach":
            had, ended = "Some" in inc, "None" in inc
            rep.check("None" in inc or "Pending" in inc or (had and not data), key + ":drains",
                      "%s must take incoming values until there are none (%s)" % (name, scen), fn.loc)
            wr = [r for r in hist if r.key == "Path::path_borrow_mut" and deref1(r.args[0]) == PATH]
            if had and data:
                s = [r.args[1] for r in hist if r.key == "inc" and r.args[0][1] == "Some"]
                stv = [r.args[1] for r in hist if r.key == "store" and r.args[1] in s and r.args[0][0] != SELFP]
                rep.check(wr and stv and stv[-1] == s[-1], key + ":writes", "%s must write an incoming value to the path (%s)" % (name, scen), fn.loc)
                rep.check(any(r.key == "Path::visit_hashes" for r in hist), key + ":announces",
                          "%s must announce the values it writes" % name, fn.loc)
            elif not had:
                rep.check(not wr, key + ":writes-only-incoming", "%s writes without an incoming value" % name, fn.loc)
            rep.check(ready == bool(ended or (had and not data)), key + ":finishes",
                      "%s must finish exactly when the incoming values end or have no place (%s)" % (name, scen), fn.loc)
            if ready:
                continue
            if had and not first:
                if not c0:
                    rep.check(not cb, key + ":echo", "%s must not call back for a value that came in (%s)" % (name, scen), fn.loc)
                continue
        else:
            rep.check(not ready, key + ":endless", "%s never finishes" % name, fn.loc)
        rep.check(bool(cb) == exp and len(cb) <= 1, key + ":callback", "%s %s (%s)" % (
            name, "must run the callback once" if exp else "must not run the callback", scen), fn.loc)
        for r in cb:
            if data and borrow:
                rep.check(any(contains(w, lambda x: x == b.site) for b in borrow for t in r.trees[1:] for w in t.values()), key + ":argument",
                          "%s must pass the path's current data" % name, fn.loc)
        if futf:
            FL = (SELFP, (("f", futf),))
            fp = [r for r in hist if r.key == "fut"]
            if cb:
                st = [r for r in hist if r.key == "store" and r.args[0] == FL] or (e.read(FL)[0] == "agg")
                rep.check(fp, key + ":starts", "%s must start the new future in the same poll (%s)" % (name, scen), fn.loc)
                rep.check(contains(tuple(sorted(e.tree(FL).items(), key=repr)), lambda x: x == cb[0].site) or e.read(FL)[4:5] == ("None",),
                          key + ":replaces", "%s must keep the new future in place of the old" % name, fn.loc)
            elif not fp:
                rep.check(eng.known(e, ("discr", ("init", FL))) == 0 or eng.excluded(e, ("discr", ("init", FL)), 1), key + ":runs", "%s must keep polling the current future (%s)" % (name, scen), fn.loc)
            if fp:
                fin = e.read(FL)
                done = fp[-1].args[0][1] == "Ready"
                if done:
                    rep.check(fin[0] == "agg" and fin[4] == "None", key + ":finished", "%s must not poll a finished future again" % name, fn.loc)
                else:
                    rep.check(not (fin[0] == "agg" and fin[4] == "None"), key + ":keeps", "%s must keep a future that is still running" % name, fn.loc)
    return 1 if m.rets else 0
