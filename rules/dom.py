"""Rendering and unmounting: the functions that put nodes on the page and take them off are explored path-sensitively from the
compiler's MIR, for every kind of rendering context, for every state a node future can be in, and for both values of the
"an ancestor is already gone" flag; loops to a fixpoint."""
from absint import Monitor, Engine, Incomplete, TOP, Env, mentions, ORDERING
from precise import EMPTY, length_of, at
from comb import fields, isname, type_mentions, self_loc, local, uncast, strip_copy

CRATE = "async_ui_web_core"
SELF = ("init", (("L", 0, 1), ()))
CTX0 = ("ref", (("D", ("ctx0",)), ()))


def arg(n, path=()):
    return ("init", (("L", 0, n), path))


def explore(F, rep, fn, mon, key, env=None, seconds=60, merge=True):
    e = Engine(F, mon, merge=merge)
    e.seconds = seconds
    try:
        e.run(fn, None, env)
        rep.engine(e)
        return True
    except Incomplete as x:
        rep.undecided(key, str(x), fn.loc)
        return False


def tri(rep, c, key, msg, where):
    """True: discharged, False: violated, None: not understood"""
    k = (key, str(where), c)
    if k in rep.__dict__.setdefault("judged", set()):
        return c
    rep.judged.add(k)
    if c is None:
        rep.undecided(key, "not understood: " + msg, str(where))
    else:
        rep.check(c, key, msg, str(where))
    return c


# ------------------------------------------------------------------ values
def variant_of(eng, env, V):
    d = eng.known(env, ("discr", ("init", (("D", SELF), ()))))
    return V.get(d)


def vfield(v, f):
    return ("init", (("D", SELF), (("v", v), ("f", f))))


class Ctx:
    """the rendering context type: its variants and their fields, by type"""

    def __init__(self, F, rep):
        self.F = F
        a = F.adt("context::DomContext")
        self.ok = False
        if not rep.anchor(len(a) == 1 and a[0]["crate"].name == CRATE, "DomContext", "the enum DomContext"):
            return
        a = a[0]
        self.id = a["id"]
        self.V = {}
        self.f = {}
        for n, v in enumerate(a["variants"]):
            if v["name"] not in ("Container", "Sibling", "Child"):
                continue
            self.V[n] = v["name"]
            r = {}
            for f in v["fields"]:
                t = a["crate"].tys[f["ty"]]
                u = t.t if t.k == "ref" else t
                if u.k == "adt" and u.n == self.id:
                    r["parent"] = f["name"]
                elif type_mentions(u, "BTreeMap"):
                    r["group"] = f["name"]
                elif isname(u, "Node"):
                    r["node"] = f["name"]
                elif u.k in ("uint", "int", "prim") or u.s in ("u32", "usize", "u64"):
                    r["index"] = f["name"]
            self.f[v["name"]] = r
        self.ok = rep.anchor(set(self.V.values()) == {"Container", "Sibling", "Child"} and
                             set(self.f["Container"]) == {"group", "node"} and set(self.f["Sibling"]) == {"group", "node", "parent"}
                             and set(self.f["Child"]) == {"parent", "index"}, "DomContext:variants",
                             "the variants Container, Sibling and Child of DomContext")

    def method(self, rep, name):
        fs = self.F.inherent("context::DomContext", name)
        return fs[0] if rep.anchor(len(fs) == 1, "DomContext::" + name, "the method %s of DomContext" % name) else None

    def group(self, v):
        """the place of the node map of the context"""
        return (("D", vfield(v, self.f[v]["group"])), ("cell",))

    def is_node_ref(self, v, var):
        """v refers to the node field of the context"""
        w = vfield(var, self.f[var]["node"])
        return v == w or v == ("ref", (("D", w), ()))

    def is_parent_ref(self, v, var):
        w = vfield(var, self.f[var]["parent"])
        return v == w or v == ("ref", (("D", w), ()))

    def is_containing(self, v, var, getter):
        """v refers to the node children of this context go into"""
        if var == "Container":
            return self.is_node_ref(v, "Container") or self.call_of(v, getter, lambda a: a == SELF or a == ("ref", (("D", SELF), ())))
        return self.call_of(v, getter, lambda a: self.is_parent_ref(a, var)) or \
            self.call_of(v, getter, lambda a: a == SELF or a == ("ref", (("D", SELF), ())))

    def call_of(self, v, getter, pred):
        if v[0] == "ref" and v[1][1] == () and v[1][0][0] == "D":
            v = v[1][0][1]
        return v[0] == "sym" and v[2] == getter and len(v[3]) == 1 and pred(v[3][0])

    def known_node(self, v):
        """v is some node this context knows (so a different one than wanted is a definite mistake)"""
        for var, r in self.f.items():
            if "node" in r and self.is_node_ref(v, var):
                return True
        return False


def position_root(tree, pf):
    """does a position value built here denote the empty path?"""
    v = tree.get(pf, TOP)
    if v == EMPTY:
        return True
    if v[0] in ("init", "pushed", "i"):
        return False
    return None


def position_path(F, rep):
    a = F.adt("position::ChildPosition")
    if not rep.anchor(len(a) == 1, "ChildPosition", "the type ChildPosition"):
        return None
    fs = fields(F, a[0]["id"]) or []
    ps = [(("f", nm),) for nm, t in fs if isname(t, "SmallVec", "Vec", "VecDeque")]
    return ps[0] if rep.anchor(len(ps) == 1, "ChildPosition:path", "the list of indices in ChildPosition") else None


def pos_tree(env, tree):
    """the value of a position argument that may be passed by reference"""
    v = tree.get((), TOP)
    if v[0] == "ref":
        return env.tree(v[1])
    return tree


# ------------------------------------------------------------------ order of positions
def order(F, rep, pf):
    """positions compare from the outermost index inwards, and by length when one is a prefix of the other"""
    imps = [i for i in F.trait_impls("Ord") if isname(i["self_ty"], "ChildPosition")]
    fn = F.impl_fn(imps[0], "cmp") if len(imps) == 1 else None
    wr = F.inherent("position::ChildPosition", "wrap")
    if not rep.anchor(fn is not None and len(wr) == 1, "position", "ChildPosition::cmp and ChildPosition::wrap"):
        return
    old = ("init", (("D", SELF), pf))

    # how a position grows
    class W(Monitor):
        precise = True

        def on_return(self, eng, val, env, st, where):
            v = env.read((("D", SELF), pf))
            c = None
            if v[0] == "pushed" and v[1] == old:
                c = True if v[2] == arg(2) else (False if mentions(v[2], arg(2)) or v[2][0] == "i" else None)
            elif v == old or v[0] == "inserted" and v[1] == old and v[2] == ("i", 0):
                c = False
            elif v[0] == "pushed" and v[1] != old:
                c = False if v[1] == EMPTY or v[1][0] == "pushed" else None
            self.r.append(tri(rep, c, "wrap", "wrapping a position must append the combinator's own index once", wr[0].loc))
            return st
    w = W()
    w.r = []
    if not explore(F, rep, wr[0], w, "wrap") or w.r != [True] * len(w.r):
        return

    A, B = (("D", SELF), pf), (("D", arg(2)), pf)
    back = lambda loc: ("op", "rev", ("op", "iter", ("ref", loc)))
    good = ("op", "zip", back(A), back(B))

    def shape(it):
        """(which list first, which direction) of the iterator, or None"""
        if it == good:
            return True
        x = it
        if x[0] == "op" and x[1] == "rev" and x[2][0] == "op" and x[2][1] == "zip":
            return False      # aligns the innermost indices
        if x[0] == "op" and x[1] == "zip":
            parts = []
            for y in x[2:4]:
                d = 0
                while y[0] == "op" and y[1] == "rev":
                    d, y = d + 1, y[2]
                if y[:2] != ("op", "iter") or y[2] not in (("ref", A), ("ref", B)):
                    return None
                parts.append((y[2][1], d % 2))
            if parts[0][0] == parts[1][0]:
                return False
            if parts[0][1] == 1 and parts[1][1] == 1:
                return True
            return False
        return None

    def sides(v):
        """element refs of A and of B an element comparison looks at"""
        return [p for p in v if p[0] == "ref"]

    class C(Monitor):
        precise = True
        watch = True

        def init(self, eng, env):
            return ()

        def on_item(self, eng, it, item, env, st, where):
            c = shape(it)
            tri(rep, c, "cmp:direction", "positions must be compared pairwise from the outermost index inwards", where)
            return (("item", item),) + tuple(x for x in st if x == ("test",))

        def on_next(self, eng, it, env, st, where):
            # whatever the previous pair compared to, going on needs it to be equal
            self.all_equal(eng, env, st, where)
            return tuple(x for x in st if x == ("test",))

        def possible(self, eng, env, st):
            """the orders the current element of the left list can have to that of the right one"""
            items = [x[1] for x in st if x[0] == "item"]
            if len(items) != 1:
                return None
            pos = ("op", "pos", items[0])
            a, b = (env.read(at(l, pos)) for l in (A, B))
            p = {"Less", "Equal", "Greater"}
            swap = {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}
            for x in st:
                if x[0] != "cmp":
                    continue
                d = self.direction(x)
                if d is None:
                    continue
                for nm, n in ORDERING.items():
                    k = eng.known(env, ("discr", x[1]))
                    if k is not None and k != n or k is None and eng.excluded(env, ("discr", x[1]), n):
                        p.discard(nm if d else swap[nm])
            k = eng.known(env, eng.binop(env, "Eq", a, b))
            if k is not None:
                p &= {"Equal"} if k else {"Less", "Greater"}
            for x, y, nm in ((a, b, "Less"), (b, a, "Greater")):
                k = eng.known(env, eng.binop(env, "Lt", x, y))
                if k is not None:
                    p &= {nm} if k else {"Less", "Equal", "Greater"} - {nm}
            return p

        def direction(self, x):
            """True: the comparison has the element of the left list first; False: second; None: something else"""
            ro = [a[1] if a[0] in ("ref", "init") else None for a in x[2][:2]]
            if None in ro:
                return None
            isA = [r[0] == A[0] and r[1][: len(pf)] == pf and len(r[1]) > len(pf) for r in ro]
            isB = [r[0] == B[0] and r[1][: len(pf)] == pf and len(r[1]) > len(pf) for r in ro]
            return True if isA[0] and isB[1] else (False if isB[0] and isA[1] else None)

        def all_equal(self, eng, env, st, where):
            if not any(x[0] == "item" for x in st):
                return
            p = self.possible(eng, env, st)
            odd = ("test",) in st or p is None or any(x[0] == "cmp" and self.direction(x) is None for x in st)
            tri(rep, True if p == {"Equal"} else (None if odd or not p else False), "cmp:first-difference",
                "the first pair of indices that differs decides the order", where)

        def on_end(self, eng, it, env, st, where):
            self.all_equal(eng, env, st, where)
            return (("end", shape(it)),)

        def on_call(self, eng, ev, env, st):
            if ev.key.startswith("Ordering::") and ev.key.split("::")[1] not in ("is_eq", "is_ne", "is_lt", "is_gt", "is_le", "is_ge", "then", "then_with", "reverse"):
                return st + (("test",),) if ("test",) not in st else st
            if ev.key.startswith("Iterator::") and ev.key.split("::")[1] not in ("rev", "zip", "next", "by_ref", "copied", "cloned", "enumerate"):
                return st + (("test",),) if ("test",) not in st else st
            return st

        def results(self, eng, ev, env, st):
            if ev.key in ("Ord::cmp", "PartialOrd::partial_cmp") and len(ev.args) == 2:
                l = []
                for a in ev.args:
                    l.append(env.read(a[1]) if a[0] == "ref" and a[1][0][0] == "L" else a)
                l += [length_of(env, env.read(A)), length_of(env, env.read(B))]
                return [(None, st + (("cmp", eng.sym(env, ev.ctx, ev.block, ev.key, ev.args), tuple(l)),), False)]
            return None

        def on_return(self, eng, val, env, st, where):
            v = val[()]
            rev = 0
            while v[0] == "sym" and v[2] == "Ordering::reverse" and v[3]:
                rev, v = rev + 1, v[3][0]
            if v[0] == "sym" and v[2] == "Iterator::cmp" and len(v[3]) == 2:
                s = shape(("op", "zip") + tuple(v[3]))
                first = None
                y = v[3][0]
                while y[0] == "op" and y[1] in ("rev", "iter"):
                    y = y[2]
                if s:
                    s = (y == ("ref", A)) == (rev % 2 == 0)
                tri(rep, s, "cmp:lexicographic", "positions must be compared pairwise from the outermost index inwards", fn.loc)
                return st
            if any(x[0] == "end" for x in st):
                c = None
                for x in st:
                    if x[0] == "cmp" and x[1] == v:
                        a, b, la, lb = x[2]
                        if (a, b) == (la, lb):
                            c = rev % 2 == 0
                        elif (a, b) == (lb, la):
                            c = rev % 2 == 1
                if v[0] == "sym" and not any(x[0] == "cmp" and x[1] == v for x in st):
                    c = None
                elif v[0] == "agg":
                    c = False if v[4] == "Equal" and not self.len_known_equal(eng, env, A, B) else None
                    if v[4] == "Equal" and self.len_known_equal(eng, env, A, B):
                        c = True
                tri(rep, c, "cmp:prefix", "when one position is a prefix of the other the shorter one comes first", fn.loc)
                return st
            p = self.possible(eng, env, st)
            if p is None:
                # before any index was looked at
                c = None
                la, lb = (length_of(env, env.read(l)) for l in (A, B))
                for x in st:
                    if ("test",) not in st and x[0] == "cmp" and x[1] == v and x[2][:2] in ((la, lb), (lb, la)) and la[0] != "i" and lb[0] != "i" and \
                            eng.known(env, la) is None and eng.known(env, lb) is None:
                        c = False
                if v[0] == "agg" and v[4] == "Equal" and la == lb == ("i", 0):
                    c = True
                tri(rep, c, "cmp:element", "the first pair of indices that differs decides the order", fn.loc)
                return st
            odd = ("test",) in st or any(x[0] == "cmp" and self.direction(x) is None for x in st)
            c = None
            if v[0] == "agg" and v[4] in ORDERING and p:
                if v[4] == "Equal" or p != {v[4]}:
                    c = None if odd else False
                else:
                    c = True
            for x in st:
                if x[0] == "cmp" and x[1] == v and self.direction(x) is not None:
                    c = self.direction(x) == (rev % 2 == 0)
                    if c and "Equal" in p:
                        c = None if odd else False
            tri(rep, c, "cmp:element", "the first pair of indices that differs decides the order", fn.loc)
            return st

        def len_known_equal(self, eng, env, A, B):
            la, lb = length_of(env, env.read(A)), length_of(env, env.read(B))
            return eng.binop(env, "Eq", la, lb, True) == ("i", 1)
    # element comparisons of values (not references) go through temporaries: read them at the call
    explore(F, rep, fn, C(), "cmp", merge=False)

    # the exclusive end of the positions below one position
    ns = F.inherent("position::ChildPosition", "next_sibling")
    if len(ns) == 1:
        class N(Monitor):
            precise = True
            watch = True

            def init(self, eng, env):
                return (("op", "Len", old),)

            def on_return(self, eng, val, env, st, where):
                if eng.known(env, length_of(env, old)) == 0:
                    return st   # the root position has none
                tri(rep, is_next(val, pf, old), "next_sibling", "the position after all of a position's descendants is the one with its innermost index increased by one", ns[0].loc)
                return st
        explore(F, rep, ns[0], N(), "next_sibling")


def is_next(tree, pf, own):
    """tree is the position `own` (a list value) with its innermost index increased by one"""
    def base(v):
        """look through copies: an element of a copy is the element of the original"""
        v = strip_copy(v)
        if v[0] == "proj":
            b = base(v[1])
            if b[0] == "init":
                return ("init", (b[1][0], b[1][1] + v[2]))
        return v
    v = tree.get(pf, TOP)
    if pf not in tree and base(tree.get((), TOP))[0] == "init":
        r = base(tree[()])
        v = ("init", (r[1][0], r[1][1] + pf))
    b = base(v)
    if b != own:
        return None if v == TOP or v[0] == "sym" else False
    ch = {p[len(pf):]: x for p, x in tree.items() if p[: len(pf)] == pf and len(p) > len(pf)}
    if not ch:
        return False
    if len(ch) > 1:
        return None
    (p, x), = ch.items()
    if len(p) != 1 or p[0][0] != "ix":
        return None
    if p[0][1] != ("i", 0):
        return False if p[0][1][0] in ("i", "op") else None
    x = uncast(x)
    if x[0] == "op" and x[1] == "Add":
        if x[3] != ("i", 1) and x[3][0] == "i":
            return False
        if base(x[2]) == ("init", (own[1][0], own[1][1] + (("ix", ("i", 0)),))) and x[3] == ("i", 1):
            return True
    if x[0] == "sym":
        return None
    return False if x[0] in ("op", "i", "proj") else None


# ------------------------------------------------------------------ where a new node goes
class AddMon(Monitor):
    """state: (class of what the lookup found, events)"""
    precise = True

    def __init__(self, rep, C, pf, own):
        self.rep, self.C, self.pf, self.own = rep, C, pf, own
        self.rets = []

    def opaque(self, eng, fn, ev):
        return fn.id in self.own

    def init(self, eng, env):
        env.write((("L", 0, 2), self.pf), arg(2, self.pf))
        return ()

    def on_call(self, eng, ev, env, st):
        k = ev.key
        if k in ("BTreeMap::range", "BTreeMap::range_mut"):
            return st + (("range", ("@", ev.ctx.id, ev.block, ""), ev.args[0], self.bounds(env, ev)),)
        if k == "Node::insert_before":
            t = ev.trees[2]
            o = t.get((), TOP)
            r = t.get((("v", "Some"), ("f", "0")), TOP)
            if o[0] == "init":
                o = TOP
            return st + (("insert_before", ev.args[0], ev.args[1], o[4] if o[0] == "agg" else "?", r, str(ev.loc)),)
        if k in ("Node::append_child",):
            return st + (("insert_before", ev.args[0], ev.args[1], "None", TOP, str(ev.loc)),)
        if k in ("Node::remove_child", "Node::replace_child"):
            return st + (("dom", k, str(ev.loc)),)
        if k in ("BTreeMap::insert",):
            p = ev.trees[1]
            n = ev.args[2]
            return st + (("insert", ev.args[0], p.get(self.pf, p.get((), TOP)), n, str(ev.loc)),)
        if k.startswith("BTreeMap::") and k not in ("BTreeMap::range", "BTreeMap::len", "BTreeMap::is_empty", "BTreeMap::get", "BTreeMap::iter",
                                                     "BTreeMap::contains_key", "BTreeMap::keys", "BTreeMap::values", "BTreeMap::lower_bound"):
            return st + (("map", k, str(ev.loc)),)
        if isinstance(ev.id, str) and ev.id in self.own:
            ts = []
            for i, t in enumerate(ev.trees):
                ts.append(tuple(sorted(t.items(), key=repr)))
            return st + (("self", ev.key, tuple(ts), str(ev.loc)),)
        return st

    def bounds(self, env, ev):
        """'from': everything at or after the new position"""
        t = ev.trees[1]
        b = t.get((), TOP)
        b = strip_copy(b)
        if b[0] == "sym" and b[2] == "RangeInclusive::new" and len(b[3]) == 2:
            tr = env.tree(b[3][1][1]) if b[3][1][0] == "ref" else {}
            e = is_next(tr, self.pf, arg(2, self.pf)) if tr else None
            return "wrong" if e or strip_copy(tr.get(self.pf, TOP)) == arg(2, self.pf) and len(tr) <= 2 else None
        if b[0] != "agg":
            return None
        if b[4] == "RangeFrom":
            x = t.get((("f", "start"),), TOP)
            return self.start(env, x)
        if b[2] == "" and b[1] == "tuple":
            lo, hi = t.get((("f", "0"),), TOP), t.get((("f", "1"),), TOP)
            if lo[0] == "agg" and hi[0] == "agg" and hi[4] == "Unbounded" and lo[4] in ("Included", "Excluded"):
                return self.start(env, t.get((("f", "0"), ("v", lo[4]), ("f", "0")), TOP))
            if lo[0] == "agg" and hi[0] == "agg":
                return "other"
            return None
        if b[4] in ("RangeTo", "RangeFull", "RangeToInclusive", "Range"):
            return "other"
        return None

    def start(self, env, x):
        if x[0] == "ref":
            x = env.read((x[1][0], x[1][1] + self.pf))
        elif x[0] == "init":
            x = ("init", (x[1][0], x[1][1] + self.pf))
        x = strip_copy(x)
        if x == arg(2, self.pf):
            return "from"
        return None if x == TOP else "other"

    def on_item(self, eng, it, item, env, st, where):
        return st + (("item", it, item),)

    def on_end(self, eng, it, env, st, where):
        return st + (("end", it),)

    def on_return(self, eng, val, env, st, where):
        self.rets.append((variant_of(eng, env, self.C.V), st, env, eng))
        return st


def add_child(F, rep, C, pf):
    fn, gc, rc = C.method(rep, "add_child"), C.method(rep, "get_containing_node"), C.method(rep, "remove_child")
    if None in (fn, gc, rc):
        return
    m = AddMon(rep, C, pf, {fn.id, gc.id, rc.id})
    if not explore(F, rep, fn, m, "add_child", merge=False):
        return
    getter = "DomContext::get_containing_node"
    seen = set()
    for var, st, env, eng in m.rets:
        if var is None:
            d = env.facts.get(("discr", ("init", (("D", SELF), ()))))
            if d is not None and d[0] == "eq":
                continue          # a variant that only exists in tests
            rep.undecided("add_child:context", "a path does not say which kind of context it is for", fn.loc)
            continue
        seen.add(var)
        key = "add_child:%s" % var
        selfs = [x for x in st if x[0] == "self" and x[1] != getter]
        if var == "Child":
            if len(selfs) != 1 or any(x[0] in ("insert_before", "insert") for x in st):
                direct = any(x[0] in ("insert_before", "insert") for x in st)
                tri(rep, None if direct or len(selfs) == 1 else False, key, "a combinator's child hands its node to the combinator's own context, once", fn.loc)
                continue
            _, k, ts, where = selfs[0]
            if k != "DomContext::add_child":
                tri(rep, False if k == "DomContext::remove_child" else None, key, "a combinator's child hands its node to the combinator's own context", where)
                continue
            t = [dict(x) for x in ts]
            tri(rep, C.is_parent_ref(t[0].get((), TOP), "Child"), key + ":parent", "the node goes to the context the combinator itself renders in", where)
            want = ("pushed", arg(2, pf), vfield("Child", C.f["Child"]["index"]))
            p = t[1].get(pf, t[1].get((), TOP))
            c = True if p == want else (False if p[0] in ("pushed", "inserted", "init", "empty") and mentions(p, arg(2, pf)) or p in (arg(2), EMPTY) else None)
            tri(rep, c, key + ":position", "the position is extended with the child's index", where)
            n = t[2].get((), TOP)
            tri(rep, True if strip_copy(n) == arg(3) else None, key + ":node", "the new node itself is handed on", where)
            continue
        G = C.group(var)
        ib = [x for x in st if x[0] == "insert_before"]
        ins = [x for x in st if x[0] == "insert"]
        odd = [x for x in st if x[0] in ("dom", "map")]
        if odd:
            rep.undecided(key + ":other", "also does %s" % odd[0][1], odd[0][2])
        if selfs:
            rep.undecided(key + ":other", "also calls %s" % selfs[0][1], selfs[0][3])
            continue
        tri(rep, len(ib) == 1, key + ":once", "the node is inserted into the page exactly once", fn.loc)
        tri(rep, len(ins) == 1 if not odd else (True if len(ins) == 1 else None), key + ":recorded", "the node is recorded in the group under its position exactly once", fn.loc)
        for x in ins:
            tri(rep, True if x[1] == ("ref", G) else (False if any(x[1] == ("ref", C.group(v)) for v in ("Container", "Sibling")) else None),
                key + ":group", "the node is recorded in the context's own group", x[4])
            p = strip_copy(x[2])
            if p == arg(2):
                p = arg(2, pf)
            tri(rep, True if p == arg(2, pf) else (False if p == EMPTY or p[0] == "pushed" else None), key + ":key", "the node is recorded under its own position", x[4])
            tri(rep, True if strip_copy(x[3]) == arg(3) else None, key + ":value", "the recorded node is the new node", x[4])
        # the neighbour it goes in front of
        rngs = [x for x in st if x[0] == "range" and x[2] == ("ref", G)]
        alls = [x for x in st if x[0] == "range"]
        for r in rngs:
            tri(rep, {"from": True, "other": False, None: None}[r[3]], key + ":range", "the neighbour is looked up among the positions at or after the new one", fn.loc)
        if not rngs:
            tri(rep, False if alls or not mentioned_map(st) else None, key + ":range", "the neighbour is looked up in the context's own group", fn.loc)
            continue
        site = rngs[0][1]
        items = [x for x in st if x[0] == "item" and on_site(x[1], site)]
        ends = [x for x in st if x[0] == "end" and on_site(x[1], site)]
        for x in ib:
            _, recv, new, o, r, where = x
            tri(rep, True if C.is_containing(recv, var, getter) else (False if C.known_node(recv) or recv[0] == "init" else None), key + ":into",
                "the node is inserted into the element the context renders in", where)
            nv = env.read(new[1]) if new[0] == "ref" else new
            tri(rep, True if new == ("ref", (("L", 0, 3), ())) or strip_copy(nv) == arg(3) else None, key + ":new", "the inserted node is the new node", where)
            if not plain_next(items, ends, site):
                rep.undecided(key + ":before", "the neighbour is not the next entry of the range", where)
                continue
            if items:
                it = items[0][2]
                ok = o == "Some" and first_item(it) and r in (("ref", (("D", ("proj", it, (("f", "1"),))), ())), ("proj", it, (("f", "1"),)))
                bad = o == "None" or C.known_node(r) or (o == "Some" and not first_item(it) and it[2].endswith("next_back"))
                tri(rep, True if ok else (False if bad else None), key + ":before", "the node is inserted in front of the first recorded node that comes after it", where)
            elif ends:
                if var == "Container":
                    ok, bad = o == "None", o == "Some"
                else:
                    ok, bad = o == "Some" and C.is_node_ref(r, "Sibling"), o == "None" or C.known_node(r)
                tri(rep, True if ok else (False if bad else None), key + ":last",
                    "a node that comes after all others goes %s" % ("to the end" if var == "Container" else "in front of the reference node"), where)
    for v in ("Container", "Sibling", "Child"):
        rep.anchor(v in seen, "add_child:" + v, "the %s case of add_child" % v)
    # where a context renders
    class G(Monitor):
        precise = True

        def opaque(self, eng, f, ev):
            return f.id == gc.id

        def on_return(self, eng, val, env, st, where):
            var = variant_of(eng, env, C.V)
            v = val.get((), TOP)
            if var == "Container":
                tri(rep, C.is_node_ref(v, var), "containing:Container", "nodes go into the container of the context", gc.loc)
            elif var in ("Sibling", "Child"):
                ok = C.call_of(v, getter, lambda a: C.is_parent_ref(a, var))
                tri(rep, True if ok else (False if C.known_node(v) else None), "containing:" + var, "nodes go where the parent context renders", gc.loc)
            return st
    explore(F, rep, gc, G(), "get_containing_node")


def mentioned_map(st):
    return any(x[0] == "map" or x[0] == "item" for x in st)


def on_site(it, site):
    return mentions(it, site)


def first_item(it):
    return it[0] == "sym" and it[2] in ("next", "Iterator::next", "DoubleEndedIterator::next_back") and it[2] != "DoubleEndedIterator::next_back" \
        and it[3] and it[3][0][0] == "sym"


def plain_next(items, ends, site):
    """the range is drawn from at most once, directly"""
    return len(items) + len(ends) == 1 and all(x[1][0] == "sym" and x[1][1] == site for x in items + ends)


# ------------------------------------------------------------------ taking nodes off the page
class RemMon(Monitor):
    """state: (class, iterator ranges, open entry, flags)
    class: what the position is ('root' / 'sub'); open entry: (item, off the page, out of the map)"""
    precise = True
    watch = True

    def __init__(self, rep, C, pf, own, key):
        self.rep, self.C, self.pf, self.own, self.key = rep, C, pf, own, key

    def opaque(self, eng, fn, ev):
        return fn.id in self.own

    def init(self, eng, env):
        env.write((("L", 0, 2), self.pf), arg(2, self.pf))
        return ((), None, frozenset())

    def cls(self, eng, env, st):
        n = length_of(env, ("init", (("L", 0, 2), self.pf)))
        if eng.known(env, n) == 0:
            return "root"
        if eng.excluded(env, n, 0) or eng.known(env, n) is not None:
            return "sub"
        return "root" if "cls:root" in st[2] else ("sub" if "cls:sub" in st[2] else None)

    def var(self, eng, env):
        return variant_of(eng, env, self.C.V)

    def flag(self, st, *f):
        return (st[0], st[1], st[2] | frozenset(f))

    def say(self, c, key, msg, where):
        tri(self.rep, c, self.key + key, msg, where)

    def src(self, it, env, eng, st):
        """what a loop draws: 'own' (exactly the entries at and below the position), 'all', 'wrong', None"""
        var = self.var(eng, env)
        if var not in ("Container", "Sibling"):
            return None
        G = ("ref", self.C.group(var))
        for site, ref, kind in st[0]:
            if mentions(it, site):
                return kind if ref == G else "wrong"
        if mentions(it, G) or mentions(it, self.C.group(var)):
            r = repr(it)
            if any(x in r for x in ("'filter'", "'skip'", "'take", "'skip_while'", "'step_by'", "retain")):
                return None
            return "all"
        return None

    def bounds(self, eng, env, ev):
        t = ev.trees[1]
        b = t.get((), TOP)
        b = strip_copy(b)
        if b[0] == "sym" and b[2] == "RangeInclusive::new" and len(b[3]) == 2:
            tr = env.tree(b[3][1][1]) if b[3][1][0] == "ref" else {}
            e = is_next(tr, self.pf, arg(2, self.pf)) if tr else None
            return "wrong" if e or strip_copy(tr.get(self.pf, TOP)) == arg(2, self.pf) and len(tr) <= 2 else None
        if b[0] != "agg":
            return None

        def val(x):
            """position value at a bound"""
            tr = env.tree(x[1]) if x[0] == "ref" else None
            return tr

        def is_start(x):
            if x[0] == "init":
                return True if x == arg(2) else None
            tr = val(x)
            if tr is None:
                return None
            v = strip_copy(tr.get(self.pf, TOP))
            return True if v == arg(2, self.pf) and len([p for p in tr if p[: len(self.pf)] == self.pf]) == 1 else (None if v == TOP else False)

        def is_end(x):
            tr = val(x)
            if tr is None:
                return None
            return is_next(tr, self.pf, arg(2, self.pf))
        if b[4] == "Range":
            s, e = is_start(t.get((("f", "start"),), TOP)), is_end(t.get((("f", "end"),), TOP))
        elif b[1] == "tuple":
            lo, hi = t.get((("f", "0"),), TOP), t.get((("f", "1"),), TOP)
            if lo[0] != "agg" or hi[0] != "agg":
                return None
            if hi[4] != "Excluded" or lo[4] != "Included":
                return "all" if hi[4] == "Unbounded" and lo[4] == "Unbounded" else "wrong"
            s = is_start(t.get((("f", "0"), ("v", lo[4]), ("f", "0")), TOP))
            e = is_end(t.get((("f", "1"), ("v", hi[4]), ("f", "0")), TOP))
        elif b[4] == "RangeFull":
            return "all"
        elif b[4] in ("RangeFrom", "RangeTo", "RangeInclusive", "RangeToInclusive"):
            return "wrong" if b[4] != "RangeFrom" else "open"
        else:
            return None
        if s is False or e is False:
            return "wrong"
        return "own" if s and e else None

    # ---- events
    def results(self, eng, ev, env, st):
        """taking an entry out of the map hands out its node: remember the value that stands for it"""
        if ev.key not in ("BTreeMap::remove", "BTreeMap::remove_entry") or not self.is_group(ev.args[0], eng, env):
            return None
        cur = st[1]
        if cur is None or not self.about(ev, env, cur):
            return None
        e2 = env
        v = eng.sym(e2, ev.ctx, ev.block, ev.key, ev.args)
        return [(None, (st[0], (cur[0], cur[1], cur[2], cur[3], v), st[2]), False)]

    def is_group(self, v, eng, env):
        var = self.var(eng, env)
        return var in ("Container", "Sibling") and v == ("ref", self.C.group(var))

    def about(self, ev, env, cur):
        k = ev.args[1]
        tr = env.tree(k[1]) if k[0] == "ref" else {(): k}
        return any(mentions(v, cur[0][1]) for v in tr.values()) or mentions(k, cur[0][1])

    def on_call(self, eng, ev, env, st):
        k = ev.key
        c = self.cls(eng, env, st)
        if c:
            st = self.flag(st, "cls:" + c)
        if k in ("BTreeMap::range", "BTreeMap::range_mut", "BTreeMap::extract_if"):
            site = ("@", ev.ctx.id, ev.block, "")
            rs = tuple(x for x in st[0] if x[0] != site)
            return (rs + ((site, ev.args[0], self.bounds(eng, env, ev)),), st[1], st[2])
        if k == "Node::remove_child":
            return self.removed(eng, ev, env, st)
        if k == "BTreeMap::remove" or k == "BTreeMap::remove_entry":
            return self.unmapped(eng, ev, env, st)
        if k in ("BTreeMap::clear",):
            if self.is_group(ev.args[0], eng, env):
                if self.cls(eng, env, st) == "sub":
                    self.say(False, ":clear", "removing one position must not forget the nodes of other positions", ev.loc)
                return self.flag(st, "cleared")
            return self.flag(st, "?BTreeMap::clear")
        if k in ("Node::insert_before", "Node::append_child", "Node::replace_child", "Node::set_text_content") or \
                k.startswith("BTreeMap::") and k.split("::")[1] not in ("range", "len", "is_empty", "iter", "keys", "values", "values_mut", "get",
                                                                         "first_key_value", "last_key_value", "contains_key", "pop_first", "pop_last", "into_values", "into_iter"):
            return self.flag(st, "?" + k)
        if k.startswith(("Iterator::", "DoubleEndedIterator::")) and k.split("::")[1] not in (
                "next", "next_back", "by_ref", "map", "for_each", "rev", "copied", "cloned", "collect", "into_iter", "enumerate"):
            return self.flag(st, "?" + k)
        if isinstance(ev.id, str) and ev.id in self.own and ev.id != self.getter:
            t = tuple(tuple(sorted(x.items(), key=repr)) for x in ev.trees)
            return (st[0], st[1], st[2] | {("self", ev.key, t, str(ev.loc))})
        return st

    def removed(self, eng, ev, env, st):
        var, cls = self.var(eng, env), self.cls(eng, env, st)
        where = ev.loc
        if var in ("Container", "Sibling"):
            self.say(True if self.C.is_containing(ev.args[0], var, "DomContext::get_containing_node") else (False if self.C.known_node(ev.args[0]) else None),
                     ":from", "nodes are removed from the element the context renders in", where)
        cur = st[1]
        n = ev.args[1]
        ns = (n, env.read(n[1])) if n[0] == "ref" else (n,)
        if cur is None or not any(mentions(x, cur[0][1]) or cur[4] is not None and mentions(x, cur[4][1]) for x in ns):
            self.say(None, ":node", "only nodes recorded at or below the position are removed", where)
            return self.flag(st, "?node")
        kind = cur[3]
        ok = {"own": True, "all": cls == "root", "wrong": False, "open": None, None: None}[kind]
        if kind == "open":
            ok = None if self.tested(env, cur) else False
        if kind == "all" and cls != "root":
            ok = None if self.tested(env, cur) or cls is None else False
        self.say(ok, ":node", "only nodes recorded at or below the position are removed", where)
        return (st[0], (cur[0], True) + cur[2:], st[2])

    def tested(self, env, cur):
        """a path depends on something about the entry other than whether it was there"""
        return any(mentions(f, cur[0][1]) for f, x in env.facts.items()
                   if f != ("discr", cur[0]) and not (cur[4] is not None and f == ("discr", cur[4])))

    def unmapped(self, eng, ev, env, st):
        cur = st[1]
        if self.is_group(ev.args[0], eng, env) and cur is not None and self.about(ev, env, cur):
            return (st[0], cur[:2] + (True,) + cur[3:], st[2])
        return self.flag(st, "?" + ev.key)

    def close(self, eng, env, st, where):
        """the loop goes on or ends: what it has drawn must be gone"""
        cur = st[1]
        if cur is None or cur[3] is None:
            return
        if cur[4] is not None and (eng.known(env, ("discr", cur[4])) == 0 or eng.excluded(env, ("discr", cur[4]), 1)):
            return      # an entry of the map is there when it is taken out
        odd = [f for f in st[2] if isinstance(f, str) and f.startswith("?")]
        cls = self.cls(eng, env, st)
        if cls == "root" or cls is None or cur[3] in ("own",):
            self.say(True if cur[1] else (None if odd or self.tested(env, cur) else False), ":leaves",
                     "every node at or below the position leaves the page", where)
        if cls == "sub" and cur[3] == "own":
            self.say(True if cur[2] else (None if odd or self.tested(env, cur) else False), ":forgotten", "a node that left the page is forgotten", where)

    def on_next(self, eng, it, env, st, where):
        self.close(eng, env, st, where)
        return (st[0], None, st[2])

    def on_item(self, eng, it, item, env, st, where):
        kind = self.src(it, env, eng, st)
        inmap = it[0] == "op" and it[1] == "pop"
        return (st[0], (item, False, inmap, kind, None), st[2] | ({"popped"} if inmap else frozenset()))

    def on_end(self, eng, it, env, st, where):
        if st[1] is None or same_loop(st[1][0], it):
            self.close(eng, env, st, where)
        kind = self.src(it, env, eng, st)
        st = (st[0], None, st[2])
        return self.flag(st, "end:%s" % kind, *(["cleared"] if it[0] == "op" and it[1] == "pop" else []))

    def on_return(self, eng, val, env, st, where):
        var, cls = self.var(eng, env), self.cls(eng, env, st)
        fl = st[2]
        odd = [f for f in fl if isinstance(f, str) and f.startswith("?")]
        fn = eng.root.fn.loc
        selfs = [f for f in fl if isinstance(f, tuple)]
        if var is None:
            d = env.facts.get(("discr", ("init", (("D", SELF), ()))))
            if d is None or d[0] != "eq":
                self.say(None, ":context", "a path does not say which kind of context it is for", fn)
            return st
        self.seen.add(var)
        if var == "Child":
            if len(selfs) != 1 or odd:
                self.say(None if odd or len(selfs) > 1 or len(fl) else False, ":child", "a combinator's child asks the combinator's own context", fn)
                return st
            _, k, ts, w = selfs[0]
            if k != "DomContext::remove_child":
                self.say(False if k == "DomContext::add_child" else None, ":child", "a combinator's child asks the combinator's own context", w)
                return st
            t = [dict(x) for x in ts]
            self.say(self.C.is_parent_ref(t[0].get((), TOP), "Child"), ":child:parent", "the removal goes to the context the combinator itself renders in", w)
            p = t[1].get(self.pf, t[1].get((), TOP))
            want = ("pushed", arg(2, self.pf), vfield("Child", self.C.f["Child"]["index"]))
            c = True if p == want else (False if p[0] in ("pushed", "inserted", "init", "empty") and mentions(p, arg(2, self.pf)) or p in (arg(2), EMPTY) else None)
            self.say(c, ":child:position", "the position is extended with the child's index", w)
            return st
        if selfs:
            self.rep.undecided(self.key + ":other", "also calls " + selfs[0][1], fn)
            return st
        ends = {f[4:] for f in fl if isinstance(f, str) and f.startswith("end:")}
        if cls == "root":
            good = "end:all" in fl or "end:own" in fl
            self.say(True if good else (None if odd or "None" in ends else False), ":all", "removing everything visits every recorded node", fn)
            emptied = env.read(self.C.group(var)) == EMPTY
            self.say(True if "cleared" in fl or emptied else (None if odd or "None" in ends else self.unmapped_all(fl)), ":all:forgotten", "after removing everything the group is empty", fn)
        elif cls == "sub":
            self.say(True if "end:own" in fl else (None if odd or "None" in ends or "all" in ends or "open" in ends else False), ":every",
                     "removing a position visits every node at or below it", fn)
        else:
            self.say(None, ":class", "a path does not say whether the position is the empty one", fn)
        return st

    def unmapped_all(self, fl):
        return False


def same_loop(item, it):
    return item[0] == "sym" and item[3] and item[3][0] == it


def remove_child(F, rep, C, pf):
    fn, gc, ac = C.method(rep, "remove_child"), C.method(rep, "get_containing_node"), C.method(rep, "add_child")
    if None in (fn, gc, ac):
        return
    m = RemMon(rep, C, pf, {fn.id, gc.id, ac.id}, "remove_child")
    m.getter = gc.id
    m.seen = set()
    if explore(F, rep, fn, m, "remove_child", merge=False):
        for v in ("Container", "Sibling", "Child"):
            rep.anchor(v in m.seen, "remove_child:" + v, "the %s case of remove_child" % v)


# ------------------------------------------------------------------ blocking of detachment
def blocker(F, rep):
    """-> (type id, root of the flag) after checking what blocking and the blocker's own drop do to the flag"""
    a = [x for x in F.adt("dropping::DetachmentBlocker")]
    if not rep.anchor(len(a) == 1, "DetachmentBlocker", "the type DetachmentBlocker"):
        return None
    bid = a[0]["id"]
    fb = F.inherent("dropping::DetachmentBlocker", "block_until_drop")
    dr = [F.impl_fn(i, "drop") for i in F.trait_impls("Drop") if i["self_ty"].k == "adt" and i["self_ty"].n == bid]
    if not rep.anchor(len(fb) == 1, "block_until_drop", "DetachmentBlocker::block_until_drop"):
        return None
    roots = set()

    class R(Monitor):
        precise = True

        def on_store(self, eng, loc, val, env, st, where):
            if loc[0][0] == "S":
                roots.add(loc)
            return st
    if not explore(F, rep, fb[0], R(), "block_until_drop"):
        return None
    if not roots:
        rep.violation("block_until_drop:sets", "blocking records nothing: descendants would detach again", fb[0].loc)
        return None
    if not rep.anchor(len(roots) == 1, "IS_DROPPING", "the flag that blocks detachment"):
        return None
    flag = roots.pop()
    me = ("ref", (("D", SELF), ()))
    other = ("ref", (("D", ("static", "another blocker")), ()))
    own = lambda v: v == SELF or v == me

    def runs(fn, start):
        env = Env()
        env.write(flag, start)

        class M(Monitor):
            precise = True

            def __init__(self):
                self.rets = []

            def on_return(self, eng, val, env, st, where):
                if any(f[0] == "op" and f[1] == "Eq" and other in f[2:] and x == ("eq", 1) for f, x in env.facts.items()):
                    return st       # the other blocker is another object
                self.rets.append((val.get((), TOP), env.read(flag)))
                return st
        m = M()
        return m.rets if explore(F, rep, fn, m, "blocker:" + fn.name.split("::")[-1], env=env, merge=False) else []

    def settled(v):
        return own(v) or v in (("null",), other)
    for r, end in runs(fb[0], ("null",)):
        tri(rep, True if own(end) else (False if settled(end) else None), "block_until_drop:sets", "blocking when nothing is blocked must record this blocker", fb[0].loc)
        tri(rep, True if r == ("i", 0) else (False if r[0] == "i" else None), "block_until_drop:free", "blocking when nothing is blocked must say so", fb[0].loc)
    for r, end in runs(fb[0], other):
        tri(rep, True if end == other else (False if settled(end) else None), "block_until_drop:keeps", "blocking under an outer blocker must leave the outer one in charge", fb[0].loc)
        tri(rep, True if r == ("i", 1) else (False if r[0] == "i" else None), "block_until_drop:taken", "blocking under an outer blocker must say it was blocked", fb[0].loc)
    if not dr or dr[0] is None:
        rep.violation("unblock", "nothing ends the blocking when the blocker is dropped: later removals would be skipped", a[0].get("loc") or fb[0].loc)
        return bid, flag
    d = dr[0]
    for start, want, key, msg in ((me, ("null",), "owner", "dropping the blocker in charge must end the blocking"),
                                  (other, other, "other", "dropping another blocker must not end the blocking"),
                                  (("null",), ("null",), "none", "dropping a blocker when nothing is blocked must not block")):
        for r, end in runs(d, start):
            ok = end == want
            tri(rep, True if ok else (False if settled(end) else None), "unblock:" + key, msg, d.loc)
    return bid, flag


def drops_nothing(F, ty):
    return ty.k in ("uint", "int", "bool", "prim", "ref", "ptr", "char") or isname(ty, "PhantomData", "Waker_", "Cell")


def holders(F, bid):
    """types with a detachment blocker among their fields: (id, field list, index of the blocker)"""
    out = []
    for n, a in F.adts.items():
        if a["crate"].name != CRATE or a["kind"] != "Struct":
            continue
        fs = fields(F, n)
        ix = [k for k, (nm, t) in enumerate(fs) if t.k == "adt" and t.n == bid]
        if ix:
            out.append((n, fs, ix))
    return sorted(out)


def holds_child(F, ty, depth=0):
    """may a value of this type own futures (a type parameter)?"""
    if ty is None or isinstance(ty, str) or depth > 6:
        return False
    if ty.k == "param" or ty.k == "alias" or ty.k == "proj":
        return True
    if ty.k in ("ref", "ptr") or isname(ty, "PhantomData"):
        return False
    return any(holds_child(F, x, depth + 1) for x in ty.a if not isinstance(x, str)) or holds_child(F, ty.t, depth + 1)


class DropWatch(Monitor):
    precise = True

    def __init__(self, own, flag, pf):
        self.own, self.flag, self.pf = own, flag, pf
        self.rets = []

    def opaque(self, eng, fn, ev):
        return fn.id in self.own

    def on_call(self, eng, ev, env, st):
        if isinstance(ev.id, str) and ev.id in self.own:
            v = ev.args[0]
            t = env.tree(v[1]) if v[0] == "ref" else {}
            pos = position_root(ev.trees[1], self.pf) if len(ev.trees) > 1 else None
            return st + ((ev.key, v, tuple(sorted(t.items(), key=repr)), pos, str(ev.loc)),)
        return st

    def on_store(self, eng, loc, val, env, st, where):
        return st + (("flag", val),) if loc == self.flag else st

    def on_return(self, eng, val, env, st, where):
        sets = [x[1] for x in st if x[0] == "flag"]
        self.rets.append((tuple(x for x in st if x[0] != "flag"), sets[-1] if sets else self.start))
        return st


def drop_entry(F, n):
    for i in F.trait_impls("Drop"):
        if i["self_ty"].k == "adt" and i["self_ty"].n == n:
            return F.impl_fn(i, "drop")
    return None


def own_ctx(C, t, kind, selfpath, parent=None):
    """the tree of a context value built here: is it the `kind` context over this object's own fields?"""
    v = t.get((), TOP)
    if v[0] != "agg" or v[2] != C.id:
        return None
    if v[4] != kind:
        return False
    for role, fname in C.f[kind].items():
        x = t.get((("v", kind), ("f", fname)), TOP)
        if role == "parent":
            if x not in (parent or (CTX0,)):
                return None if x == TOP else False
            continue
        w = selfpath.get(role)
        if x != ("ref", (("D", SELF), w)):
            return None if x == TOP else False
    return True


def roles_of(F, n):
    r = {}
    for nm, t in fields(F, n):
        if type_mentions(t, "BTreeMap"):
            r["group"] = (("f", nm),)
        elif isname(t, "Node"):
            r["node"] = (("f", nm),)
        elif t.k == "param":
            r["child"] = (("f", nm),)
    return r


OTHER = ("ref", (("D", ("static", "another blocker")), ()))


def drop_paths(F, rep, fn, own, flag, pf, key, state=None, blocked=False):
    env = Env()
    env.write(flag, OTHER if blocked else ("null",))
    for p, v in (state or {}).items():
        env.write((("D", SELF), p), v)
    m = DropWatch(own, flag, pf)
    m.start = env.read(flag)
    return m.rets if explore(F, rep, fn, m, key, env=env, merge=False) else None


def unmount(F, rep, C, pf):
    b = blocker(F, rep)
    ms = [C.method(rep, x) for x in ("add_child", "remove_child", "get_containing_node")]
    if b is None or None in ms:
        return
    bid, flag = b
    own = {m.id for m in ms[:2]}
    H = holders(F, bid)
    rep.floor("node futures and combinators", len(H), 10)
    for n, fs, ix in H:
        nm = n.split("::")[-1]
        dr = drop_entry(F, n)
        if len(ix) != 1:
            rep.undecided(nm + ":blocker", "several blockers", "")
            continue
        late = [f for f, t in fs[ix[0] + 1:] if holds_child(F, t)]
        loc = dr.loc if dr is not None else n
        rep.check(not late, nm + ":blocker-last", "the blocker is dropped before the children in `%s`: they would detach themselves again" % ", ".join(late), loc)
        if dr is None:
            rep.violation(nm + ":drop", "dropping it takes nothing off the page", loc)
            continue
        if nm == "ContainerNodeFuture":
            container(F, rep, C, n, dr, own, flag, pf, fs[ix[0]][0])
            continue
        me = ("ref", (("D", SELF), (("f", fs[ix[0]][0]),)))
        roles = roles_of(F, n) if nm == "SiblingNodeFuture" else None
        for blocked in (False, True):
            judge_drop(rep, C, nm, drop_paths(F, rep, dr, own, flag, pf, nm + ":drop", None, blocked), blocked, me, roles, dr.loc)
        if nm == "SiblingNodeFuture":
            polled(F, rep, C, n, nm, own, pf, "Sibling", None)


def judge_drop(rep, C, nm, rets, blocked, me, roles, loc):
    for st, end in rets or ():
        rm = [x for x in st if x[0] == "DomContext::remove_child"]
        if any(x[0] == "DomContext::add_child" for x in st):
            rep.violation(nm + ":drop:adds", "dropping it puts something on the page", loc)
        if blocked:
            tri(rep, not rm, nm + ":drop:blocked", "when an ancestor is already gone nothing is taken off the page", rm[0][4] if rm else loc)
            tri(rep, True if end == OTHER else (False if end == me or end == ("null",) else None), nm + ":drop:outer", "the outer blocker stays in charge", loc)
            continue
        tri(rep, len(rm) == 1, nm + ":drop:removes", "dropping it takes what it rendered off the page, once", rm[0][4] if rm else loc)
        for _, ctx, tree, pos, where in rm:
            if roles is None:
                c = True if ctx == CTX0 else (False if dict(tree).get((), TOP)[0] == "agg" else None)
            else:
                c = own_ctx(C, dict(tree), "Sibling", roles) if ctx != CTX0 else False
            tri(rep, c, nm + ":drop:where", "what it rendered is taken off where it renders", where)
            tri(rep, pos, nm + ":drop:position", "everything it rendered is taken off", where)
        tri(rep, True if end == me else (False if end == ("null",) else None), nm + ":drop:blocks", "its descendants are kept from detaching again", loc)


# ------------------------------------------------------------------ the life of a node future
class PollWatch(Monitor):
    precise = True

    def __init__(self, own, pf, child):
        self.own, self.pf, self.child = own, pf, child
        self.rets = []

    def opaque(self, eng, fn, ev):
        return fn.id in self.own

    def on_call(self, eng, ev, env, st):
        if isinstance(ev.id, str) and ev.id in self.own:
            pos = position_root(ev.trees[1], self.pf) if len(ev.trees) > 1 else None
            return st + ((ev.key, ev.args[0], pos, ev.args[2] if len(ev.args) > 2 else None, bool(env.tls), str(ev.loc)),)
        if ev.key == "Future::poll":
            top = env.tls[-1][1] if env.tls else CTX0
            t = env.tree(top[1]) if top[0] == "ref" and top != CTX0 else {}
            return st + (("poll", ev.args[0], ev.args[1], tuple(sorted(t.items(), key=repr)), str(ev.loc)),)
        return st

    def on_return(self, eng, val, env, st, where):
        self.rets.append((st, val, env))
        return st


def poll_fn_of(F, n):
    for i in F.trait_impls("Future"):
        if i["self_ty"].k == "adt" and i["self_ty"].n == n:
            return F.impl_fn(i, "poll")
    return None


def polled(F, rep, C, n, nm, own, pf, kind, state):
    """one poll in a given state -> [(number of nodes added, state afterwards)]"""
    fn = poll_fn_of(F, n)
    roles = roles_of(F, n)
    if not rep.anchor(fn is not None and {"group", "node", "child"} <= set(roles), nm + ":poll", "poll and the fields of " + nm):
        return None
    env = Env()
    for p, v in (state or {}).items():
        env.write((("D", SELF), p), v)
    m = PollWatch(own, pf, roles["child"])
    if not explore(F, rep, fn, m, nm + ":poll", env=env, merge=False):
        return None
    out = []
    for st, val, e in m.rets:
        ps = [x for x in st if x[0] == "poll"]
        tri(rep, len(ps) == 1, nm + ":poll:child", "each poll polls the child once", fn.loc)
        for _, p, cx, tree, where in ps:
            tri(rep, True if p == ("ref", (("D", SELF), roles["child"])) else None, nm + ":poll:which", "it polls its own child", where)
            tri(rep, True if cx in (arg(2), ("ref", (("D", arg(2)), ()))) else (False if cx[0] == "ref" else None), nm + ":poll:waker", "the child is polled with the waker the future was polled with", where)
            tri(rep, own_ctx(C, dict(tree), kind, roles) if tree else False, nm + ":poll:context", "what the child renders goes %s" % (
                "into its node" if kind == "Container" else "in front of its reference node"), where)
            r = val.get((), TOP)
            ok = r[0] == "sym" and r[2] == "Future::poll"
            tri(rep, True if ok else (False if r[0] == "agg" else None), nm + ":poll:result", "it finishes when its child does, with the child's output", fn.loc)
        rm = [x for x in st if x[0] == "DomContext::remove_child"]
        if rm:
            rep.violation(nm + ":poll:removes", "polling it takes nodes off the page", rm[0][5])
        ad = [x for x in st if x[0] == "DomContext::add_child"]
        for _, ctx, pos, node, inner, where in ad:
            tri(rep, True if ctx == CTX0 and not inner else (False if inner else None), nm + ":poll:add:where", "its node goes where it is rendered", where)
            tri(rep, pos, nm + ":poll:add:position", "its node is added at its own position", where)
            x = strip_copy(node)
            tri(rep, True if x == ("init", (("D", SELF), roles["node"])) else None, nm + ":poll:add:node", "it adds its own node", where)
        ns = {}
        for p in (state or {}):
            ns[p] = e.read((("D", SELF), p))
        out.append((len(ad), ns))
    return out


def container(F, rep, C, n, dr, own, flag, pf, bname):
    nm = "ContainerNodeFuture"
    roles = roles_of(F, n)
    me = ("ref", (("D", SELF), (("f", bname),)))

    def const(v):
        return v[0] in ("agg", "i", "null", "unit")
    starts = {}
    for f in F.fns.values():
        if f.crate.name != CRATE or f.argc != 2 or "{closure" in f.name:
            continue
        t = f.ty(0)
        if not (t.k == "adt" and t.n == n) or f.name.split("::")[-1] not in ("new", "new_root"):
            continue

        class M(Monitor):
            precise = True

            def __init__(self):
                self.rets = []

            def on_return(self, eng, val, env, st, where):
                self.rets.append(val)
                return st
        m = M()
        if explore(F, rep, f, m, nm + ":new"):
            for val in m.rets:
                s = {}
                for p, v in val.items():
                    if len(p) == 1 and const(v) and not (v[0] == "agg" and v[2].endswith("DetachmentBlocker")) and p not in roles.values():
                        s[p] = v
                starts.setdefault(f.name.split("::")[-1], []).append((s, f))
                for role, i in (("child", 1), ("node", 2)):
                    tri(rep, True if val.get(roles[role]) == arg(i) else None, nm + ":new:" + role, "the future wraps what it was given", f.loc)
    if not rep.anchor(set(starts) == {"new", "new_root"}, nm + ":constructors", "ContainerNodeFuture::new and new_root"):
        return

    def freeze(s):
        return tuple(sorted(s.items(), key=repr))
    n_states = 0
    for ctor, ss in starts.items():
        for s0, f in ss:
            # (state, has it put its node on the page)
            seen = {}
            work = [(s0, False, False)]
            while work:
                s, on, was = work.pop()
                k = (freeze(s), on, was)
                if k in seen or len(seen) > 20:
                    continue
                seen[k] = True
                n_states += 1
                if any(not const(v) for v in s.values()):
                    rep.undecided(nm + ":state", "the state after a poll is not known", f.loc)
                    continue
                # what dropping it in this state does
                for blocked in (False, True):
                    life_drop(F, rep, C, nm, drop_paths(F, rep, dr, own, flag, pf, nm + ":drop", s, blocked), blocked, on, ctor, me, roles, dr.loc)
                for added, ns in polled(F, rep, C, n, nm, own, pf, "Container", s) or ():
                    want = 1 if ctor == "new" and not on else 0
                    if ctor == "new":
                        tri(rep, added == want, nm + (":poll:adds" if not on else ":poll:once"),
                            "the first poll puts the node on the page, and only the first", f.loc)
                    else:
                        tri(rep, added == 0, nm + ":root:adds", "a root's node is already on the page and is not added again", f.loc)
                    work.append((ns, on or added > 0, True))
    rep.count("node future states", n_states)


def life_drop(F, rep, C, nm, rets, blocked, on, ctor, me, roles, loc):
    for st, end in rets or ():
        out = [x for x in st if x[0] == "DomContext::remove_child" and x[1] == CTX0]
        mine = [x for x in st if x[0] == "DomContext::remove_child" and x[1] != CTX0]
        for _, ctx, tree, pos, where in mine:
            tri(rep, own_ctx(C, dict(tree), "Container", roles), nm + ":drop:own", "what was rendered inside it is taken out of its own node", where)
            tri(rep, pos, nm + ":drop:own:position", "everything rendered inside it is taken out", where)
        for _, ctx, tree, pos, where in out:
            tri(rep, pos, nm + ":drop:position", "its own node is taken off the page", where)
        k = "%s:drop:%s%s" % (nm, "mounted" if on else ("root" if ctor == "new_root" else "unpolled"), ":blocked" if blocked else "")
        if any(x[0] == "DomContext::add_child" for x in st):
            rep.violation(k + ":adds", "dropping it puts something on the page", loc)
        if on:
            want = 0 if blocked else 1
            tri(rep, len(out) == want, k, "its node is taken off the page exactly once" if want else "when an ancestor is already gone its node is not taken off again", out[0][4] if out else loc)
        else:
            tri(rep, not out, k, "a future that did not put its node on the page does not take nodes off it", out[0][4] if out else loc)
            if ctor == "new_root":
                tri(rep, len(mine) == 1, k + ":contents", "a root's contents are taken out of it", loc)
        if blocked:
            tri(rep, True if end == OTHER else (False if end in (me, ("null",)) else None), k + ":outer", "the outer blocker stays in charge", loc)
        elif on or ctor == "new_root":
            tri(rep, True if end == me else (False if end == ("null",) else None), k + ":blocks", "its descendants are kept from detaching again", loc)


def c06(F, rep):
    """life of a node: over every reachable state of a node future (constructor, polls, drop) its node is put on the page exactly once, by the first poll, and taken
    off exactly once, by the drop, unless an ancestor already went; removal visits exactly the recorded nodes at or below the position; the flag that keeps
    descendants from detaching is set before they are dropped and cleared after by the blocker that set it"""
    C = Ctx(F, rep)
    pf = position_path(F, rep)
    if not C.ok or pf is None:
        return
    order(F, rep, pf)
    add_child(F, rep, C, pf)
    remove_child(F, rep, C, pf)
    unmount(F, rep, C, pf)


def c07(F, rep):
    """order of nodes: positions compare lexicographically from the outermost combinator inwards; a new node is inserted in front of the first recorded node
    at or after its position, in the element its context renders in, and recorded under exactly that position; combinators extend positions by the child index"""
    C = Ctx(F, rep)
    pf = position_path(F, rep)
    if not C.ok or pf is None:
        return
    order(F, rep, pf)
    add_child(F, rep, C, pf)
