"""The arena of wakers and the cell built on it.  The arena's methods are interpreted from the compiler's MIR on one abstract
arena per way the nodes they touch can coincide (list empty, one element, several, neighbours being the head or not); what lies
further away is left unknown, so each abstract arena stands for every arena of that shape, of any size."""
from absint import Monitor, Engine, Incomplete, TOP, Env
from dom import explore, tri
from comb import fields, isname
from precise import PF

CRATE = "async_ui_internal_utils"
ARENA = ("D", ("the arena",))
HEAD = 70               # the head of the list worked on; its nodes: 71, 72, ..; free nodes: 81, 82, ..
GAP = 990               # links that lead out of the nodes shown
N = ("sym", ("@", "world", 1, ""), "number of nodes", ())


class Shape:
    """names of the parts, found by type"""

    def __init__(self, F, rep):
        self.ok = False
        self.F = F
        fs = fields(F, CRATE + "::wakers_arena::WakersArena")
        if not rep.anchor(fs is not None, "WakersArena", "the struct WakersArena"):
            return
        its = [(n, t) for n, t in fs if isname(t, "Vec")]
        if not rep.anchor(len(fs) == 1 and len(its) == 1, "WakersArena:items", "a list of nodes in WakersArena"):
            return
        self.items = ("f", its[0][0])
        el = its[0][1].a[0]
        self.item = el.n if el.k == "adt" else None
        ifs = fields(F, self.item) or []
        lk = [n for n, t in ifs if t.s == "usize"]
        wk = [n for n, t in ifs if isname(t, "Waker")]
        if not rep.anchor(len(lk) == 2 and len(wk) == 1 and len(ifs) == 3, "Item", "a waker and two links in a node"):
            return
        self.links, self.waker = tuple(("f", n) for n in lk), ("f", wk[0])
        self.slot, self.sub = CRATE + "::wakers_arena::WakerSlot", CRATE + "::wakers_arena::WakersSublist"
        for n in (self.slot, self.sub):
            g = fields(F, n)
            if not rep.anchor(g is not None and len(g) == 1 and g[0][1].s == "usize", n.split("::")[-1], "an index in " + n):
                return
        self.ok = True
        self.fn = {}
        for m in ("new", "add", "remove", "update", "iter", "add_sublist", "remove_sublist_if_empty"):
            g = F.inherent("wakers_arena::WakersArena", m)
            if not rep.anchor(len(g) == 1, "WakersArena::" + m, "the method " + m):
                self.ok = False
                return
            self.fn[m] = g[0]

    def place(self, i, f):
        return (ARENA, (self.items, ("ix", i), f))


class Cfg:
    """lists: name -> sequence of nodes after the head; "gap" stands for any number of further nodes"""

    def __init__(self, sh, lists, n=N, extra=()):
        self.sh, self.lists, self.n = sh, lists, n
        self.gaps = {}
        k = GAP
        self.init = {}
        for head, seq in lists.items():
            ring = [head] + list(seq)
            for a, b in zip(ring, ring[1:] + [head]):
                if a == "gap" or b == "gap":
                    continue
                self.init[(a, 1)] = b
                self.init[(b, 0)] = a
            for j, x in enumerate(ring):
                if x == "gap":
                    a, b = ring[j - 1], (ring + [head])[j + 1]
                    self.init[(a, 1)] = k
                    self.init[(b, 0)] = k + 1
                    self.gaps[k] = (b, k + 1)
                    self.gaps[k + 1] = (a, k)
                    k += 2
        self.nodes = {a for a, _ in self.init} | set(extra)

    def env(self):
        e = Env()
        for (a, d), b in self.init.items():
            e.write(self.sh.place(("i", a), self.sh.links[d]), ("i", b))
        return e

    def arg(self, e, ty, i):
        p = (("D", ("index", ty.split("::")[-1])), ())
        e.write_tree(p, {(): ("agg", "adt", ty, 0, ty.split("::")[-1]), (("f", "0"),): ("i", i)})
        return ("ref", p)


class Op(Monitor):
    """one call of a method of the arena: growth of the node list is summarised, stores are recorded"""
    precise = True

    def __init__(self, cfg, rep):
        self.cfg, self.rep = cfg, rep
        self.rets = []
        self.sub = []

    def init(self, eng, env):
        return ("op", (), None, ())          # nodes written, growth (start, end, element tree), pairs of wakers found alike

    def on_store(self, eng, loc, val, env, st, where):
        r, p = loc
        if r == ARENA and p[:1] == (self.cfg.sh.items,):
            if len(p) >= 2 and isinstance(p[1], tuple) and p[1][0] == "ix":
                w = (p[1][1], str(where))
                if w not in st[1]:
                    st = (st[0], st[1] + (w,)) + st[2:]
            else:
                st = (st[0], st[1] + ((TOP, str(where)),)) + st[2:]
        return st

    def results(self, eng, ev, env, st):
        sh = self.cfg.sh
        if ev.key == "Waker::will_wake":
            return [({(): ("i", 1)}, st[:3] + (st[3] + (frozenset(ev.args),),), False), ({(): ("i", 0)}, st, False)]
        if not ev.args or ev.args[0] != ("ref", (ARENA, (sh.items,))):
            return None
        k = ev.key
        if k in ("Vec::len", "slice::len"):
            return [({(): st[2][1] if st[2] else self.cfg.n}, st, False)]
        if k == "Vec::is_empty":
            return [({(): ("i", 0)}, st, False)]
        if k in ("Vec::reserve", "Vec::reserve_exact", "Vec::shrink_to_fit", "Vec::capacity"):
            return [(None, st, False)]
        if k in ("Extend::extend", "Vec::extend"):
            g = growth(self, eng, env, ev.args[1])
            if g is None or st[2]:
                raise Incomplete("how %s grows the arena" % ev.loc)
            a, b, el = g
            if a != self.cfg.n:
                self.sub.append(("bad", "the nodes added when the arena grows do not start where the arena ended", str(ev.loc)))

            def do(e, g=g):
                for i in edge_nodes(eng, e, a, b):
                    e.write_tree((ARENA, (sh.items, ("ix", i))), element(eng, e, el, i))
            return [({(): ("unit",)}, st[:2] + (g,) + st[3:], False, do)]
        if k.startswith("Vec::") and k.split("::")[1] in ("push", "insert", "resize", "resize_with", "truncate", "remove", "swap_remove",
                                                         "pop", "clear", "drain", "append", "swap", "extend_from_slice", "retain"):
            raise Incomplete("%s on the nodes of the arena at %s" % (k, ev.loc))
        return None

    def on_return(self, eng, val, env, st, where):
        self.rets.append((val, env, st, eng))
        return st


def edge_nodes(eng, env, a, b):
    out = []
    for i in (a, eng.binop(env, "Add", a, ("i", 1)), eng.binop(env, "Sub", b, ("i", 1))):
        if i not in out:
            out.append(i)
    return out


def growth(m, eng, env, it):
    """(start, end, (index, element tree as a function of it)) of the nodes an iterator of new nodes yields"""
    if it[0] != "op" or it[1] != "map" or it[2][0] != "op" or it[2][1] != "iter" or it[2][2][0] != "tree" or it[3][0] != "tree":
        return None
    rng = dict(it[2][2][1])
    if (("f", "start"),) not in rng or (("f", "end"),) not in rng:
        return None
    f, tree = eng.find_closure(env, dict(it[3][1]))
    if f is None or isinstance(f, tuple):
        return None
    idx = ("sym", ("@", "world", 2, ""), "a new index", ())
    got = []

    class M(Monitor):
        precise = True

        def on_return(s, e, val, en, st, where):
            got.append(dict(val))
            return st
    e = Engine(m.cfg.sh.F, M(), merge=False)
    p = (("D", ("the closure",)), ())
    en = Env()
    en.write_tree(p, tree)
    e.run(f, {1: ("ref", p), 2: idx}, en)
    m.rep.engine(e)
    return (rng[(("f", "start"),)], rng[(("f", "end"),)], (idx, tuple(sorted(got[0].items(), key=repr)))) if len(got) == 1 else None


def element(eng, env, el, i):
    idx, tree = el
    return {p: subst(eng, env, v, idx, i) for p, v in tree}


def subst(eng, env, v, x, y):
    if v == x:
        return y
    if isinstance(v, tuple) and v[:1] == ("op",) and len(v) == 4 and v[1] in ("Add", "Sub", "Mul"):
        return eng.binop(env, v[1], subst(eng, env, v[2], x, y), subst(eng, env, v[3], x, y))
    if isinstance(v, tuple):
        return tuple(subst(eng, env, w, x, y) if isinstance(w, tuple) else w for w in v)
    return v


def canon(v):
    return v[1] if v[0] == "i" else v


def walk(cfg, env, head, d, grown=None):
    """nodes of the list at `head` in direction d (None: not understood, str: what is wrong)"""
    sh = cfg.sh
    jump = dict(cfg.gaps)
    if grown:
        jump.update(grown)
    out = []
    prev, cur = head, head
    pentry = None
    for _ in range(40):
        nx = env.read(sh.place(key(cur), sh.links[d]))
        n = canon(nx)
        if n in jump:
            out.append(("gap", n))
            b, back = jump[n]
            got = canon(env.read(sh.place(key(b), sh.links[1 - d])))
            if got != back:
                return "the link of node %s back to its neighbour is %s" % (name(b), name(got))
            n, nb = b, b
        else:
            if not isinstance(n, int) and nx[0] not in ("op", "sym"):
                return None
            if not known_node(cfg, n, grown):
                return "the list of %s leads to %s, which is not one of its nodes" % (name(head), name(n))
            back = canon(env.read(sh.place(key(n), sh.links[1 - d])))
            if back != cur:
                if not isinstance(back, int) and env.read(sh.place(key(n), sh.links[1 - d]))[0] not in ("op", "sym"):
                    return None
                return "node %s follows %s, but links back to %s" % (name(n), name(cur), name(back))
        if n == head:
            return out
        if n in out:
            return "the list of %s runs in a circle that does not contain its head" % name(head)
        out.append(n)
        cur = n
    return "the list of %s does not come back to its head" % name(head)


def known_node(cfg, n, grown):
    return n in cfg.nodes or (grown is not None and n in grown.get("nodes", ()))


def key(n):
    return ("i", n) if isinstance(n, int) else n


def name(n):
    if isinstance(n, int):
        return {0: "the free head", HEAD: "the list head"}.get(n, ("a node out of reach" if n >= GAP else "node %d" % n))
    return "(%s)" % short(n)


def short(v):
    if not isinstance(v, tuple):
        return str(v)
    if v[0] == "op" and len(v) == 4:
        return "%s %s %s" % (short(v[2]), v[1], short(v[3]))
    if v[0] == "sym":
        return v[2]
    if v[0] == "i":
        return str(v[1])
    return v[0]


FREE = [(), (81,), (81, 82), (81, 82, "gap", 83, 84)]
USED = [(), (71,), (71, 72), (72, 71), (12, 13), (71, 73, "gap", 74, 72)]
WITH_X = [(75,), (75, 71), (71, 75), (71, 75, 72), (78, 75, 12), (12, 75), (75, 78), ("gap", 71, 75, 72, "gap"), (75, 72, "gap"), ("gap", 71, 75)]


def words(seq):
    return "[" + " ".join("..." if x == "gap" else "x" if x == 75 else str(x) for x in seq) + "]"


def run_op(rep, sh, name_, cfg, args, key_):
    m = Op(cfg, rep)
    env = cfg.env()
    argv = {1: ("ref", (ARENA, ()))}
    for n, (ty, i) in args.items():
        argv[n] = cfg.arg(env, ty, i)
    e = Engine(sh.F, m, merge=False)
    e.seconds = 60
    try:
        e.run(sh.fn[name_], argv, env)
        rep.engine(e)
    except Incomplete as x:
        rep.undecided(key_, str(x), sh.fn[name_].loc)
        return []
    if not m.rets:
        rep.violation(key_ + ":returns", "%s never returns in an arena whose list is %s and whose free list is %s" % (
            name_, words(cfg.lists.get(HEAD, ())), words(cfg.lists[0])), sh.fn[name_].loc)
    for _, msg, where in m.sub:
        rep.violation(key_ + ":growth", msg, where)
    return m.rets


def judge(rep, sh, cfg, op, ret, want, where):
    """the lists after the call: want maps a head to (nodes in order or None, set of nodes)"""
    val, env, st, eng = ret
    grown = None
    new = None
    if st[2]:
        a, b, el = st[2]
        new = a
        ed = edge_nodes(eng, env, a, b)
        grown = {"nodes": set(canon(x) for x in ed)}
        # interior of the new nodes: i -> i+1 and back
        idx = el[0]
        t = dict(el[1])
        nx, pv = t.get((sh.links[1],), TOP), t.get((sh.links[0],), TOP)
        up, dn = eng.binop(env, "Add", idx, ("i", 1)), eng.binop(env, "Sub", idx, ("i", 1))
        ok = {nx, pv} == {up, dn}
        tri(rep, ok if nx != TOP and pv != TOP else None, op + ":growth:links", "the nodes added when the arena grows do not link to their neighbours", where)
        if not ok:
            return
        dbl = eng.binop(env, "Mul", a, ("i", 2))
        tri(rep, True if b == dbl else None, op + ":growth:size", "the arena doubles", where)
        if len(ed) == 3:
            d = 1 if nx == up else 0
            first, last = ed[1], ed[2]
            x, y = canon(element(eng, env, el, first)[(sh.links[d],)]), canon(element(eng, env, el, last)[(sh.links[1 - d],)])
            grown[x] = (canon(last), y)
            grown[y] = (canon(first), x)
    shape = "list %s, free list %s%s" % (words(cfg.lists.get(HEAD, ())), words(cfg.lists[0]), ", growing" if st[2] else "")
    nodes = cfg.nodes | (grown["nodes"] if grown else set())
    for i, w in st[1]:
        j = canon(i)
        if j in nodes:
            continue
        if isinstance(j, int):
            rep.violation(op + ":foreign", "%s writes to %s, which is in none of the lists concerned (%s)" % (op, name(j), shape), w)
        else:
            tri(rep, None, op + ":foreign", "only nodes of the lists concerned are written", w)
        return
    for head, (order, members) in want.items():
        for d in (1, 0):
            got = walk(cfg, env, head, d, grown)
            if got is None:
                tri(rep, None, op + ":list", "the lists after the call", where)
                continue
            if isinstance(got, str):
                tri(rep, False, op + ":list", "%s: %s (%s)" % (op, got, shape), where)
                continue
            g = [x for x in got if not isinstance(x, tuple)] + ["gap"] * sum(isinstance(x, tuple) for x in got if isinstance(x, tuple) and x[0] == "gap")
            flat = [("gap" if isinstance(x, tuple) and x[0] == "gap" else x) for x in got]
            tri(rep, sorted(map(str, flat)) == sorted(map(str, members)), op + ":members",
                "%s: the list of %s holds %s instead of %s (%s)" % (op, name(head), flat, list(members), shape), where)
            if order is not None and d == 1:
                tri(rep, flat == list(order) or rot(flat, order), op + ":order", "%s: the other nodes of the list keep their order (%s)" % (op, shape), where)


def rot(flat, order):
    return [x for x in flat if x in order] == list(order)


def index_of(val):
    return canon(val.get((("f", "0"),), TOP))


def r02(F, rep):
    """every operation of the waker arena keeps each list a circle with matching links, moves exactly the node it is about between the
    free list and the list it belongs to, never touches a node of another list, and never hands out a node in use"""
    sh = Shape(F, rep)
    if not sh.ok:
        return
    fresh(F, rep, sh)
    add_ops(rep, sh)
    remove_ops(rep, sh)
    updates(rep, sh)
    iteration(rep, sh)


def growth_sizes(free):
    return (N, ("i", 71)) if not free else (N,)


def add_ops(rep, sh):
    w = sh.fn["add"].loc
    for free in FREE:
        for used in USED:
            cfg = Cfg(sh, {0: free, HEAD: used})
            for ret in run_op(rep, sh, "add", cfg, {2: (sh.sub, HEAD)}, "add"):
                x = index_of(ret[0])
                gr = ret[2][2]
                if gr is None and not isinstance(x, int):
                    tri(rep, None, "add:slot", "the slot returned", w)
                    continue
                if gr is None:
                    if not tri(rep, x in free, "add:slot", "add hands out %s, which is not free (free list %s)" % (name(x), words(free)), w):
                        continue
                    rest = [y for y in free if y != x]
                else:
                    ed = [canon(y) for y in edge_nodes(ret[3], ret[1], gr[0], gr[1])]
                    if not tri(rep, x in ed, "add:slot", "the slot returned after growing is one of the new nodes", w):
                        continue
                    rest = list(free) + [y for y in ed if y != x] + (["gap"] if len(ed) == 3 else [])
                judge(rep, sh, cfg, "add", ret, {HEAD: (used, list(used) + [x]), 0: (None, rest)}, w)
    small(rep, sh, "add", {2: (sh.sub, 1)})
    w = sh.fn["add_sublist"].loc
    for free in FREE:
        cfg = Cfg(sh, {0: free, HEAD: (71, "gap", 72)})
        for ret in run_op(rep, sh, "add_sublist", cfg, {}, "add_sublist"):
            x = index_of(ret[0])
            gr = ret[2][2]
            if gr is None:
                if not isinstance(x, int):
                    tri(rep, None, "add_sublist:head", "the head returned", w)
                    continue
                if not tri(rep, x in free, "add_sublist:head", "add_sublist hands out %s, which is not free (free list %s)" % (name(x), words(free)), w):
                    continue
                rest = [y for y in free if y != x]
            else:
                ed = [canon(y) for y in edge_nodes(ret[3], ret[1], gr[0], gr[1])]
                if not tri(rep, x in ed, "add_sublist:head", "the head returned after growing is one of the new nodes", w):
                    continue
                rest = list(free) + [y for y in ed if y != x] + (["gap"] if len(ed) == 3 else [])
            cfg.nodes.add(x)
            judge(rep, sh, cfg, "add_sublist", ret, {x: (None, []), 0: (None, rest), HEAD: ((71, "gap", 72), (71, "gap", 72))}, w)
    small(rep, sh, "add_sublist", {})


def small(rep, sh, op, args):
    """growth of the smallest arena, in which the first and the last free node added are the same"""
    w = sh.fn[op].loc
    lists = {0: (), 1: ()}
    cfg = Cfg(sh, lists, n=("i", 2))
    for ret in run_op(rep, sh, op, cfg, args, op + ":smallest"):
        x = index_of(ret[0])
        gr = ret[2][2]
        if gr is None:
            tri(rep, False, op + ":smallest", "%s hands out %s although no node is free" % (op, name(x)), w)
            continue
        ed = [canon(y) for y in edge_nodes(ret[3], ret[1], gr[0], gr[1])]
        if not tri(rep, x in ed, op + ":smallest", "the node handed out after growing is one of the new nodes", w):
            continue
        rest = [y for y in ed if y != x]
        want = {0: (None, rest), 1: (None, [x] if op == "add" else [])}
        if op == "add_sublist":
            cfg.nodes.add(x)
            want[x] = (None, [])
        judge(rep, sh, cfg, op, ret, want, w)


def remove_ops(rep, sh):
    w = sh.fn["remove"].loc
    resets = []
    for free in FREE:
        for used in WITH_X:
            cfg = Cfg(sh, {0: free, HEAD: used})
            for ret in run_op(rep, sh, "remove", cfg, {2: (sh.slot, 75)}, "remove"):
                rest = [y for y in used if y != 75]
                judge(rep, sh, cfg, "remove", ret, {HEAD: (rest, rest), 0: (None, list(free) + [75])}, w)
                wk = sh.place(("i", 75), sh.waker)
                resets.append(ret[1].read(wk) != ("init", wk, 0) and ret[1].read(wk) != ("init", wk))
    # a slot handed out again must not wake its former owner: remove or add replaces the waker
    again = []
    cfg = Cfg(sh, {0: (81,), HEAD: ()})
    for ret in run_op(rep, sh, "add", cfg, {2: (sh.sub, HEAD)}, "add"):
        wk = sh.place(("i", 81), sh.waker)
        again.append(ret[1].read(wk)[0] != "init")
    tri(rep, bool(resets) and all(resets) or bool(again) and all(again), "remove:waker",
        "a slot that is removed and added again still holds the waker of its former owner", w)
    w = sh.fn["remove_sublist_if_empty"].loc
    for free in FREE:
        for used in USED:
            cfg = Cfg(sh, {0: free, HEAD: used})
            for ret in run_op(rep, sh, "remove_sublist_if_empty", cfg, {2: (sh.sub, HEAD)}, "remove_sublist_if_empty"):
                r = ret[0].get((), TOP)
                if r[0] != "i":
                    tri(rep, None, "remove_sublist:result", "whether the list was removed", w)
                    continue
                tri(rep, bool(r[1]) == (not used), "remove_sublist:result", "remove_sublist_if_empty says %s of the list %s" % (bool(r[1]), words(used)), w)
                if r[1] and not used:
                    want = {0: (None, list(free) + [HEAD])}
                else:
                    want = {0: (None, list(free)), HEAD: (used, list(used))}
                judge(rep, sh, cfg, "remove_sublist_if_empty", ret, want, w)


def updates(rep, sh):
    w = sh.fn["update"].loc
    cfg = Cfg(sh, {0: (81, "gap", 82), HEAD: ("gap", 71, 75, 72, "gap")})
    waker = ("ref", (("D", ("the waker",)), ()))
    m = Op(cfg, rep)
    env = cfg.env()
    e = Engine(sh.F, m, merge=False)
    try:
        e.run(sh.fn["update"], {1: ("ref", (ARENA, ())), 2: cfg.arg(env, sh.slot, 75), 3: waker}, env)
        rep.engine(e)
    except Incomplete as x:
        rep.undecided("update", str(x), w)
        return
    rep.floor("update_paths", len(m.rets), 1)
    for ret in m.rets:
        judge(rep, sh, cfg, "update", ret, {0: (None, (81, "gap", 82)), HEAD: (("gap", 71, 75, 72, "gap"),) * 2}, w)
        p = sh.place(("i", 75), sh.waker)
        v = ret[1].read(p)
        if isclone(v, waker):
            ok = True
        elif v[0] == "init":
            ok = frozenset((("ref", p), waker)) in ret[2][3]
        else:
            ok = None
        tri(rep, ok, "update:waker", "update can leave a slot with a waker that does not wake what the given one wakes", w)
        for i, wh in ret[2][1]:
            tri(rep, canon(i) == 75, "update:only", "update writes to another slot than the one given", wh)


def isclone(v, w):
    if v[0] == "clone":
        return v[1] == w or v[1] == ("init", (w[1][0], ()), 0) or v[1] == ("init", (w[1][0], ()))
    return v[0] == "sym" and v[2] in ("Clone::clone", "ToOwned::to_owned", "Waker::clone") and v[3] and v[3][0] == w


class It(Monitor):
    precise = True

    def __init__(self):
        self.rets = []

    def on_return(self, eng, val, env, st, where):
        self.rets.append((dict(val), env))
        return st


def iteration(rep, sh):
    w = sh.fn["iter"].loc
    for used in [(), (71,), (12,), (71, 72), (72, 71), (12, 71), (71, 12), (71, 72, 73), (73, 71, 72), (72, 13, 12), (71, "gap", 72)]:
        cfg = Cfg(sh, {0: (81, "gap", 82), HEAD: used})
        env = cfg.env()
        m = It()
        made = []

        def res(eng, ev, env, st):
            if ev.key == "iter::from_fn":
                made.append(ev.trees[0])
                return [(None, st, False)]
            return None
        m.results = res
        e = Engine(sh.F, m, merge=False)
        try:
            e.run(sh.fn["iter"], {1: ("ref", (ARENA, ())), 2: cfg.arg(env, sh.sub, HEAD)}, env)
            rep.engine(e)
        except Incomplete as x:
            rep.undecided("iter", str(x), w)
            return
        if len(m.rets) != 1:
            rep.undecided("iter", "iter has %d outcomes" % len(m.rets), w)
            return
        val, env = m.rets[0]
        v = val.get((), TOP)
        self_ = (("D", ("the iterator",)), ())
        if v[0] == "sym" and v[2] == "iter::from_fn" and made:
            step, tree = sh.F.fns.get(made[-1][()][2]), made[-1]
        elif v[0] == "agg" and v[1] == "adt":
            im = [i for i in sh.F.trait_impls("iterator::Iterator") if i["self_ty"].k == "adt" and i["self_ty"].n == v[2]]
            step, tree = (sh.F.impl_fn(im[0], "next") if len(im) == 1 else None), val
        else:
            step = None
        if step is None:
            rep.undecided("iter", "what iter returns", w)
            return
        env = env.copy()
        env.m = {r: d for r, d in env.m.items() if r[0] != "L"}
        tree = {p: deref_local(m.rets[0][1], x) for p, x in tree.items()}
        env.write_tree(self_, tree)
        seen = []
        first = env.tree(self_)
        state = "?"
        for _ in range(6):
            m2 = It()
            e = Engine(sh.F, m2, merge=False)
            try:
                e.run(step, {1: ("ref", self_)}, env)
                rep.engine(e)
            except Incomplete as x:
                rep.undecided("iter:step", str(x), w)
                return
            if len(m2.rets) != 1 or m2.rets[0][0][()][0] != "agg":
                state = None
                break
            val, env = m2.rets[0]
            env = env.copy()
            if val[()][4] == "None":
                state = "end"
                break
            r = val.get((("v", "Some"), ("f", "0")), TOP)
            n = node_of(sh, r)
            if n is None:
                state = None
                break
            seen.append(n)
            if "gap" in used:
                now = env.tree(self_)
                exp = None
                for d in (1, 0):
                    f = cfg.init[(HEAD, d)]
                    nxt = cfg.init[(f, d)]
                    if n == f and {p: (("i", nxt) if x == ("i", f) else x) for p, x in first.items()} == now:
                        exp = True
                state = "uniform" if exp else None
                break
        shape = "list " + words(used)
        if "gap" in used:
            tri(rep, True if state == "uniform" else None, "iter:step", "each step of iter yields the current node and moves on to the next", w)
            continue
        if state is None:
            tri(rep, None, "iter:nodes", "the nodes iter yields (%s)" % shape, w)
            continue
        tri(rep, state == "end", "iter:ends", "iter does not end after the last node (%s)" % shape, w)
        tri(rep, sorted(map(str, seen)) == sorted(map(str, used)), "iter:nodes", "iter yields the wakers of %s (%s)" % ([name(x) for x in seen], shape), w)


def deref_local(env, v):
    n = 0
    while v[0] == "ref" and v[1][0][0] == "L" and n < 5:
        v = env.read(v[1])
        n += 1
    return v


def node_of(sh, v):
    """the node whose waker a reference refers to"""
    if v[0] == "ref" and v[1][0] == ARENA and len(v[1][1]) == 3 and v[1][1][0] == sh.items and v[1][1][2] == sh.waker:
        return canon(v[1][1][1][1])
    return None


def fresh(F, rep, sh):
    """a new arena: the free head, and every other node free"""
    m = It()
    w = sh.fn["new"].loc
    if not explore(F, rep, sh.fn["new"], m, "new", merge=False) or len(m.rets) != 1:
        rep.undecided("new", "the nodes of a new arena", w)
        return None
    val, env = m.rets[0]
    idx = sorted({p[1][1] for p in val if len(p) >= 2 and p[0] == sh.items and p[1][0] == "ix"})
    nodes = {}
    for i in idx:
        for d in (0, 1):
            x = val.get((sh.items, ("ix", i), sh.links[d]), TOP)
            nodes[(canon(i), d)] = canon(x)
    ints = [i for i, d in nodes if d == 0]
    if not ints or any(not isinstance(x, int) for x in nodes.values()):
        rep.undecided("new", "the links of a new arena", w)
        return None
    rep.count("nodes_of_a_new_arena", len(ints))
    for d in (0, 1):
        seen, cur = [], 0
        for _ in ints:
            nx = nodes.get((cur, d))
            if nx is None or nodes.get((nx, 1 - d)) != cur:
                tri(rep, False, "new:links", "the free list of a new arena has a broken link at node %s" % cur, w)
                return None
            if nx == 0:
                break
            seen.append(nx)
            cur = nx
        tri(rep, sorted(seen) == sorted(i for i in ints if i), "new:free", "the free list of a new arena holds %s of its nodes %s" % (seen, ints), w)
    return nodes


# ------------------------------------------------------------------------------------------------ the cell
OPS = ("WakersArena::new", "WakersArena::add", "WakersArena::remove", "WakersArena::update", "WakersArena::iter",
       "WakersArena::add_sublist", "WakersArena::remove_sublist_if_empty")
CELL = (("D", ("the cell",)), ())
FUT = (("D", ("the future",)), ())
GUARD = (("D", ("the guard",)), ())
V0 = ("sym", ("@", "world", 3, ""), "the version", ())
DATA = ("sym", ("@", "world", 4, ""), "the data", ())
SLOT = ("sym", ("@", "world", 5, ""), "the slot", ())
P = "core::task::poll::Poll"


class Parts:
    """the cell's parts, found by type"""

    def __init__(self, F, rep):
        self.ok = False
        fs = fields(F, CRATE + "::reactive_cell::ReactiveCell")
        if not rep.anchor(fs is not None and len(fs) == 1 and isname(fs[0][1], "RefCell"), "ReactiveCell", "one RefCell in ReactiveCell"):
            return
        self.inner = (("f", fs[0][0]), "cell")
        t = fs[0][1].a[0]
        g = fields(F, t.n) if t.k == "adt" else None
        if not rep.anchor(g is not None, "Inner", "the struct the cell holds"):
            return
        ar = [n for n, x in g if isname(x, "WakersArena")]
        ver = [n for n, x in g if x.k in ("uint", "int") or x.s in ("u64", "u32", "usize", "u128", "i64")]
        dat = [n for n, x in g if x.k == "param"]
        if not rep.anchor(len(ar) == 1 and len(ver) == 1 and len(dat) == 1, "Inner:fields", "data, waiting tasks and a change counter"):
            return
        self.arena = (CELL[0], self.inner + (("f", ar[0]),))
        self.version = (CELL[0], self.inner + (("f", ver[0]),))
        self.data = (CELL[0], self.inner + (("f", dat[0]),))
        self.guard = CRATE + "::reactive_cell::borrow_mut::ReactiveCellBorrowMut"
        self.fut = CRATE + "::reactive_cell::until_change::UntilChangeFuture"
        self.ok = True


class Tr(Monitor):
    """one call; arena operations are recorded, not entered"""
    precise = True

    def __init__(self, parts, hook=None):
        self.p, self.hook, self.rets = parts, hook, []

    def init(self, eng, env):
        return ()

    def opaque(self, eng, fn, ev):
        return ev is not None and ev.key in OPS

    def rec(self, st, *r):
        return st if r in st else st + (r,)

    def results(self, eng, ev, env, st):
        if self.hook:
            r = self.hook(eng, ev, env, st)
            if r is not None:
                return r
        if ev.key == "WakersArena::add":
            return [({(): SLOT}, self.rec(st, ev.key, tuple(ev.args), str(ev.loc)), False)]
        if ev.key in OPS:
            trees = tuple(tuple(sorted(t.items(), key=repr)) for t in ev.trees)
            return [(None, self.rec(st, ev.key, tuple(ev.args), ("@", ev.ctx.id, ev.block, ""), trees, str(ev.loc)), False)]
        return None

    def on_call(self, eng, ev, env, st):
        if ev.key in ("Waker::wake_by_ref", "Waker::wake"):
            st = self.rec(st, "wake", tuple(ev.args))
        return st

    def on_store(self, eng, loc, val, env, st, where):
        if loc[0] in (CELL[0], FUT[0], GUARD[0]):
            st = self.rec(st, "store", loc, val)
        return st

    def on_item(self, eng, it, item, env, st, where):
        return self.rec(st, "item", it, item)

    def on_end(self, eng, it, env, st, where):
        return self.rec(st, "end", it)

    def on_return(self, eng, val, env, st, where):
        self.rets.append((dict(val), env, st, eng))
        return st


def call(F, rep, parts, fn, argv, env, key_, hook=None):
    m = Tr(parts, hook)
    e = Engine(F, m, merge=False)
    e.seconds = 60
    try:
        e.run(fn, argv, env.copy())
        rep.engine(e)
    except Incomplete as x:
        rep.undecided(key_, str(x), fn.loc)
        return []
    return m.rets


def r01(F, rep):
    """A reactive cell: handing out write access ends with the change counter advanced and every waiting task woken; write access is
    handed out in no other way; the stream of changes is ready exactly when the counter moved since the last poll, leaves the current
    task's waker at every poll and gives back its slot when dropped."""
    p = Parts(F, rep)
    if not p.ok:
        return
    first = creation(F, rep, p)
    listeners(F, rep, p)
    writing(F, rep, p)
    waiting(F, rep, p, first)
    each_change(F, rep, p)


def creation(F, rep, p):
    """(smallest version a cell can have)"""
    new = F.inherent("reactive_cell::ReactiveCell", "new")
    if not rep.anchor(len(new) == 1, "ReactiveCell::new", "ReactiveCell::new"):
        return None
    w = new[0].loc
    m = Tr(p)
    e = Engine(F, m, merge=False)
    try:
        e.run(new[0], {1: DATA}, None)
        rep.engine(e)
    except Incomplete as x:
        rep.undecided("new", str(x), w)
        return None
    first = []
    for val, env, st, eng in m.rets:
        v = val.get(p.version[1], TOP)
        d = val.get(p.data[1], TOP)
        tri(rep, d == DATA if d != TOP else None, "new:data", "a new cell holds the value it was given", w)
        first.append(v[1] if v[0] == "i" else None)
    if not first or None in first:
        rep.undecided("new:version", "the change counter of a new cell", w)
        return None
    return min(first)


def listeners(F, rep, p):
    """the list the cell's tasks wait in: made by `new`, and apart from the free list; everything goes to this one list"""
    sh = Shape(F, rep)
    if not sh.ok:
        return
    new = F.inherent("reactive_cell::ReactiveCell", "new")[0]
    m = It()
    e = Engine(F, m, merge=False)
    try:
        e.run(new, {1: DATA}, None)
        rep.engine(e)
    except Incomplete as x:
        rep.undecided("listeners", str(x), new.loc)
        return
    heads = set()
    for f in users(F, p):
        for r in f:
            heads.add(r)
    ar = p.arena[1] + (sh.items,)
    where = new.loc
    for val, env in m.rets:
        nodes = {}
        for q, v in val.items():
            if q[:len(ar)] == ar and len(q) == len(ar) + 2 and q[-2][0] == "ix" and q[-1] in sh.links:
                nodes[(canon(q[-2][1]), sh.links.index(q[-1]))] = canon(v)
        if not nodes or any(not isinstance(x, int) for x in nodes.values()) or any(not isinstance(h, int) for h in heads) or not heads:
            tri(rep, None, "listeners:list", "the list the cell's tasks wait in", where)
            continue
        free, cur = set(), 0
        for _ in range(len(nodes)):
            free.add(cur)
            cur = nodes.get((cur, 1), 0)
        for h in sorted(heads):
            good = h != 0 and h not in free and nodes.get((h, 0)) == h and nodes.get((h, 1)) == h
            tri(rep, good, "listeners:list", "tasks wait in list %d of the cell's arena, which `new` does not set up as an empty list" % h, where)
        tri(rep, len(heads) == 1, "listeners:one", "tasks wait in list %s, but are woken from another" % sorted(heads), where)


def users(F, p):
    """per function of the cell's module: the list heads it passes to arena operations"""
    out = []
    for f in F.fns.values():
        if f.crate.name != CRATE or "reactive_cell" not in f.id or f.coroutine or f.kind == "closure":
            continue
        m = Tr(p)
        e = Engine(F, m, merge=False)
        e.seconds = 30
        try:
            e.run(f, None, None)
        except Incomplete:
            continue
        got = set()

        for val, env, st, eng in m.rets:
            for r in st:
                if r[0] in ("WakersArena::add", "WakersArena::iter"):
                    got.add(sublist_of(F, eng, env, r[1][1]))
        out.append(got)
    return out


def sublist_of(F, eng, env, v):
    n = 0
    while v[0] == "ref" and n < 4:
        v0 = env.read((v[1][0], v[1][1] + (("f", "0"),)))
        if v0[0] == "i":
            return v0[1]
        if v0[0] == "proj" and v0[1][0] == "i":
            return v0[1][1]
        v = env.read(v[1])
        n += 1
    if v[0] == "i":
        return v[1]
    return v


def access(F, rep, p, name_):
    g = F.inherent("reactive_cell::ReactiveCell", name_)
    return g[0] if len(g) == 1 else None


def exclusive(t):
    """type through which a value can be changed"""
    if t is None:
        return False
    if t.k == "ref":
        return t.m == "mut" or bool(t.m) and t.m != "not" and "mut" in str(t.m)
    return t.k == "adt" and t.n.split("::")[-1] in ("RefMut", "Cell", "RefCell", "OnceCell")


def mentions_adt(t, n):
    return t.k == "adt" and t.n == n or any(mentions_adt(x, n) for x in t.a if hasattr(x, "k")) or (t.t is not None and mentions_adt(t.t, n))


def mentions_excl(t):
    return exclusive(t) or any(mentions_excl(x) for x in t.a if hasattr(x, "k")) or (t.t is not None and mentions_excl(t.t))


def drop_of(F, adt):
    for i in F.trait_impls("Drop"):
        if i["self_ty"].k == "adt" and i["self_ty"].n == adt:
            return F.impl_fn(i, "drop")
    return None


def guard_value(val):
    """the tree of the guard inside a returned value (plain, or in Ok/Some)"""
    for pre in ((), (("v", "Ok"), ("f", "0")), (("v", "Some"), ("f", "0"))):
        v = val.get(pre)
        if v is not None and v[0] == "agg" and v[1] == "adt" and v[2].endswith("ReactiveCellBorrowMut"):
            return {q[len(pre):]: x for q, x in val.items() if q[:len(pre)] == pre}
    return None


def writing(F, rep, p):
    dr = drop_of(F, p.guard)
    if not rep.anchor(dr is not None, "guard:drop", "what happens when write access ends"):
        rep.check(False, "guard:drop", "write access to a cell ends without telling anybody", CRATE)
        return
    n = 0
    for f in F.fns.values():
        if f.crate.name != CRATE or f.self_ty is None or f.self_ty.k != "adt" or not f.self_ty.n.endswith("reactive_cell::ReactiveCell"):
            continue
        rt = f.ty(0)
        if mentions_adt(rt, p.guard):
            n += 1
            gives_guard(F, rep, p, f, dr)
        elif mentions_excl(rt) and not mentions_adt(rt, p.fut) and not f.coroutine:
            # nothing else hands out the data for writing
            rep.check(False, "write:other", "%s hands out the cell's content for writing, and nobody is told when it changes" % f.name, f.loc)
    rep.floor("ways_to_write", n, 2)


def gives_guard(F, rep, p, f, dr):
    env = Env()
    rets = call(F, rep, p, f, {1: ("ref", CELL)}, env, "guard:" + f.id.rsplit("::", 1)[-1])
    w = f.loc
    some_ = False
    for val, env, st, eng in rets:
        g = guard_value(val)
        if g is None:
            continue
        some_ = True
        e2 = env.copy()
        e2.write_tree(GUARD, g)
        for v2, env2, st2, eng2 in call(F, rep, p, dr, {1: ("ref", GUARD)}, e2, "guard:drop"):
            old, new = e2.read(p.version), env2.read(p.version)
            if new[0] == "init" and new == old:
                ok = False
            elif larger(new, old) or larger(new, ("init", p.version)):
                ok = True
            else:
                ok = None
            tri(rep, ok, "guard:version", "ending write access does not advance the change counter", dr.loc)
            its = [r for r in st2 if r[0] == "WakersArena::iter" and r[1][0] == ("ref", p.arena)]
            if not tri(rep, True if its else (False if not any(r[0] == "wake" for r in st2) else None), "guard:visits", "ending write access does not look at the waiting tasks", dr.loc):
                continue
            full = [r for r in st2 if r[0] == "end" and over(r[1], its)]
            cut = [r for r in st2 if r[0] == "item" and over(r[1], its) is False]
            tri(rep, True if full else False if cut or not any(r[0] == "end" for r in st2) else None, "guard:all", "ending write access leaves out some of the waiting tasks", dr.loc)
            for r in st2:
                if r[0] == "item" and over(r[1], its):
                    woken = any(x[0] == "wake" and within(x[1][0], r[2]) for x in st2)
                    tri(rep, woken, "guard:wakes", "ending write access visits a waiting task without waking it", dr.loc)
    tri(rep, True if some_ else None, "guard:" + f.id.rsplit("::", 1)[-1], "the guard this hands out", w)
    for i in F.trait_impls("DerefMut") + F.trait_impls("Deref"):
        if i["self_ty"].k == "adt" and i["self_ty"].n == p.guard and some_:
            m = F.impl_fn(i, "deref_mut") or F.impl_fn(i, "deref")
            e3 = env.copy()
            e3.write_tree(GUARD, g) if g else None
            if not g:
                continue
            for v3, env3, st3, _ in call(F, rep, p, m, {1: ("ref", GUARD)}, e3, "guard:deref"):
                v = v3.get((), TOP)
                tri(rep, v == ("ref", p.data) if v[0] == "ref" else None, "guard:deref", "the guard gives access to something other than the cell's data", m.loc)


def within(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(within(w, x) for w in v if isinstance(w, tuple))


def over(it, its):
    """True: all of the arena's iteration, False: only part of it, None: something else"""
    part = False
    n = 0
    while it[0] == "op" and n < 8:
        if it[1] in ("take", "skip", "step_by", "zip", "filter", "take_while", "skip_while", "skip_last"):
            part = True
        elif it[1] not in ("iter", "rev", "enumerate", "copied", "cloned", "peekable", "inspect", "fuse", "map"):
            return None
        it = it[2]
        n += 1
    for r in its:
        if it[0] == "sym" and (it[1] == r[2] or it[2] == "WakersArena::iter" and it[3] == r[1]):
            return not part
    return None


def larger(new, old):
    """the place is borrowed while the tasks are woken: nobody else changes it meanwhile"""
    def same(v):
        return v == old or v[0] == old[0] == "init" and v[:2] == old[:2]
    if new[0] == "op" and new[1] == "Add" and new[3][0] == "i" and new[3][1] > 0:
        return same(new[2])
    return new[0] == "sym" and new[2].endswith(("wrapping_add", "saturating_add", "checked_add")) and same(new[3][0]) and new[3][1] != ("i", 0)


def waiting(F, rep, p, first):
    uc = access(F, rep, p, "until_change")
    dr = drop_of(F, p.fut)
    polls = {}
    for t, m in (("Stream", "poll_next"), ("Future", "poll")):
        for i in F.trait_impls(t):
            if i["self_ty"].k == "adt" and i["self_ty"].n == p.fut:
                polls[m] = F.impl_fn(i, m)
    if not rep.anchor(uc is not None and len(polls) == 2, "until_change", "the stream of a cell's changes"):
        return
    if dr is None:
        rep.check(False, "until_change:drop", "a dropped change stream keeps its slot", CRATE)
    env = Env()
    e = Engine(F, Monitor())
    vs = [V0] + [e.binop(env, "Add", V0, ("i", k)) for k in (1, 2, 3, 4)]
    env.write(p.version, V0)
    env.facts[V0] = ("ne", frozenset(range(-8, first or 0)))      # counters do not go below that of a new cell
    outs = call(F, rep, p, uc, {1: ("ref", CELL)}, env, "until_change:new")
    n = 0
    cxs = (("D", ("the context",)), ())
    for val, en, st, eng in outs:
        adds = [r for r in st if r[0] == "WakersArena::add"]
        tri(rep, len(adds) == 1 and adds[0][1][0] == ("ref", p.arena), "until_change:slot", "a change stream has one slot in the cell's own list", uc.loc)
        en = en.copy()
        en.write_tree(FUT, val)
        for seq in ("p p 1 p p 2 p p", "p 1 p 1 p p 1 p"):
            for how in ("poll_next", "poll", "mixed"):
                n += scenario(F, rep, p, polls, seq, how, en, vs, cxs)
        states = [en]
        for k in (1, 2, 3):          # and after a poll, after an unanswered write, after an answered one
            if k == 2:
                states.append(states[-1].copy())
                states[-1].write(p.version, vs[1])
            else:
                states += [x[1] for x in call(F, rep, p, polls["poll_next"], {1: ("ref", FUT), 2: ("ref", cxs)}, states[-1], "until_change:poll")][:1]
        for en in states if dr is not None else ():
            for v2, e2, st2, _ in call(F, rep, p, dr, {1: ("ref", FUT)}, en, "until_change:drop"):
                rm = [r for r in st2 if r[0] == "WakersArena::remove"]
                okr = len(rm) == 1 and rm[0][1][0] == ("ref", p.arena) and points(e2, rm[0][1][1], SLOT)
                tri(rep, okr, "until_change:drop", "a dropped change stream must give back its own slot, once", dr.loc)
    rep.floor("polls", n, 20)


def points(env, v, x):
    n = 0
    while n < 4:
        if v == x or v[0] == "init" and within(v, x):
            return True
        if v[0] != "ref":
            return False
        v = env.read(v[1])
        n += 1
    return v == x


def scenario(F, rep, p, polls, seq, how, env, vs, cxs):
    cur, polled, seen, n = 0, False, 0, 0
    w = polls["poll_next"].loc
    words_ = []
    work = [(env, 0, False, 0)]
    steps = seq.split()
    for i, s in enumerate(steps):
        nxt = []
        for env, cur, polled, seen in work:
            if s != "p":
                env = env.copy()
                cur = cur + int(s)
                env.write(p.version, vs[cur])
                nxt.append((env, cur, polled, seen))
                continue
            m = how if how != "mixed" else ("poll" if i % 2 else "poll_next")
            ctx = ("ref", (("D", ("context", i)), ()))
            rets = call(F, rep, p, polls[m], {1: ("ref", FUT), 2: ctx}, env, "until_change:" + m)
            want = polled and cur > seen
            shown = "after " + " ".join({"p": "a poll", "1": "a change", "2": "two changes"}[x] for x in steps[:i]) if i else "at the first poll"
            for val, e2, st, eng in rets:
                n += 1
                v = val.get((), TOP)
                r = v[4] if v[0] == "agg" and v[2] == P else None
                if r is None:
                    tri(rep, None, "until_change:result", "what a poll returns", polls[m].loc)
                    continue
                ready = r == "Ready"
                tri(rep, ready == want, "until_change:fires" if want else "until_change:quiet",
                    "the change stream %s (%s)" % ("misses a change" if want else "fires without a change", shown), polls[m].loc)
                if ready and m == "poll_next":
                    o = val.get((("v", "Ready"), ("f", "0")), TOP)
                    tri(rep, o[4] == "Some" if o[0] == "agg" else None, "until_change:endless", "the change stream must not end", polls[m].loc)
                up = [x for x in st if x[0] == "WakersArena::update"]
                good = [x for x in up if x[1][0] == ("ref", p.arena) and points(e2, x[1][1], SLOT) and within(x[1][2], ctx[1][0])]
                if not ready or m == "poll_next":
                    tri(rep, True if good else False if not up else (False if any(not within(x[1][2], ctx[1][0]) for x in up) else None), "until_change:waker",
                        "a poll must leave the current task's waker in the stream's slot (%s)" % shown, polls[m].loc)
                st_v = e2.read(p.version)
                tri(rep, st_v == vs[cur], "until_change:leaves", "a poll must not move the change counter", polls[m].loc)
                nxt.append((e2, cur, True, cur))
        work = nxt[:8]
    return n


def each_change(F, rep, p):
    """for_each: the callback sees the value once at first and once after every change, and the task sleeps only while it has"""
    fs = [f for f in F.fns.values() if f.crate.name == CRATE and f.coroutine and "for_each" in f.id and "reactive_cell" in f.id]
    if not rep.anchor(len(fs) == 1, "for_each", "the body of for_each"):
        return
    f = fs[0]
    w = f.loc
    seen = []

    # state: (undelivered, future: None/"fresh"/"stale"/"live", polled since resumed)
    def hook(eng, ev, env, st):
        und, fut, reg, dead = st
        if ev.key == "ReactiveCell::until_change":
            return [(None, (und, "fresh", False, dead), False)]
        g = F.fns.get(ev.info.get("rid")) if ev.info else None
        if ev.key in ("Future::poll", "Stream::poll_next") and not (g is not None and g.self_ty is not None and g.self_ty.k == "adt" and g.self_ty.n == p.fut):
            if env.read(eng.deref(env, ev.args[0]))[2:3] == (PF,):
                return None
            return [(None, (und, fut, reg, True), True)]
        if ev.key in ("Future::poll", "Stream::poll_next") and fut:
            some_ = {(): ("agg", "adt", P, 0, "Ready")}
            if ev.key != "Future::poll":
                some_[(("v", "Ready"), ("f", "0"))] = ("agg", "adt", "core::option::Option", 1, "Some")
                some_[(("v", "Ready"), ("f", "0"), ("v", "Some"), ("f", "0"))] = ("unit",)
            else:
                some_[(("v", "Ready"), ("f", "0"))] = ("unit",)
            pend = {(): ("agg", "adt", P, 1, "Pending")}
            if fut == "fresh":
                return [(pend, (und, "stale" if und else "live", True, dead), False)]
            if fut == "stale":
                return [(pend, (und, "stale", True, dead), False)]
            return [(some_, (True, "live", True, dead), False), (pend, (und, "live", True, dead), False)]
        return None

    def is_func(eng, env, ev):
        return ev.key in ("FnMut::call_mut", "Fn::call", "FnOnce::call_once") and eng.find_closure(env, ev.trees[0])[0] is None

    class M(Monitor):
        precise = True

        def init(s, eng, env):
            return (True, None, False, False)

        def results(s, eng, ev, env, st):
            return hook(eng, ev, env, st)

        def opaque(s, eng, fn, ev):
            return ev is not None and (ev.key == "ReactiveCell::until_change" or ev.key in OPS)

        def on_call(s, eng, ev, env, st):
            if is_func(eng, env, ev):
                seen.append(ev)
                tri(rep, st[0], "for_each:spurious", "for_each calls back although nothing changed", str(ev.loc))
                st = (False,) + st[1:]
            return st

        def on_yield(s, eng, env, st, where):
            und, fut, reg, dead = st
            if dead:         # waits for something else too: not understood
                und, reg = None if und else False, reg or None
            tri(rep, None if und is None else not und, "for_each:asleep", "for_each can go to sleep with a value its callback has not seen", where)
            tri(rep, None if reg is None else bool(fut) and reg, "for_each:wakes", "for_each goes to sleep without waiting for a change", where)
            return (st[0], fut, False, False)

        def on_return(s, eng, val, env, st, where):
            tri(rep, False, "for_each:endless", "for_each ends although the cell can still change", where)
            return st
    e = Engine(F, M(), merge=False)
    e.seconds = 60
    try:
        e.run(f, None, None)
        rep.engine(e)
    except Incomplete as x:
        rep.undecided("for_each", str(x), w)
        return
    tri(rep, bool(seen), "for_each:calls", "for_each calls back", w)
    for ev in seen:
        t = [x for tr in ev.trees[1:] for x in tr.values()]
        ok = any(within(x, "cell") or str(x).find("'cell'") >= 0 for x in t)
        tri(rep, True if ok else None, "for_each:argument", "for_each passes the cell's data", str(ev.loc))
