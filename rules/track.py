"""Change tracking of x-bow as a whole.  Subscribing, polling, changing and dropping are interpreted from the compiler's MIR on an abstract
path (a row of levels, each feeding its own name to the hasher) and an abstract arena of wakers (whose contract is property R02); every
short history of those operations is played, with one and with two streams, and each step is compared with a small specification."""
import os
from absint import Engine, Incomplete, TOP, Env, FakeFn
from comb import isname
from models import NONE, some, wrap
import seqs
from lists2 import NOTYPE
from seqs import tok, is_tok, BOOL, UNIT

TRACKER = (("D", ("the tracker",)), ())
KIND = "xbow"
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}
CX = ("D", ("the context",))
POLL = "core::task::poll::Poll"
R, RA, RB, RAX = ("r",), ("r", "a"), ("r", "b"), ("r", "a", "x")
DEEP = ("r", "a", "x", "y", "z", "u", "v")


class State(seqs.State):
    """lists: list -> its slots; slots: slot -> the waker in it; data: whether the data of the paths is there"""
    F = ("lists", "slots", "woken", "log", "data", "next", "held") + seqs.State.F
    ZERO = dict(seqs.State.ZERO, next=0, data=1)


class Ours:
    def __contains__(self, r):
        return r[0] == "D"


class World(seqs.Seqs):
    inline_first = ("Clone::clone", "Default::default", "Into::into", "From::from", "Drop::drop")
    private = Ours()

    def __init__(self, sh, st):
        self.sh, self.st0 = sh, st
        self.rets = []

    def init(self, eng, env):
        return self.st0

    def sub(self, st):
        return type(self)(self.sh, st)

    def on_return(self, eng, val, env, st, where):
        self.rets.append((val, env, st, eng, where))
        return st

    def item(self, eng, ev, env, st):
        r = self.results(eng, ev, env, st)
        return [(tree, st1) for tree, st1, _ in r] if r is not None and all(len(x) == 3 for x in r) else None

    def on_acquire(self, eng, g, env, st, where):
        if any(x[2] == g[2] and not x[1] == g[1] == "shared" for x in st.held):
            return None
        return st.set(held=st.held + (g,))

    def on_release(self, eng, g, env, st, where):
        return st.set(held=tuple(x for x in st.held if x != g))

    def key_at(self, env, v):
        v = self.deep(env, v)
        return None if v == TOP or v[0] in ("agg", "ref", "init", "proj") else v

    def tk(self, env, v, kind):
        v = self.deep(env, v)
        if not is_tok(v, kind):
            return None
        return v[4]

    def need(self, env, ev, i, kind):
        x = self.tk(env, ev.args[i], kind)
        if x is None:
            raise Incomplete("which %s is meant in %s at %s" % (kind, ev.key, ev.loc))
        return x

    def invoke(self, eng, env, st, ftree, args, ev):
        f, _ = eng.find_closure(env, ftree)
        if isinstance(f, tuple) and f[1][2].split("::")[-1] in ("wake_by_ref", "wake") and "Waker" in f[1][2]:
            w = self.tk(env, args[0][()], "waker")
            if w is not None:
                return [(dict(UNIT), env, self.wake(st, w))]
        return seqs.Seqs.invoke(self, eng, env, st, ftree, args, ev)

    @staticmethod
    def wake(st, w):
        return st.set(woken=tuple(sorted(set(st.woken) | {w})))

    def results(self, eng, ev, env, st):
        k = ev.key
        if k in ("Path::visit_hashes", "Path::store_wakers", "Path::path_borrow", "Path::path_borrow_mut"):
            p = self.tk(env, ev.args[0], "path")
            if p is not None:
                return self.path_op(eng, ev, env, st, k.split("::")[1], p)
        if k in ("DefaultHasher::new", "DefaultHasher::default"):
            return [({(): self.hasher(())}, st, False)]
        if k == "Default::default" and isname(self.result_type(eng, ev) or NOTYPE, "DefaultHasher"):
            return [({(): self.hasher(())}, st, False)]
        if k in ("Hasher::finish", "DefaultHasher::finish"):
            h = self.need(env, ev, 0, "hasher")
            return [({(): ("sym", ("hash",), "hash", tuple(("s", x) for x in h))}, st, False)]
        if k.startswith("WakersArena::"):
            return self.arena(eng, ev, env, st, k.split("::")[1])
        w = self.tk(env, ev.args[0], "waker") if ev.args else None
        if w is not None:
            n = k.split("::")[-1]
            if k in ("Waker::wake_by_ref", "Waker::wake"):
                return [(dict(UNIT), self.wake(st, w), False)]
            if n in ("clone", "to_owned"):
                return [({(): tok("waker", w)}, st, False)]
            if n == "will_wake":
                return [(BOOL[w == self.need(env, ev, 1, "waker")], st, False)]
        if k in ("Clone::clone", "ToOwned::to_owned") and ev.args:
            v = self.deep(env, ev.args[0])
            if v[0] in ("i", "sym", "op"):
                return [({(): v}, st, False)]
        if k.split("::")[-1] in ("box_assume_init_into_vec_unsafe", "into_vec", "to_vec"):
            a = ev.args[0]
            t = env.tree((("D", a), (("f", "value"),)))
            if t[()][0] != "agg" and a[0] == "ref":
                t = env.tree(a[1])
            if t[()][:2] == ("agg", "array"):
                ns = sorted({q[0][1][1] for q in t if q and q[0][0] == "ix"})
                e = env.copy()
                st, c = self.make(e, st, "vec", [{q[1:]: x for q, x in t.items() if q and q[0] == ("ix", ("i", i))} for i in ns])
                return [self.out({(): c}, st, e)]
        n, _, op = k.partition("::")
        if n in BITS and op.startswith("wrapping_") and len(ev.args) == 2 and ev.args[0][0] == ev.args[1][0] == "i":
            a, b = ev.args[0][1], ev.args[1][1]
            r = {"wrapping_add": a + b, "wrapping_sub": a - b, "wrapping_mul": a * b}.get(op)
            if r is not None:
                return [({(): ("i", r % (1 << BITS[n]))}, st, False)]
        r = self.scalars(eng, ev, env, st)
        return r if r is not None else self.seq(eng, ev, env, st)

    @staticmethod
    def hasher(ids):
        return tok("hasher", ids)

    def path_op(self, eng, ev, env, st, what, p):
        if what == "store_wakers":
            return [({(): ("ref", TRACKER)}, st, False)]
        if what != "visit_hashes":
            if not st.data:
                return [(dict(NONE), st, False)]
            return [(some({(): self.sh.borrowed(eng, ev, env, p)}), st, False)]
        v = ev.args[1]
        n = 0
        while v[0] == "ref" and env.read(v[1])[0] == "ref" and n < 4:
            v = env.read(v[1])
            n += 1
        if v[0] != "ref":
            raise Incomplete("which visitor is meant at %s" % ev.loc)
        at = [q for q, x in env.tree(v[1]).items() if is_tok(x, "hasher")]
        if len(at) != 1:
            raise Incomplete("where the visitor hashes at %s" % ev.loc)
        loc = (v[1][0], v[1][1] + at[0])
        work = [(env.copy(), st)]
        for level in p:
            nxt = []
            for e, s in work:
                h = e.read(loc)
                if level != "r":
                    e.write(loc, self.hasher(h[4] + (level,)))
                nxt += [(e2, s2) for _, e2, s2 in self.sh.nested(self.sh.level, {1: v}, e, s, eng, self)]
            work = nxt
        return [self.out(dict(UNIT), s, e) for e, s in work]

    def arena(self, eng, ev, env, st, what):
        lists, slots = dict(st.lists), dict(st.slots)

        def known(i):
            x = self.need(env, ev, i, "list")
            if x not in lists:
                self.sh.misuse("a list that has been given back is used", ev.loc)
                raise Dead()
            return x

        def slot(i):
            x = self.need(env, ev, i, "slot")
            if x not in slots:
                self.sh.misuse("a slot that has been given back is used", ev.loc)
                raise Dead()
            return x

        def done(tree):
            return [(tree, st.set(lists=tuple(sorted(lists.items())), slots=tuple(sorted(slots.items())), next=n), False)]
        n = st.next
        try:
            if what == "new":
                return [({(): tok("arena", 0)}, st, False)]
            if what == "add_sublist":
                n += 1
                lists[n] = ()
                return done({(): tok("list", n)})
            if what == "add":
                l = known(1)
                n += 1
                lists[l] += (n,)
                slots[n] = ""
                return done({(): tok("slot", n)})
            if what == "remove":
                x = slot(1)
                del slots[x]
                lists = {l: tuple(y for y in ys if y != x) for l, ys in lists.items()}
                return done(dict(UNIT))
            if what == "remove_sublist_if_empty":
                l = known(1)
                if lists[l]:
                    return done(dict(BOOL[False]))
                del lists[l]
                return done(dict(BOOL[True]))
            if what == "update":
                slots[slot(1)] = self.need(env, ev, 2, "waker")
                return done(dict(UNIT))
            if what == "iter":
                l = known(1)
                ps, e = [], env.copy()
                for x in lists[l]:
                    st, a = st.place()
                    e.write(a, tok("waker", slots[x]))
                    ps.append(a)
                s2, it = st.iter(("locs", tuple(ps)))
                return [self.out({(): it}, s2, e)]
        except Dead:
            return []
        return None


class Dead(Exception):
    pass


class Tracking:
    world = World

    def __init__(self, F, rep):
        self.F, self.rep, self.ok = F, rep, False
        self.fn, self.story, self.broken = {}, "", False
        lv = [f for f in F.fns.values() if f.crate.name == "x_bow" and f.id.endswith("::finish_one") and f.argc == 1 and f.self_ty is not None
              and isname(f.self_ty, "HashVisitor")]
        if not rep.anchor(len(lv) == 1, "finish_one", "the function that closes one level of a path"):
            return
        self.level = lv[0]
        for m in ("until_change", "until_bubbling_change", "notify_changed"):
            g = F.fn_named("PathExt::" + m)
            if not rep.anchor(len(g) == 1, "PathExt::" + m, "the path operation " + m):
                return
            self.fn[m] = g[0]
        is_uc = lambda t: isname(t, "UntilChange")
        g = [F.impl_fn(i, "poll_next") for i in F.trait_impls("Stream", is_uc)]
        mk = F.inherent("wakers::StoreWakers", "new")
        if not rep.anchor(len(g) == 1 and g[0] is not None and len(mk) == 1, "stream", "the change stream and its tracker"):
            return
        self.fn["poll"], self.fn["tracker"] = g[0], mk[0]
        unit = self.fn["notify_changed"].locals[0]["t"]
        new = self.fn["until_change"]
        t = new.locals[0]["t"]
        self.fn["drop"] = self.dropper(new, t, unit, "dropping a change stream")
        d = [F.impl_fn(i, "drop") for i in F.trait_impls("Drop", is_uc)]
        if d and d[0]:
            self.fn["drop"].loc = d[0].loc
        self.ok = True

    @staticmethod
    def dropper(fn, t, unit, name):
        body = {"blocks": [{"s": [], "t": ["drop", [1, []], t, 1, None, True], "cl": False, "l": 0}, {"s": [], "t": ["return"], "cl": False, "l": 0}],
                "locals": [{"t": unit}, {"t": t}]}
        f = FakeFn(fn, body, "drop")
        f.name, f.argc = name, 1
        return f

    def borrowed(self, eng, ev, env, p):
        return eng.sym(env, ev.ctx, ev.block, ev.key, (tok("path", p),))

    def misuse(self, what, loc):
        self.rep.check(False, "arena", "%s: %s" % (self.story, what), str(loc))
        self.broken = True

    def nested(self, fn, vals, env, st, eng, mon):
        base = eng.base + 1000

        def purge(en):
            for r in [r for r in en.m if r[0] == "L" and isinstance(r[1], int) and r[1] >= base]:
                del en.m[r]
        en = env.copy()
        purge(en)
        m = mon.sub(st)
        e = Engine(self.F, m, merge=False)
        e.seconds = 20
        e.base = base
        e.run(fn, vals, en)
        self.rep.engine(e)
        out = []
        for val, env2, s2, e2, _ in m.rets:
            env2 = env2.copy()
            purge(env2)
            out.append((val, env2, s2))
        return out

    def call(self, fn, vals, w, what, story):
        """every outcome of a call: [(value, env, state)]; None when undecided"""
        env, st = w
        env = env.copy()
        self.story = story
        st = st.set(woken=(), log=(), held=())
        for i, v in vals.items():
            if isinstance(v, dict):
                env.write_tree((("L", 0, i), ()), v)
        vals = {i: v for i, v in vals.items() if not isinstance(v, dict)}
        m = self.world(self, st)
        e = Engine(self.F, m, merge=False)
        e.seconds = 60
        try:
            e.run(fn, vals, env)
        except Incomplete as x:
            self.rep.undecided(what, "%s: %s" % (story, x), fn.loc)
            return None
        self.rep.engine(e)
        self.rep.count("abstract calls", self.rep.counts.get("abstract calls", 0) + 1)
        out = []
        for val, e2, s2, eng, where in m.rets:
            e2 = e2.copy()
            for r in [r for r in e2.m if r[0] == "L"]:
                del e2.m[r]
            out.append((val, e2, s2))
        self.rep.check(bool(out) or self.broken, what + ":returns", "%s: %s" % (story, "the call returns" if out else "the call panics"), fn.loc)
        return out

    def done(self, env, st):
        env = env.copy()
        st = seqs.prune(env, st)
        env.facts.clear()
        return env, st.set(woken=(), log=(), held=())

    def path(self, env, p):
        loc = (("D", ("path",) + p), ())
        env.write(loc, tok("path", p))
        return ("ref", loc)

    def start(self):
        r = self.call(self.fn["tracker"], {}, (Env(), State()), "tracker", "a new store")
        if not r:
            return None
        val, e, s = r[0]
        e = e.copy()
        e.write_tree(TRACKER, {(): ("agg", "cell", "", 0, ""), **{("cell",) + p: v for p, v in val.items()}})
        for p in (R, RA, RB, RAX, DEEP):
            self.path(e, p)
        return self.done(e, s)

    def context(self, env, task):
        wk = (("D", ("task", task)), ())
        env.write(wk, tok("waker", task))
        env.write_tree((CX, ()), {(): ("agg", "adt", "core::task::wake::Context", 0, "Context"), (("f", "waker"),): ("ref", wk)})


def place(n):
    return (("D", ("stream", n)), ())


def name(p):
    return ".".join(p)


def hears(kind, at, q):
    """a stream of this kind on path `at` listens to changes of path q"""
    return at[:len(q)] == q if kind == "regular" else q[:len(at)] == at


def subscribe(T, w, n, kind, at, story):
    fn = T.fn["until_change" if kind == "regular" else "until_bubbling_change"]
    r = T.call(fn, {1: ("ref", (("D", ("path",) + at), ()))}, w, "subscribe", story)
    out = []
    for val, e, s in r or ():
        T.rep.check(not s.woken, "subscribe:quiet", "%s: %s" % (story, "subscribing wakes somebody" if s.woken else "nobody is woken"), fn.loc)
        e = e.copy()
        e.write_tree(place(n), val)
        out.append(T.done(e, s))
    return out


def poll(T, w, n, task, spec, story):
    """[(world, new spec of the stream)]"""
    kind, at, polled, dirty, armed = spec
    fn = T.fn["poll"]
    env, st = w[0].copy(), w[1]
    T.context(env, task)
    r = T.call(fn, {1: ("ref", place(n)), 2: ("ref", (CX, ()))}, (env, st), "poll", story)
    out = []
    for val, e, s in r or ():
        v = val[()]
        want = polled and dirty
        got = None
        if v[0] == "agg" and v[4] == "Pending":
            got = False
        elif v[0] == "agg" and v[4] == "Ready":
            o = val.get((("v", "Ready"), ("f", "0")), TOP)
            if o[0] == "agg" and o[4] == "None":
                T.rep.check(False, "poll:end", "%s: the stream ends" % story, fn.loc)
                continue
            got = True if o[0] == "agg" else None
        if got is None:
            T.rep.undecided("poll:result", story, fn.loc)
            continue
        ok = got == want
        T.rep.check(ok, "poll:result", "%s: the stream %s%s" % (story, "is ready" if got else "is pending", "" if ok else
                    (" although nothing changed since the last poll" if polled else " although this is the first poll") if got else
                    " although there was a change since the last poll"), fn.loc)
        if ok:
            out.append((T.done(e, s), (kind, at, True, False, task)))
    return out


def change(T, w, q, specs, story):
    fn = T.fn["notify_changed"]
    r = T.call(fn, {1: ("ref", (("D", ("path",) + q), ()))}, w, "change", story)
    out = []
    for val, e, s in r or ():
        new, good = [], True
        for sp in specs:
            if sp is not None and hears(sp[0], sp[1], q):
                if sp[4]:
                    ok = sp[4] in s.woken
                    good &= T.rep.check(ok, "change:wakes", "%s: the task that waits for changes %s is %s" % (
                        story, ("of " if sp[0] == "regular" else "in ") + name(sp[1]), "woken" if ok else "not woken"), fn.loc)
                sp = sp[:3] + (sp[2], None)
            new.append(sp)
        if good:
            out.append((T.done(e, s), tuple(new)))
    return out


def drop(T, w, n, story):
    fn = T.fn["drop"]
    r = T.call(fn, {1: w[0].tree(place(n))}, w, "drop", story)
    out = []
    for val, e, s in r or ():
        e = e.copy()
        for x in [x for x in e.m if x == place(n)[0]]:
            del e.m[x]
        out.append(T.done(e, s))
    return out


def histories(T, w, streams, changes, depth, resub=False):
    """plays every history of this length; streams: the kind and path of each stream"""
    specs = tuple((k, p, False, False, None) for k, p in streams)
    story = ", ".join("%s = %s(%s)" % ("st"[i], "until_change" if k == "regular" else "until_bubbling_change", name(p)) for i, (k, p) in enumerate(streams))
    ws = [w]
    for i, (k, p) in enumerate(streams):
        ws = [y for x in ws for y in subscribe(T, x, i, k, p, story)]
    layer = {(x[0].freeze(), x[1], specs): (x, specs, story) for x in ws}
    total = 0
    for d in range(depth):
        nxt = {}
        for x, specs, story in layer.values():
            total += 1
            outs = []
            for i, sp in enumerate(specs):
                nm = "st"[i]
                if sp is None:
                    if resub:
                        k, p = streams[i]
                        st2 = "%s, %s subscribes anew" % (story, nm)
                        outs += [(y, specs[:i] + ((k, p, False, False, None),) + specs[i + 1:], st2) for y in subscribe(T, x, i, k, p, st2)]
                    continue
                for task in ("A", "B"):
                    if len(specs) > 1 and task != "AB"[i]:
                        continue
                    st2 = "%s, %s polled by %s" % (story, nm, task)
                    outs += [(y, specs[:i] + (s2,) + specs[i + 1:], st2) for y, s2 in poll(T, x, i, task, sp, st2)]
                st2 = "%s, %s dropped" % (story, nm)
                for y in drop(T, x, i, st2):
                    s2 = specs[:i] + (None,) + specs[i + 1:]
                    if all(z is None for z in s2):
                        left = y[1].slots
                        T.rep.check(not left, "drop:slots", "%s: %s" % (st2, "%d registrations stay behind" % len(left) if left else
                                    "no registration is left"), T.fn["drop"].loc)
                    outs.append((y, s2, st2))
            for q in changes:
                st2 = "%s, %s changes" % (story, name(q))
                outs += [(y, s2, st2) for y, s2 in change(T, x, q, specs, st2)]
            if T.broken:
                return total
            for y, s2, st2 in outs:
                nxt.setdefault((y[0].freeze(), y[1], s2), (y, s2, st2))
        layer = nxt
    return total


def x05(F, rep):
    """A change stream fires exactly when what it listens to changed since its last poll, keeps the current task's waker where it listens, and
    takes back its registrations, and only its own, when it is dropped."""
    T = Tracking(F, rep)
    if not T.ok:
        return
    w = T.start()
    if w is None:
        return
    deep = os.environ.get("VERIF_TIER") == "thorough"
    n = 0
    for kind in ("regular", "bubbling"):
        n += histories(T, w, [(kind, RA)], (R, RA, RAX, RB) if deep else (R, RA) if kind == "regular" else (RA, RAX), 6 if deep else 5)
        for p in (R, RAX):
            n += histories(T, w, [(kind, p)], (R, RA, RAX, RB), 5 if deep else 3)
    for a, b in ((("regular", RA), ("regular", RA)), (("regular", RA), ("bubbling", RA)), (("bubbling", RA), ("bubbling", RA)),
                 (("regular", RAX), ("regular", RB))):
        n += histories(T, w, [a, b], (RA,) if a[1] == b[1] else (R, RA), 6 if deep else 5, True)
    rep.count("histories", n)
    rep.floor("histories", n, 300)


def x02(F, rep):
    """Subscriptions listen under the very keys that mutations wake; and every task waiting there is told."""
    import xbow2
    xbow2.reach(F, rep)
    T = Tracking(F, rep)
    if not T.ok:
        return
    w = T.start()
    if w is None:
        return
    n = 0
    for kind in ("regular", "bubbling"):
        for p in (R, RA, RAX, DEEP):
            n += histories(T, w, [(kind, p)], (R, RA, RB, RAX) + ((DEEP,) if p == DEEP else ()), 3)
    # several streams: each is told of the changes it listens to
    three = [("regular", RA), ("regular", RA), ("bubbling", RA)], [("bubbling", R), ("regular", RAX), ("bubbling", R)], [("regular", R), ("regular", RB), ("regular", RAX)]
    for streams in three:
        specs = tuple((k, p, False, False, None) for k, p in streams)
        ws = [(w, specs, "three streams on %s" % ", ".join("%s %s" % (k, name(p)) for k, p in streams))]
        for i, (k, p) in enumerate(streams):
            ws = [(y, s, t) for x, s, t in ws for y in subscribe(T, x, i, k, p, t)]
        for i in range(3):
            ws = [(y, s[:i] + (s2,) + s[i + 1:], t) for x, s, t in ws for y, s2 in poll(T, x, i, "ABC"[i], s[i], t + ", polled")]
        for q in (R, RA, RB, RAX):
            for x, s, t in ws:
                for y, s2 in change(T, x, q, s, "%s, %s changes" % (t, name(q))):
                    n += 1
                    for i in range(3):
                        poll(T, y, i, "ABC"[i], s2[i], "%s, %s changes, %d polled" % (t, name(q), i))
    rep.count("histories", n)
    rep.floor("histories", n, 100)


def everybody(T, w):
    """streams of both kinds on every path, each polled by a task of its own: (world, specs)"""
    streams = [(k, p) for k in ("regular", "bubbling") for p in (R, RA, RB, RAX)]
    specs = []
    for i, (k, p) in enumerate(streams):
        r = subscribe(T, w, i, k, p, "subscribing")
        if len(r) != 1:
            return None
        r = poll(T, r[0], i, "T%d" % i, (k, p, False, False, None), "first poll of %s %s" % (k, name(p)))
        if len(r) != 1:
            return None
        w = r[0][0]
        specs.append(r[0][1])
    return w, tuple(specs)


def announced(T, key, fn, story, s, specs, q):
    miss = [sp for sp in specs if hears(sp[0], sp[1], q) and sp[4] not in s.woken]
    return T.rep.check(not miss, key, "%s: %s" % (story, "not told: subscribers of changes %s" % ", ".join(("of " if x[0] == "regular" else "in ") + name(x[1]) for x in miss)
                                                  if miss else "all subscribers are told"), fn.loc)


def x01(F, rep):
    """Every mutable access is announced to all subscribers of the datum, of what is in it and of what it is in, when it ends."""
    import xbow2
    xbow2.notify(F, rep)
    T = Tracking(F, rep)
    if not T.ok:
        return
    w = T.start()
    w = w and everybody(T, w)
    if not w:
        return
    w, specs = w
    unit = T.fn["notify_changed"].locals[0]["t"]
    VALUE = {(): tok("value", "the new data")}
    n = 0
    ops = {}
    for tr, ms in (("PathExt", ("notify_changed", "set_opt", "borrow_opt_mut", "borrow_opt_mut_without_notifying", "borrow_opt", "get_opt")),
                   ("PathExtGuaranteed", ("set", "borrow_mut", "borrow_mut_without_notifying", "borrow", "get"))):
        for m in ms:
            g = F.fn_named("%s::%s" % (tr, m))
            if rep.anchor(len(g) == 1, "%s::%s" % (tr, m), "the path operation " + m):
                ops[m] = g[0]
    for q in (R, RA, RAX):
        pr = ("ref", (("D", ("path",) + q), ()))
        for m, fn in ops.items():
            for there in (1, 0) if "opt" in m else (1,):
                story = "%s on %s%s" % (m, name(q), "" if there else ", which is absent")
                vals = {1: pr}
                if m.startswith("set"):
                    vals[2] = VALUE
                r = T.call(fn, vals, (w[0], w[1].set(data=there)), "op", story)
                for val, e, s in r or ():
                    n += 1
                    loud = m in ("notify_changed", "set", "set_opt", "borrow_opt_mut", "borrow_mut") and there
                    if not loud or m.startswith("borrow"):
                        rep.check(not s.woken or m.startswith("borrow") and loud, "op:quiet", "%s: %s" % (story, "somebody is told of a change" if s.woken else "nobody is told of a change"), fn.loc)
                    else:
                        announced(T, "op:told", fn, story, s, specs, q)
                    if "mut" not in m or not there:
                        continue
                    t = fn.locals[0]["t"]
                    g = val
                    st2 = story + ", then the access ends"
                    if val[()][0] == "agg" and val[()][4] in ("Some", "None"):
                        if val[()][4] == "None":
                            rep.check(False, "op:gives", "%s gives no access" % story, fn.loc)
                            continue
                    d = T.dropper(fn, t, unit, "the end of the access")
                    d.loc = fn.loc
                    r2 = T.call(d, {1: g}, T.done(e, s.set(data=1)), "end", st2)
                    for _, e2, s2 in r2 or ():
                        if loud:
                            announced(T, "end:told", fn, st2, s2, specs, q)
                        else:
                            rep.check(not s2.woken, "end:quiet", "%s: %s" % (st2, "somebody is told of a change" if s2.woken else "nobody is told of a change"), fn.loc)
    rep.count("operations", n)
    rep.floor("operations", n, 40)


# ------------------------------------------------------------------------------------------- adaptors
class AState(State):
    """queue: what the incoming stream has to give"""
    F = ("queue", "made") + State.F
    ZERO = dict(State.ZERO, made=0)


CALLS = ("FnMut::call_mut", "FnOnce::call_once", "Fn::call")


class AWorld(World):
    def told(self, env, ev):
        if ev.key not in CALLS or not ev.args:
            return False
        return is_tok(self.deep(env, ev.args[0]), "closure")

    def on_call(self, eng, ev, env, st):
        if self.told(env, ev):
            ps = set()
            for t in ev.trees[1:]:
                for v in t.values():
                    ps |= {x[4] for x in seqs.terms(v) if is_tok(x, "path")}
            wrote = tuple(x for x in st.log if x[0] == "in")
            st = st.set(log=st.log + (("cb", tuple(sorted(ps)), len(wrote)),), made=st.made + 1)
        return st

    def answer(self, eng, ev, env, st):
        if ev.key not in CALLS or len(ev.trees) != 2:
            return None
        v = ev.args[0]
        while v[0] == "ref" and env.read(v[1])[0] == "ref":
            v = env.read(v[1])
        if v[0] == "ref":
            env.write(v[1], tok("closure", "the callback"))
        return {(): tok("future", st.made)}

    def results(self, eng, ev, env, st):
        k = ev.key
        if k == "Stream::poll_next" and is_tok(self.deep(env, ev.args[0]), "incoming"):
            w = self.waker_of(env, ev.args[1])
            if not st.queue:
                return [({(): ("agg", "adt", POLL, 1, "Pending")}, st.set(log=st.log + (("in", "Pending", w),)), False)]
            x, q = st.queue[0], st.queue[1:]
            st = st.set(queue=q, log=st.log + (("in", x, w),))
            return [(wrap(dict(NONE) if x == "end" else some({(): tok("value", x)}), 0, "Ready", POLL), st, False)]
        if k == "Future::poll":
            f = self.tk(env, ev.args[0], "future")
            if f is not None:
                w = self.waker_of(env, ev.args[1])
                return [({(): ("agg", "adt", POLL, 1, "Pending")}, st.set(log=st.log + (("fut", f, "pending", w),)), False),
                        (wrap(dict(UNIT), 0, "Ready", POLL), st.set(log=st.log + (("fut", f, "ready", w),)), False)]
        return World.results(self, eng, ev, env, st)

    def waker_of(self, env, v):
        n = 0
        while v[0] == "ref" and n < 6:
            w = env.read((v[1][0], v[1][1] + (("f", "waker"),)))
            if w != TOP and is_tok(self.deep(env, w), "waker"):
                return self.deep(env, w)[4]
            v = env.read(v[1])
            n += 1
        return None


class Adaptors(Tracking):
    world = AWorld

    def __init__(self, F, rep):
        Tracking.__init__(self, F, rep)
        if not self.ok:
            return
        self.ok = False
        unit = self.fn["notify_changed"].locals[0]["t"]
        for m, tr, meth, ty in (("for_each", "Future", "poll", "ForEach"), ("for_each_async", "Future", "poll", "ForEachAsync"),
                                ("bind_for_each", "Future", "poll", "BindForEach"), ("signal_stream", "Stream", "poll_next", "SignalStream")):
            g = F.fn_named("PathExt::" + m)
            p = [F.impl_fn(i, meth) for i in F.trait_impls(tr, lambda t: isname(t, ty))]
            if not rep.anchor(len(g) == 1 and len(p) == 1 and p[0] is not None, "PathExt::" + m, "the adaptor " + m):
                return
            self.fn[m], self.fn[m + " poll"] = g[0], p[0]
            self.fn[m + " drop"] = self.dropper(g[0], g[0].locals[0]["t"], unit, "dropping " + m)
            self.fn[m + " drop"].loc = p[0].loc
        self.ok = True

    def start(self):
        w = Tracking.start(self)
        return w and (w[0], AState(**{f: getattr(w[1], f) for f in State.F}))


OBJ = place(0)


def adaptor(T, w, m, depth, fire=None):
    """plays every history of one adaptor on r.a"""
    args = {1: ("ref", (("D", ("path",) + RA), ()))}
    cb = {(): tok("closure", "the callback")}
    if m == "signal_stream":
        args[2] = ("i", fire)
    else:
        args[2] = cb
    if m == "bind_for_each":
        args[3] = {(): tok("incoming", "the incoming stream")}
    title = m + ("" if fire is None else "(%s)" % ("true" if fire else "false"))
    r = T.call(T.fn[m], args, w, m, title)
    # the specification: first poll to come, changed, task waiting, current future
    layer = {}
    for val, e, s in r or ():
        T.rep.check(not any(x[0] == "cb" for x in s.log) and not s.woken, m + ":lazy", "%s does nothing yet" % title, T.fn[m].loc)
        e = e.copy()
        e.write_tree(OBJ, val)
        x = T.done(e, s)
        layer[(x[0].freeze(), x[1], 0)] = (x, (True, False, None, None), title)
    n = 0
    for d in range(depth):
        nxt = {}
        for x, spec, story in layer.values():
            n += 1
            first, dirty, task, fut = spec
            outs = []
            for t in ("A", "B") if not task or d < 3 else ("A" if task == "B" else "B",):
                outs += adaptor_poll(T, x, m, fire, t, spec, "%s, polled by %s" % (story, t))
            for q in (RA, R, RAX, RB):
                st2 = "%s, %s changes" % (story, name(q))
                for y, s2 in change(T, x, q, (("regular", RA, not first, dirty, task),), st2):
                    outs.append((y, (first, s2[0][3] or dirty, s2[0][4], fut), st2))
            here = x[1].data
            outs.append(((x[0], x[1].set(data=1 - here)), spec, "%s, the data is %s" % (story, "gone" if here else "back")))
            if m == "bind_for_each" and len(x[1].queue) < 2 and "end" not in x[1].queue:
                for v in ("v%d" % (len(x[1].queue) + 1), "end"):
                    outs.append(((x[0], x[1].set(queue=x[1].queue + (v,))), (first, dirty, None, fut), "%s, %s comes in" % (story, v)))
            st2 = "%s, dropped" % story
            for val, e, s in T.call(T.fn[m + " drop"], {1: x[0].tree(OBJ)}, x, m + ":drop", st2) or ():
                left = s.slots
                T.rep.check(not left, m + ":drop", "%s: %s" % (st2, "%d registrations stay behind" % len(left) if left else "no registration is left"), T.fn[m + " drop"].loc)
            if T.broken:
                return n
            for y, s2, st2 in outs:
                y = T.done(*y)
                y = (y[0], y[1].set(made=0 if s2[3] is None else y[1].made))
                nxt.setdefault((y[0].freeze(), y[1], s2), (y, s2, st2))
        layer = nxt
    return n


def written(env, T):
    """what was written through a mutable borrow of r.a"""
    out = []
    for r, d in env.m.items():
        if r[0] == "D" and any(is_tok(x, "path") for x in seqs.terms(r[1])):
            v = d.get((), TOP)
            if is_tok(v, "value"):
                out.append(v[4])
    return out


def adaptor_poll(T, w, m, fire, t, spec, story):
    first, dirty, task, fut = spec
    env, st = w[0].copy(), w[1]
    for r in [r for r in env.m if r[0] == "D" and any(is_tok(x, "path") for x in seqs.terms(r[1]))]:
        del env.m[r]
    T.context(env, t)
    fn = T.fn[m + " poll"]
    r = T.call(fn, {1: ("ref", OBJ), 2: ("ref", (CX, ()))}, (env, st), m, story)
    out = []
    ck = T.rep.check
    for val, e, s in r or ():
        v = val[()]
        if v[0] != "agg" or v[4] not in ("Ready", "Pending"):
            T.rep.undecided(m + ":result", story, fn.loc)
            continue
        ready = v[4] == "Ready"
        cbs = [x for x in s.log if x[0] == "cb"]
        inc = [x for x in s.log if x[0] == "in"]
        futs = [x for x in s.log if x[0] == "fut"]
        due = (first or dirty)
        if m == "signal_stream":
            want = first and bool(fire) or dirty
            good = ck(ready == want, m + ":fires", "%s: %s" % (story, ("ready" if ready else "pending") + ("" if ready == want else " instead of the other")), fn.loc)
            if ready:
                o = val.get((("v", "Ready"), ("f", "0")), TOP)
                if o[0] == "agg":
                    ok = (o[4] == "Some") == bool(st.data)
                    good &= ck(ok, m + ":ends", "%s: the stream %s although the data is %s" % (story, "gives data" if o[4] == "Some" else "ends", "there" if st.data else "absent"), fn.loc)
                    if not st.data:
                        continue
            if good:
                out.append((T.done(e, s), (False, False, None if ready else t, None), story))
            continue
        bind = m == "bind_for_each"
        values = [x[1] for x in inc if x[1] not in ("Pending", "end")]
        ended = any(x[1] == "end" for x in inc)
        good = True
        if bind:
            good &= ck(ended or bool(inc) and inc[-1][1] == "Pending" or bool(values) and not st.data, m + ":drains", "%s: everything that came in is taken" % story, fn.loc)
            good &= ck(all(x[2] == t for x in inc), m + ":waker", "%s: the incoming stream is polled with the task's waker" % story, fn.loc)
            ws = written(e, T)
            if values and st.data:
                good &= ck(ws == [values[-1]], m + ":writes", "%s: what is written is %s, the latest incoming value is %s" % (story, ws or "nothing", values[-1]), fn.loc)
            else:
                good &= ck(not ws, m + ":writes", "%s: %s written" % (story, ws or "nothing is"), fn.loc)
            fin = ended or bool(values) and not st.data
            good &= ck(ready == fin, m + ":finishes", "%s: %s" % (story, "finishes" if ready else "does not finish"), fn.loc)
            if ready or not good:
                continue
        else:
            good &= ck(not ready, m + ":endless", "%s: %s" % (story, "finishes" if ready else "goes on"), fn.loc)
        want = 1 if due and st.data else 0
        if bind and values and not first:
            # the data is what came in; only a change from elsewhere may be told
            want = None if dirty else 0
        if want is not None:
            good &= ck(len(cbs) == want, m + ":callback", "%s: the callback runs %s instead of %s" % (story, times(len(cbs)), times(want)) if len(cbs) != want else
                       "%s: the callback runs %s" % (story, times(want)), fn.loc)
        for x in cbs:
            good &= ck(x[1] == (RA,), m + ":argument", "%s: the callback is given the path's data" % story, fn.loc)
        for x in futs:
            good &= ck(x[3] == t, m + ":waker", "%s: the future is polled with the task's waker" % story, fn.loc)
        nf = None
        if m == "for_each_async":
            at = max([i for i, x in enumerate(s.log) if x[0] == "cb"], default=-1)
            mine = [x for x in s.log[at + 1:] if x[0] == "fut"]
            cur = w[1].made + 1 if cbs else fut
            if cur is not None:
                good &= ck(bool(mine) and all(x[1] == cur for x in mine), m + ":runs", "%s: the current future is %s" % (story, "polled" if mine else "not polled"), fn.loc)
            else:
                good &= ck(not mine, m + ":finished", "%s: %s" % (story, "a future that has finished or was replaced is polled" if mine else "nothing is polled"), fn.loc)
            over = [i for i, x in enumerate(mine) if x[2] == "ready"]
            good &= ck(not over or over[0] == len(mine) - 1, m + ":finished", "%s: a finished future is not polled again" % story, fn.loc)
            nf = None if cur is None or over else cur
            if not cbs and due and not st.data and fut is not None and not mine:
                continue
        if good:
            out.append((T.done(e, s), (False, False, t, nf), story))
    return out


def times(n):
    return "once" if n == 1 else "not" if n == 0 else "%d times" % n


def x06(F, rep):
    """Reactive adaptors run their callback once first and once per change."""
    T = Adaptors(F, rep)
    if not T.ok:
        return
    w = T.start()
    if w is None:
        return
    deep = os.environ.get("VERIF_TIER") == "thorough"
    n = 0
    for m, d in (("for_each", 4), ("for_each_async", 4), ("bind_for_each", 4)):
        n += adaptor(T, w, m, d + deep)
    for fire in (0, 1):
        n += adaptor(T, w, "signal_stream", 4 + deep, fire)
    rep.count("histories", n)
    rep.floor("histories", n, 300)
