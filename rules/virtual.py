"""The virtualized list.  What is measured on the page is unknown, so every decision that depends on it is taken both ways and every index
computed from it may be anything; whatever the measurements say, the list must hold one item for each index of one range."""
import os
from absint import Engine, Incomplete, TOP, Env
from comb import isname
from dom import tri
import seqs
from lists2 import NOTYPE
from seqs import tok, is_tok, BOOL, UNIT

CRATE = "async_ui_web"
OBJ = ("D", ("the list",))
SELF = ("ref", (OBJ, ()))
HUGE = 12     # further than the list is ever long here


class State(seqs.State):
    """shown: (index, future) in the order shown; made: indices the renderer was called with"""
    F = ("shown", "made", "call") + seqs.State.F


class Ours:
    def __contains__(self, r):
        return r[0] == "D"


class Virtual(seqs.Seqs):
    inline_first = ("Clone::clone", "Default::default", "Drop::drop")
    private = Ours()

    def __init__(self, sh, st, oracle):
        self.sh, self.st0, self.oracle = sh, st, oracle
        self.sites = {}
        self.rets = []

    def init(self, eng, env):
        return self.st0

    def sub(self, st):
        m = type(self)(self.sh, st, self.oracle)
        m.sites = self.sites
        return m

    def on_return(self, eng, val, env, st, where):
        self.rets.append((val, env, st, eng, where))
        return st

    def cast(self, eng, env, base, kind, site):
        """an index computed from measurements"""
        if "FloatToInt" not in kind:
            return None
        i = self.sites.setdefault(site, len(self.sites))
        if i >= len(self.oracle):
            raise Incomplete("more than %d indices are computed from measurements" % len(self.oracle))
        return ("i", self.oracle[i])

    def index(self, env, v, ev):
        v = self.deep(env, v)
        if v[0] != "i":
            raise Incomplete("which index (%s) is passed to %s at %s" % (str(v)[:200], ev.key, ev.loc))
        return v[1]

    def option(self, env, ev, i):
        t, v = ev.trees[i], ev.trees[i][()]
        while v[0] == "ref":
            t = env.tree(v[1])
            v = t[()]
        if v[0] == "agg" and v[4] == "None":
            return None
        if v[0] == "agg" and v[4] == "Some":
            return self.index(env, t.get((("v", "Some"), ("f", "0")), TOP), ev)
        raise Incomplete("what is inserted before at %s" % ev.loc)

    def rendered(self, env, ev):
        """the index the renderer is called with; None: another function is called"""
        if ev.kind != "user" or len(ev.trees) != 2 or not is_tok(self.deep(env, ev.args[0]), "renderer"):
            return None
        a = ev.trees[1]
        i = self.deep(env, a.get((("f", "0"),), a.get((), TOP)))
        if i[0] != "i":
            raise Incomplete("which index is rendered at %s" % ev.loc)
        return i[1]

    def on_call(self, eng, ev, env, st):
        i = self.rendered(env, ev)
        if i is None:
            return st.set(call=None)
        return st.set(made=st.made + (i,), call=i)

    def answer(self, eng, ev, env, st):
        if not isinstance(st.call, int) or len(ev.trees) != 2 or "call" not in ev.key:
            return None
        v = ev.args[0]
        while v[0] == "ref" and env.read(v[1])[0] == "ref":
            v = env.read(v[1])
        if v[0] == "ref":
            env.write(v[1], tok("renderer", "the renderer"))
        return {(): tok("future", (st.call, "new"))}

    def results(self, eng, ev, env, st):
        k = ev.key.split("::")[-1]
        owner = ev.key.split("::")[-2:-1]
        if owner == ["DynamicList"] and k in ("new", "default") or ev.key == "Default::default" and isname(self.result_type(eng, ev) or NOTYPE, "DynamicList"):
            return [({(): tok("dynlist", "the items")}, st, False)]
        if owner == ["DynamicList"]:
            if not is_tok(self.deep(env, ev.args[0]), "dynlist"):
                raise Incomplete("which list %s is called on at %s" % (ev.key, ev.loc))
            return self.list_op(eng, ev, env, st, k)
        if owner in (["Closure"], ["ScopedClosure"]) and k in ("new", "wrap", "own"):
            return [({(): tok("closure", "wakes the list")}, st, False)]
        r = self.scalars(eng, ev, env, st)
        return self.seq(eng, ev, env, st) if r is None else r

    def list_op(self, eng, ev, env, st, k):
        s = list(st.shown)
        names = [n for n, _ in s]

        def at(q, b):
            names = [n for n, _ in q]
            return names.index(b) if b in names else len(q)
        if k == "contains_key":
            return [(BOOL[self.index(env, ev.args[1], ev) in names], st, False)]
        if k == "insert":
            n, b = self.index(env, ev.args[1], ev), self.option(env, ev, 3)
            f = self.deep(env, ev.args[2])
            if not is_tok(f, "future"):
                raise Incomplete("which future (%s) is inserted at %s" % (str(f)[:300], ev.loc))
            new = (n, f[4])
            i = at(s, b)
            s = [x for x in s[:i] if x[0] != n] + [new] + [x for x in s[i:] if x[0] != n]
            return [(BOOL[n in names], st.set(shown=tuple(s)), False)]
        if k == "remove":
            n = self.index(env, ev.args[1], ev)
            return [(BOOL[n in names], st.set(shown=tuple(x for x in s if x[0] != n)), False)]
        if k in ("move_before", "swap"):
            a = self.index(env, ev.args[1], ev)
            b = self.option(env, ev, 2) if k == "move_before" else self.index(env, ev.args[2], ev)
            if a not in names or k == "swap" and b not in names:
                return []
            if k == "swap":
                i, j = names.index(a), names.index(b)
                s[i], s[j] = s[j], s[i]
            elif a != b:
                it = s[names.index(a)]
                s.remove(it)
                s.insert(at(s, b), it)
            return [(dict(UNIT), st.set(shown=tuple(s)), False)]
        if k == "clear":
            return [(dict(UNIT), st.set(shown=()), False)]
        if k == "retain":
            work = [((), st.shown, env, st)]
            out = []
            while work:
                kept, rest, e, s1 = work.pop()
                if not rest:
                    out.append(self.out(dict(UNIT), s1.set(shown=tuple(x for x in st.shown if x[0] in kept)), e))
                    continue
                s1, loc = s1.place()
                e = e.copy()
                e.write(loc, ("i", rest[0][0]))
                for r, e2, s2 in self.invoke(eng, e, s1, ev.trees[1], [{(): ("ref", loc)}], ev):
                    work.append((kept + ((rest[0][0],) if self.truth(eng, e2, r, ev) else ()), rest[1:], e2, s2))
            return out
        raise Incomplete("%s at %s" % (ev.key, ev.loc))


def l06(F, rep):
    """A virtualized list shows one item for each index of one range of its indices, in order."""
    deep = os.environ.get("VERIF_TIER") == "thorough"
    most = 5 if deep else 3
    raws = (0, 1, 2, 3, 4, 5, HUGE) if deep else (0, 1, 2, 3, HUGE)
    fn = {}
    for m in ("new", "set_num_items", "set_direction"):
        g = F.inherent("virtualized_list::VirtualizedList", m)
        if not rep.anchor(len(g) == 1, "VirtualizedList::" + m, "the method " + m):
            return
        fn[m] = g[0]
    set_num = fn["set_num_items"]

    class Sh:
        pass
    sh = Sh()
    sh.F, sh.rep = F, rep

    def call(f, vals, env, st, oracle):
        m = Virtual(sh, st, oracle)
        e = Engine(F, m, merge=False)
        e.seconds = 100
        e.run(f, vals, env.copy())
        rep.engine(e)
        out = []
        for val, e2, s2, _, _ in m.rets:
            e2 = e2.copy()
            for r in [r for r in e2.m if r[0] == "L"]:
                del e2.m[r]
            e2.facts.clear()
            out.append((val, e2, s2))
        return out, len(m.sites)
    ops = 0
    seen = {}
    try:
        n = fn["new"].argc
        vals = {i: ("sym", ("@", "world", i, ""), "argument %d" % i, ()) for i in range(1, n + 1)}
        r, _ = call(fn["new"], {**vals, n: tok("renderer", "the renderer")}, Env(), State(), ())
        todo = []
        for val, e, s in r:
            e = e.copy()
            e.write_tree((OBJ, ()), val)
            todo.append((e, s, 0, "a new list"))
        while todo:
            env, st, num, story = todo.pop(0)
            old = st.shown
            for k in range(most + 1):
                done = set()
                for a in raws:
                    for b in raws:
                        rs, used = call(set_num, {1: SELF, 2: ("i", k)}, env, st.set(made=()), (a, b))
                        ops += 1
                        what = "%s, %d items (indices %s, %s measured)" % (story, k, *("huge" if x == HUGE else x for x in (a, b)))
                        rep.check(bool(rs), "returns", "%s: set_num_items %s" % (what, "returns" if rs else "panics"), set_num.loc)
                        for val, e2, s2 in rs:
                            good = judge(rep, what, old, s2, k, set_num.loc)
                            shown = tuple((i, (i, "old")) for i, _ in s2.shown)
                            e2 = e2.copy()
                            s2 = s2.set(shown=shown, made=())
                            s2 = seqs.prune(e2, s2)
                            if not s2.colls:
                                s2 = s2.set(fresh=0)
                            key = (e2.tree((OBJ, ())), s2, k)
                            key = (repr(sorted(key[0].items(), key=repr)), s2, k)
                            if good and key not in seen:
                                seen[key] = 1
                                todo.append((e2, s2, k, "%d items with [%s] shown" % (k, " ".join(str(i) for i, _ in shown))))
                        if rep.violations and ops > 1000:
                            todo = []
                        if len(seen) > 400:
                            raise Incomplete("more than 400 states of the list")
    except Incomplete as x:
        rep.undecided("virtual", "%s: %s" % (what, x), set_num.loc)
    rep.count("states of the list", len(seen))
    rep.count("abstract updates", ops)
    rep.floor("states of the list", len(seen), 8)


def judge(rep, what, old, st, num, loc):
    now = [i for i, _ in st.shown]
    good = True

    def check(ok, key, text):
        nonlocal good
        good = good and ok
        rep.check(ok, key, "%s: %s" % (what, text), loc)
    t = "[%s]" % " ".join(map(str, now))
    twice = len(set(now)) != len(now)
    check(not twice, "shown:once", "an item is shown twice in %s" % t if twice else "no item is shown twice")
    row = bool(now) and now != list(range(now[0], now[0] + len(now)))
    check(not row, "shown:order", "the items shown are %s%s" % (t, ", which is not one range in order" if row else ""))
    over = [i for i in now if i >= num]
    check(not over, "shown:bound", "item %d is shown" % over[0] if over else "only items of the list are shown")
    wrong = [i for i, f in st.shown if f[0] != i]
    check(not wrong, "shown:future", "item %d shows what was rendered for another" % wrong[0] if wrong else "each item shows what was rendered for it")
    before = dict(old)
    lost = [i for i, f in st.shown if i in before and f != before[i]]
    check(not lost, "shown:kept", "item %d, which was shown before, is rendered anew" % lost[0] if lost else "items that stay keep what they show")
    again = [i for i in st.made if st.made.count(i) > 1]
    check(not again, "renderer:once", "the renderer is called twice for item %d" % again[0] if again else "the renderer is called at most once for an item")
    past = [i for i in st.made if i >= num]
    check(not past, "renderer:bound", "the renderer is called for item %d" % past[0] if past else "the renderer is only called for items of the list")
    return good
