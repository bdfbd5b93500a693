"""The lists built on the dynamic list, and the dropdown.  Their update methods are interpreted from the compiler's MIR on abstract key
lists: the previous and the new keys are short sequences of named keys in every arrangement to each other, vectors, hash maps, sets and
iterators over them are followed exactly (lib/seqs.py), and the calls on the dynamic list underneath have the meaning L01 establishes."""
import itertools
import os
from absint import Engine, Incomplete, TOP, Env
from comb import fields, isname
from models import NONE, some, wrap, RES
import seqs
from seqs import tok, is_tok, key, BOOL, UNIT
from lists import Page, Dom, node

CRATE = "async_ui_web"
OBJ = ("D", ("the component",))
SELF = ("ref", (OBJ, ()))


class State(seqs.State):
    """shown: what the dynamic list underneath shows, in order: (key, where its future comes from)"""
    F = ("shown", "rendered", "notes", "page", "made", "ok") + seqs.State.F


class Keys(seqs.Seqs):
    """collections of keys, the renderer and the dynamic list underneath"""
    inline_first = ("Clone::clone", "Default::default", "Into::into", "From::from")
    private = (OBJ,)

    def __init__(self, sh, st, rev=False):
        self.sh, self.st0, self.rev = sh, st, rev
        self.rets = []

    def init(self, eng, env):
        return self.st0

    def sub(self, st):
        return type(self)(self.sh, st, self.rev)

    def on_return(self, eng, val, env, st, where):
        self.rets.append((val, env, st, eng, where))
        return st

    # the renderer
    def on_call(self, eng, ev, env, st):
        if ev.kind == "user" and len(ev.trees) == 2 and ev.key in ("FnMut::call_mut", "Fn::call", "FnOnce::call_once"):
            k = self.key_at(env, ev.trees[1].get((("f", "0"),), TOP))
            if k is None:
                raise Incomplete("what is rendered at %s" % ev.loc)
            return st.set(rendered=st.rendered + (k,))
        return st

    def answer(self, eng, ev, env, st):
        if len(ev.trees) == 2 and st.rendered:
            return {(): tok("future", st.rendered[-1] + "#%d" % len(st.rendered))}
        return None

    def results(self, eng, ev, env, st):
        k = ev.key.split("::")[-1]
        if ev.args and ev.key.split("::")[-2:-1] == ["DynamicList"]:
            v = ev.args[0]
            while v[0] == "ref" and env.read(v[1])[0] == "ref":
                v = env.read(v[1])
            if v != ("ref", self.sh.list):
                raise Incomplete("which list %s is called on at %s" % (ev.key, ev.loc))
            return self.list_op(eng, ev, env, st, k)
        if ev.key in ("PartialEq::eq", "PartialEq::ne") and len(ev.args) == 2:
            a, b = self.key_at(env, ev.args[0]), self.key_at(env, ev.args[1])
            if a is not None and b is not None:
                return [(BOOL[(a == b) == (k == "eq")], st, False)]
            x = [self.maybe_key(env, v) for v in ev.args]
            if x[0] is not None and x[1] is not None:
                return [(BOOL[(x[0] == x[1]) == (k == "eq")], st, False)]
        if ev.key in ("Clone::clone", "ToOwned::to_owned", "Borrow::borrow", "AsRef::as_ref") and ev.args:
            v = ev.args[0]
            if v[0] == "ref" and is_tok(env.read(v[1]), "key"):
                return [({(): env.read(v[1]) if k in ("clone", "to_owned") else v}, st, False)]
            if v[0] == "ref" and env.read(v[1])[0] == "ref" and k == "clone":
                return [({(): env.read(v[1])}, st, False)]
        return self.seq(eng, ev, env, st)

    def maybe_key(self, env, v):
        """what an Option of a key behind a reference is: ("None",), ("Some", key), or None when it is not known"""
        for _ in range(4):
            if v[0] != "ref":
                return None
            t = env.tree(v[1])
            w = t.get((), TOP)
            if w[0] == "agg" and w[2].endswith("Option"):
                if w[4] == "None":
                    return ("None",)
                n = self.key_at(env, t.get((("v", "Some"), ("f", "0")), TOP))
                return ("Some", n) if n is not None else None
            v = w
        return None

    def opt_key(self, env, ev, i):
        t = ev.trees[i]
        v = t[()]
        if v[0] == "agg" and v[4] == "None":
            return None
        if v[0] == "agg" and v[4] == "Some":
            return self.need_key(env, t.get((("v", "Some"), ("f", "0")), TOP), ev)
        raise Incomplete("which key is passed to %s at %s" % (ev.key, ev.loc))

    def list_op(self, eng, ev, env, st, k):
        """the documented meaning of the dynamic list's methods"""
        names = [n for n, _ in st.shown]

        def at(seq, b):
            return [n for n, _ in seq].index(b) if b in [n for n, _ in seq] else len(seq)
        if k == "contains_key":
            return [(BOOL[self.need_key(env, ev.args[1], ev) in names], st, False)]
        if k == "insert":
            n, b = self.need_key(env, ev.args[1], ev), self.opt_key(env, ev, 3)
            f = ev.args[2]
            if not is_tok(f, "future"):
                raise Incomplete("which future is inserted at %s" % ev.loc)
            s = list(st.shown)
            s.insert(at(s, b), (n, f[4]))
            i = [x for x, y in enumerate(s) if y[0] == n and y[1] != f[4]]
            for x in i:
                del s[x]
            return [(BOOL[bool(i)], st.set(shown=tuple(s)), False)]
        if k == "remove":
            n = self.need_key(env, ev.args[1], ev)
            return [(BOOL[n in names], st.set(shown=tuple(x for x in st.shown if x[0] != n)), False)]
        if k == "move_before":
            n, b = self.need_key(env, ev.args[1], ev), self.opt_key(env, ev, 2)
            if n not in names:
                return []
            if n == b:
                return [(dict(UNIT), st, False)]
            it = [x for x in st.shown if x[0] == n]
            s = [x for x in st.shown if x[0] != n]
            i = at(s, b)
            return [(dict(UNIT), st.set(shown=tuple(s[:i] + it + s[i:])), False)]
        if k == "swap":
            a, b = self.need_key(env, ev.args[1], ev), self.need_key(env, ev.args[2], ev)
            if a not in names or b not in names:
                return []
            s = list(st.shown)
            i, j = names.index(a), names.index(b)
            s[i], s[j] = s[j], s[i]
            return [(dict(UNIT), st.set(shown=tuple(s)), False)]
        if k == "retain":
            work = [((), tuple(reversed(st.shown)) if self.rev else st.shown, env, st)]
            out = []
            while work:
                kept, rest, e, s = work.pop()
                if not rest:
                    out.append(self.out(dict(UNIT), s.set(shown=tuple(x for x in st.shown if x[0] in kept)), e))
                    continue
                s, loc = s.place()
                e = e.copy()
                e.write(loc, key(rest[0][0]))
                for r, e2, s2 in self.invoke(eng, e, s, ev.trees[1], [{(): ("ref", loc)}], ev):
                    yes = self.truth(eng, e2, r, ev)
                    work.append((kept + ((rest[0][0],) if yes else ()), rest[1:], e2, s2))
            return out
        raise Incomplete("%s at %s" % (ev.key, ev.loc))


def bounds():
    return (5, 5) if os.environ.get("VERIF_TIER") == "thorough" else (4, 5)


def pairs(extra=("x", "y", "z")):
    """every arrangement of new keys to previous keys, up to renaming"""
    most, new = bounds()
    for n in range(most + 1):
        prev = ["a", "b", "c", "d", "e"][:n]
        for m in range(new + 1):
            for pick in itertools.product(range(n + 1), repeat=m):
                old = [i for i in pick if i < n]
                if len(set(old)) != len(old) or m - len(old) > len(extra):
                    continue
                it = iter(extra)
                yield prev, [prev[i] if i < n else next(it) for i in pick]


class Part:
    def __init__(self, F, rep):
        self.F, self.rep = F, rep
        self.ok = False

    def run(self, fn, vals, env, st, obl, desc, rev=False, mon=None):
        m = (mon or Keys)(self, st, rev)
        e = Engine(self.F, m, merge=False)
        e.seconds = 60
        try:
            e.run(fn, vals, env)
        except Incomplete as x:
            self.rep.undecided(obl, "%s: %s" % (desc, x), fn.loc)
            return None
        self.rep.engine(e)
        self.rep.count("abstract calls", self.rep.counts.get("abstract calls", 0) + 1)
        return m


class Diffed(Part):
    def __init__(self, F, rep):
        Part.__init__(self, F, rep)
        n = CRATE + "::lists::diffed_list::DiffedList"
        fs = fields(F, n)
        if not rep.anchor(fs is not None, "DiffedList", "the struct DiffedList"):
            return
        dl = [f for f, t in fs if isname(t, "DynamicList")]
        cell = [(f, t) for f, t in fs if isname(t, "RefCell")]
        if not rep.anchor(len(dl) == 1 and len(cell) == 1, "DiffedList:fields", "a DynamicList and a RefCell in DiffedList"):
            return
        it = cell[0][1].a[0]
        ifs = fields(F, it.n) if it.k == "adt" else None
        v = [f for f, t in ifs or [] if isname(t, "Vec")]
        g = F.inherent("diffed_list::DiffedList", "update")
        if not rep.anchor(len(v) == 1 and len(g) == 1, "DiffedList:inner", "the previous keys and the method update in DiffedList"):
            return
        self.list = (OBJ, (("f", dl[0]),))
        self.prev = (OBJ, (("f", cell[0][0]), "cell", ("f", v[0])))
        self.fn = g[0]
        self.ok = True

    def play(self, prev, new, rev):
        rep = self.rep
        env = Env()
        st = State(shown=tuple((k, "old") for k in prev))
        m = Keys(self, st)
        st, a = m.make(env, st, "vec", [{(): key(k)} for k in prev])
        st, b = m.make(env, st, "vec", [{(): key(k)} for k in new])
        env.write(self.prev, a)
        desc = "update from [%s] to [%s]" % (" ".join(prev), " ".join(new))
        m = self.run(self.fn, {1: SELF, 2: b}, env, st, "update", desc, rev)
        if m is None:
            return
        if not m.rets:
            rep.check(False, "update:ends", "%s panics" % desc, self.fn.loc)
        for val, env, st, eng, where in m.rets:
            now = m.content(env, st, env.read(self.prev))
            if now is None:
                rep.undecided("update:previous", desc, self.fn.loc)
                continue
            bad = shown_wrong(prev, new, st)
            rep.check(not bad, "update:order", "%s: %s" % (desc, bad or "the items are those of the new keys, in order"), self.fn.loc)
            rep.check(now == [key(k) for k in new], "update:previous", "%s: the keys remembered for the next update are the new ones" % desc, self.fn.loc)


def shown_wrong(prev, new, st):
    names = [n for n, _ in st.shown]
    if names != list(new):
        return "the list then shows [%s]" % " ".join(names)
    for n, f in st.shown:
        if n in prev and f != "old":
            return "the item of %s is made anew although its key stays" % n
        if n not in prev and f.split("#")[0] != n:
            return "the item of %s shows what is rendered for %s" % (n, f.split("#")[0])
    extra = [n for n in st.rendered if n in prev or n not in new]
    if extra or len(st.rendered) != len(set(st.rendered)):
        return "the renderer is asked for [%s]" % " ".join(st.rendered)
    return None


def l02(F, rep):
    """After update the list shows exactly the new keys' items in order; items whose key stays are kept, the others are rendered once."""
    D = Diffed(F, rep)
    if not D.ok:
        return
    n = 0
    for prev, new in pairs():
        for rev in (False, True):
            if rev and len([k for k in prev if k not in new]) < 2:
                continue
            D.play(prev, new, rev)
            n += 1
    rep.floor("abstract calls", rep.counts.get("abstract calls", 0), 200)
    fresh(F, rep)


def fresh(F, rep):
    """a new list remembers no keys"""
    g = F.inherent("diffed_list::DiffedList", "new")
    if not rep.anchor(len(g) == 1, "DiffedList::new", "the method new"):
        return

    class New(Keys):
        def results(self, eng, ev, env, st):
            if ev.key == "DynamicList::new" or (ev.key == "Default::default" and isname(self.result_type(eng, ev), "DynamicList")):
                return [({(): tok("list", "underneath")}, st, False)]
            return self.seq(eng, ev, env, st)
    D = Diffed(F, rep)
    m = D.run(g[0], {1: ("sym", ("@", "world", 1, ""), "the renderer", ())}, Env(), State(), "new", "a new list", mon=New)
    for val, env, st, eng, where in m.rets if m else ():
        c = val.get(D.prev[1])
        l = val.get(D.list[1])
        good = None if c is None or l is None else m.content(env, st, c) == [] and is_tok(l, "list")
        if good is None:
            rep.undecided("new", "what a new DiffedList holds", g[0].loc)
        else:
            rep.check(good, "new", "a new list shows nothing and remembers no keys", g[0].loc)


# ------------------------------------------------------------------ the modelled list
MODEL = {"A": (("D", ("the model",)), ()), "B": (("D", ("another model",)), ())}


class Modeled(Keys):
    private = (OBJ, MODEL["A"][0], MODEL["B"][0])

    def results(self, eng, ev, env, st):
        k = ev.key.split("::")[-1]
        owner = ev.key.split("::")[0]
        if ev.key == "DynamicList::new" or (ev.key == "Default::default" and isname(self.result_type(eng, ev) or NOTYPE, "DynamicList")):
            return [({(): tok("list", "underneath")}, st, False)]
        if ev.key in ("Rc::new", "Arc::new"):
            st, p = st.place()
            return [({(): tok("rc", p[0][1][1])}, st, False)]
        if ev.key in ("Rc::ptr_eq", "Arc::ptr_eq"):
            a, b = self.deep(env, ev.args[0]), self.deep(env, ev.args[1])
            if is_tok(a, "rc") and is_tok(b, "rc"):
                return [(BOOL[a == b], st, False)]
        if ev.key == "Clone::clone" and ev.args and is_tok(self.deep(env, ev.args[0]), "rc"):
            return [({(): self.deep(env, ev.args[0])}, st, False)]
        r = self.scalars(eng, ev, env, st)
        if r is not None:
            return r
        return Keys.results(self, eng, ev, env, st)


class _NoType:
    k = ""


NOTYPE = _NoType()


class World(Part):
    """models and a modelled list, worked on through their public methods only"""

    def __init__(self, F, rep):
        Part.__init__(self, F, rep)
        fs = fields(F, CRATE + "::lists::modeled_list::ModeledList")
        dl = [f for f, t in fs or [] if isname(t, "DynamicList")]
        self.fn = {}
        if not rep.anchor(len(dl) == 1, "ModeledList:fields", "a DynamicList in ModeledList"):
            return
        self.list = (OBJ, (("f", dl[0]),))
        for m in ("insert", "remove", "pop", "push", "swap", "move_item", "modify_vec"):
            g = F.inherent("modeled_list::ListModel", m)
            if not rep.anchor(len(g) == 1, "ListModel::" + m, "the method " + m):
                return
            self.fn[m] = g[0]
        for m in ("new", "update"):
            g = F.inherent("modeled_list::ModeledList", m)
            if not rep.anchor(len(g) == 1, "ModeledList::" + m, "the method " + m):
                return
            self.fn["list " + m] = g[0]
        for tr, m in (("From", "from"), ("Deref", "deref"), ("Clone", "clone"), ("Default", "default")):
            g = [F.impl_fn(i, m) for i in F.trait_impls(tr, lambda t: isname(t, "ListModel"))]
            g = [x for x in g if x is not None]
            if not rep.anchor(len(g) == 1, "ListModel:" + tr, "the implementation of %s" % tr):
                return
            self.fn[m] = g[0]
        self.ok = True

    def call(self, name, vals, w, desc, obl, store=None):
        """one call on a world (env, st): [(result tree, env, st, monitor, engine)] or None"""
        env, st = w
        env = env.copy()
        for r in [r for r in env.m if r[0] == "L"]:
            del env.m[r]
        m = self.run(self.fn[name], vals, env, st, obl, desc, self.rev, Modeled)
        if m is None:
            return None
        out = []
        for val, e, s, eng, where in m.rets:
            e = e.copy()
            if store is not None:
                e.write_tree(store, val)
            for x in [x for x in e.m if x[0] == "L"]:
                del e.m[x]
            s = seqs.prune(e, s, val.values())
            eng.gc(e)
            out.append((val, e, s, m, eng))
        return out

    rev = False

    # -------------------------------------------------------- building blocks; a world is (env, st, names of A, names of B)
    def start(self, names, obl="new"):
        env, st = Env(), State()
        m = Modeled(self, st)
        out = []
        for val, e, s, _, _ in self.call("list new", {1: ("sym", ("@", "world", 1, ""), "the renderer", ())}, (env, st), "a new list", obl) or ():
            e = e.copy()
            e.write_tree((OBJ, ()), val)
            out += self.model((e, s), names, "A")
        return out

    def model(self, w, names, which):
        """the worlds in which this model is made from a vector of these keys"""
        env = w[0].copy()
        st, v = Modeled(self, w[1]).make(env, w[1], "vec", [{(): key(k)} for k in names])
        return [(e, s) for _, e, s, _, _ in self.call("from", {1: v}, (env, st), "a model made from [%s]" % " ".join(names), "model:from",
                                                      MODEL[which]) or ()]

    def clone(self, w, a, b, desc):
        return [(e, s) for _, e, s, _, _ in self.call("clone", {1: ("ref", MODEL[a])}, w, desc, "model:clone", MODEL[b]) or ()]

    def names(self, w, which, desc):
        """what the model shows its user"""
        r = self.call("deref", {1: ("ref", MODEL[which])}, w, desc, "model:content")
        for val, e, s, m, _ in r or ():
            c = m.content(e, s, val[()])
            if c is not None and all(is_tok(x, "key") for x in c):
                return [x[4] for x in c]
            break
        self.rep.undecided("model:content", desc, self.fn["deref"].loc)
        return None

    def update(self, w, which, want, kept, desc):
        """update the list to this model and compare; the worlds after it"""
        rep, fn = self.rep, self.fn["list update"]
        before = dict(w[1].shown)
        w = (w[0], w[1].set(rendered=()))
        r = self.call("list update", {1: SELF, 2: ("ref", MODEL[which])}, w, desc, "update")
        if r is None:
            return []
        rep.check(bool(r), "update:ends", "%s: update %s" % (desc, "ends" if r else "panics"), fn.loc)
        out = []
        for val, e, s, m, _ in r:
            got = [n for n, _ in s.shown]
            bad = None
            if got != want:
                bad = "the list then shows [%s] instead of [%s]" % (" ".join(got), " ".join(want))
            for n, f in s.shown:
                if n in kept and n in before and before[n] != f:
                    bad = bad or "the item of %s is made anew although its key stays" % n
                if n not in before and not f.startswith(n + "#"):
                    bad = bad or "the item of %s shows something else" % n
            rep.check(not bad, "update:order", "%s: %s" % (desc, bad or "the list shows the model"), fn.loc)
            if bad is None:
                # names of futures are those of the calls of one update: make them unambiguous from here on
                s = s.set(shown=tuple((n, n + "#old") for n, _ in s.shown))
                out.append((e, s))
        return out

    def apply(self, w, which, op, names, desc):
        """one call on a model: (worlds, names after) or None"""
        rep = self.rep
        name, args, after = op[0], op[1], op[2]
        vals = {1: ("ref", MODEL[which])}
        for i, a in enumerate(args):
            vals[i + 2] = ("i", a) if isinstance(a, int) else key(a)
        r = self.call(name, vals, w, desc, "model:" + name)
        if r is None:
            return None
        if not r:
            rep.check(False, "model:" + name, "%s panics" % desc, self.fn[name].loc)
            return None
        out = []
        for val, e, s, m, eng in r:
            bad = None
            if name == "modify_vec":
                v = m.deep(e, val[()])
                if not is_tok(v, "coll"):
                    rep.undecided("model:modify_vec", desc, self.fn[name].loc)
                    return None
                e = e.copy()
                s, n = m.make(e, s, "vec", [{(): key(k)} for k in after])
                s = s.put(v[4], s.coll(n[4]))
            if name == "remove" and val[()] != key(names[args[0]]):
                bad = "it answers %s" % (val[()],)
            if name == "pop":
                want = some({(): key(names[-1])}) if names else dict(NONE)
                if val != want:
                    bad = "it answers something else than the last item"
            now = self.names((e, s), which, desc)
            if now is None:
                return None
            if now != after:
                bad = "the model then is [%s] instead of [%s]" % (" ".join(now), " ".join(after))
            rep.check(not bad, "model:" + name, "%s: %s" % (desc, bad or "as Vec does it"), self.fn[name].loc)
            if bad is None:
                out.append((e, s))
        return out

    def ops(self, names, new, gone, how):
        full, few = how == "full", how == "few"
        n = len(names)
        last = n - 1

        def moved(a, b):
            x = list(names)
            x.insert(b, x.pop(a))
            return x

        def swapped(a, b):
            x = list(names)
            x[a], x[b] = x[b], x[a]
            return x
        yield "push", [new], names + [new]
        if not few:
            yield "pop", [], names[:-1]
        for i in range(n + 1) if full else sorted({n // 2} if few else {0, n // 2}):
            yield "insert", [i, new], names[:i] + [new] + names[i:]
        for i in range(n) if full else sorted({0} if few and n else {0, last} if n else ()):
            yield "remove", [i], names[:i] + names[i + 1:]
        two = [(a, b) for a in range(n) for b in range(n)]
        if not full:
            two = [x for x in two if x in (((0, last),) if few else ((0, last), (last, 0), (0, 1)))]
        for a, b in two:
            yield "swap", [a, b], swapped(a, b)
            yield "move_item", [a, b], moved(a, b)
        if gone and not few:
            yield "insert", [0, gone], [gone] + names
            yield "push", [gone], names + [gone]
        yield "modify_vec", [], [new] + names[1:][::-1]
        if full:
            yield "modify_vec", [], list(names)
            yield "modify_vec", [], names[::-1]
            yield "modify_vec", [], []

    def walk(self, w, names, shown, kept, depth, how, story):
        """every history of so many calls, with an update after it and optionally in between"""
        new = "n%d" % depth
        gone = next((k for k in shown if k not in names), None)
        for op in self.ops(names, new, gone, how):
            desc = "%s, %s(%s)" % (story, op[0], ", ".join(map(str, op[1])))
            for w2 in self.apply(w, "A", op, names, desc) or ():
                after = op[2]
                k2 = [k for k in kept if k in after]
                up = self.update(w2, "A", after, k2, desc + ", update")
                if depth > 1:
                    self.walk(w2, after, shown, k2, depth - 1, how, desc)
                    for w3 in up[:1]:
                        self.walk(w3, after, after, after, depth - 1, how, desc + ", update")

    def others(self, w, names, story):
        """histories with a second model: another one, or a copy of the first, changed in the same way"""
        A, B = "A", "B"
        add = lambda k, l: ("push", [k], l + [k])
        for made in ("clone", "new"):
            for first, late in itertools.product((False, True), repeat=2):
                l, ws, d = list(names), [w], story
                if first:
                    op = add("p", l)
                    d += ", push(p)"
                    ws, l = self.apply(w, A, op, l, d) or [], op[2]
                bl = list(l) if made == "clone" else list(reversed(l)) + ["o"]
                d += ", another model is a clone of it" if made == "clone" else ", another model is [%s]" % " ".join(bl)
                for w1 in ws[:1]:
                    for w2 in (self.clone(w1, A, B, d) if made == "clone" else self.model(w1, bl, B))[:1]:
                        got = self.names(w2, B, d)
                        if got is None:
                            continue
                        self.rep.check(got == bl, "model:copy", "%s: it is [%s]" % (d, " ".join(got)), self.fn["clone"].loc)
                        oa, ob = add("q", l), add("r", bl)
                        d2 = d + ", one is changed by push(q), the other by push(r)"
                        for w3 in (self.apply(w2, A, oa, l, d2) or [])[:1]:
                            w4s = [w3]
                            if late:
                                d2 += ", update to the first in between"
                                w4s = self.update(w3, A, oa[2], l, d2)
                            for w4 in w4s[:1]:
                                for w5 in (self.apply(w4, B, ob, bl, d2) or [])[:1]:
                                    for w6 in self.update(w5, B, ob[2], [k for k in ob[2] if k in dict(w5[1].shown)], d2 + ", update to the second")[:1]:
                                        w7s, l7, d7 = [w6], ob[2], d2 + ", update to the second"
                                        for x in "tuvw":
                                            o7 = add(x, l7)
                                            d7 += ", push(%s) to it, update" % x
                                            w7s = [y for z in w7s[:1] for y in self.apply(z, B, o7, l7, d7) or ()]
                                            w7s = [y for z in w7s[:1] for y in self.update(z, B, o7[2], l7, d7)]
                                            l7 = o7[2]
                                        for w7 in self.update(w6, A, oa[2], [k for k in oa[2] if k in ob[2]], d2 + ", update to both in turn")[:1]:
                                            o2 = add("s", oa[2])
                                            for w8 in (self.apply(w7, A, o2, oa[2], d2) or [])[:1]:
                                                self.update(w8, A, o2[2], oa[2], d2 + ", update to both in turn, push(s)")


def l03(F, rep):
    """Whatever is done to a model, after update the list shows the model's items in order."""
    deep = os.environ.get("VERIF_TIER") == "thorough"
    W = World(F, rep)
    if not W.ok:
        return
    names = ["a", "b", "c", "d", "e", "f"]
    for n in range(7):
        l = names[:n]
        d = "a list of [%s]" % " ".join(l)
        for w in W.start(l)[:1]:
            for u in W.update(w, "A", l, [], d)[:1]:
                W.others(u, l, d)
                if n <= 4:
                    W.walk(u, l, l, l, 1, "full", d)
                    W.walk(u, l, l, l, 2, "some", d)
                if n >= 4:
                    W.walk(u, l, l, l, 4 if deep else 3, "few", d)
    rep.floor("abstract calls", rep.counts.get("abstract calls", 0), 5000)


# ------------------------------------------------------------------ the dropdown
class MenuState(State):
    """texts: what each option shows; sel: the option the browser shows selected (None: none, "?": the browser's choice)"""
    F = ("texts", "sel") + State.F


class Menu(Keys, Dom):
    private = (OBJ,)

    def __init__(self, sh, st, rev=False):
        Keys.__init__(self, sh, st, rev)

    def element(self, fn, st):
        """a new element: (its tree, state)"""
        what, shape = self.sh.makers[fn]
        n = what if what == "select" else "option%d" % len(st.made)
        d = dict(st.page.seqs)
        if what == "select":
            d[n] = ()
        return {p: node(n) for p in shape}, st.set(made=st.made + (n,), page=Page(d))

    def invoke(self, eng, env, st, ftree, args, ev):
        f, _ = eng.find_closure(env, ftree)
        if isinstance(f, tuple) and f[1][1] in self.sh.makers:
            t, st = self.element(f[1][1], st)
            return [(t, env, st)]
        return Keys.invoke(self, eng, env, st, ftree, args, ev)

    def results(self, eng, ev, env, st):
        k = ev.key.split("::")[-1]
        owner = ev.key.split("::")[0]
        if ev.id in self.sh.makers:
            return [self.element(ev.id, st) + (False,)]
        if owner.startswith("Html") or k in ("set_text_content", "set_value", "set_selected", "selected_index", "value", "set_selected_index",
                                             "set_inner_text", "text_content") and ev.args and self.node_at(env, ev.args[0]):
            r = self.menu_op(eng, ev, env, st, k)
            if r is not None:
                return r
        if ev.key == "ToString::to_string" or ev.key in ("Into::into", "AsRef::as_ref", "Deref::deref") and ev.args and self.text_at(env, ev.args[0]) is not None:
            return [({(): ("s", self.text_at(env, ev.args[0]))}, st, False)]
        old = st.page
        r = self.dom(eng, ev, env, st)
        if r is not None:
            # the browser is free to select something else when options come, go or move
            return [(a[0], a[1].set(sel="?") if a[1].page != old and a[1].page.of("select") != old.of("select") else a[1]) + a[2:] for a in r]
        if ev.key in ("PartialEq::eq", "PartialEq::ne"):
            a, b = self.text_at(env, ev.args[0]), self.text_at(env, ev.args[1])
            if a is not None and b is not None:
                return [(BOOL[(a == b) == (k == "eq")], st, False)]
        return Keys.results(self, eng, ev, env, st)

    def text_at(self, env, v):
        """the text a &str is, behind any number of references"""
        for _ in range(4):
            if v[0] == "s":
                return v[1]
            if v[0] == "ref":
                r, pr = v[1]
                v = r[1] if r[0] == "D" and not pr and r[1][0] == "s" else env.read(v[1])
            elif v[0] in ("deref", "clone"):
                v = v[1]
            else:
                return None
        return None

    def menu_op(self, eng, ev, env, st, k):
        n = self.node_at(env, ev.args[0])
        if n is None:
            raise Incomplete("which element %s is called on at %s" % (ev.key, ev.loc))
        seq = st.page.of("select") or ()
        if k in ("set_text_content", "set_inner_text", "set_text", "set_label"):
            t = ev.trees[1]
            v = t.get((("v", "Some"), ("f", "0")), TOP) if t[()][0] == "agg" else t[()]
            v = self.text_at(env, v)
            if v is None:
                raise Incomplete("which text is set at %s" % ev.loc)
            d = dict(st.texts)
            d[n] = v
            return [(dict(UNIT), st.set(texts=tuple(sorted(d.items()))), False)]
        if k == "set_selected" and n != "select":
            v = eng.known(env, ev.args[1])
            if v is None:
                raise Incomplete("whether an option is selected at %s" % ev.loc)
            if n not in seq:
                return [(dict(UNIT), st, False)]
            return [(dict(UNIT), st.set(sel=n if v else (None if st.sel == n else st.sel)), False)]
        if k == "set_value" and n == "select":
            if self.text_at(env, ev.args[1]) != "":
                raise Incomplete("which value is set at %s" % ev.loc)
            return [(dict(UNIT), st.set(sel=None), False)]
        if k == "set_selected_index" and n == "select":
            v = eng.known(env, ev.args[1])
            if v is None:
                raise Incomplete("which index is selected at %s" % ev.loc)
            return [(dict(UNIT), st.set(sel=seq[v] if 0 <= v < len(seq) else None), False)]
        if k == "selected_index":
            if st.sel == "?":
                raise Incomplete("what the browser has selected at %s" % ev.loc)
            return [({(): ("i", seq.index(st.sel) if st.sel in seq else -1)}, st, False)]
        return None


class Dropdown(Part):
    rev = False

    def __init__(self, F, rep):
        Part.__init__(self, F, rep)
        self.list = None
        self.fn = {}
        for m in ("new", "update_options", "set_value", "value", "contains_key"):
            g = F.inherent("dropdown::Dropdown", m)
            if not rep.anchor(len(g) == 1, "Dropdown::" + m, "the method " + m):
                return
            self.fn[m] = g[0]
        self.makers = {}
        for t, n in (("Select", "select"), ("Option", "option")):
            fs = [(a, f) for a in F.adts if a.split("::")[-1] == t and a.startswith("async_ui_web_html::") for f, ty in fields(F, a) or []
                  if isname(ty, "Html%sElement" % t)]
            g = F.inherent(fs[0][0].split("::", 1)[1], "new") if len(fs) == 1 else []
            if not rep.anchor(len(g) == 1, t, "the element %s" % t):
                return
            self.makers[g[0].id] = (n, {(("f", fs[0][1]),): None})
        self.ok = True

    def call(self, name, vals, w, desc, obl, store=None):
        env, st = w
        env = env.copy()
        for r in [r for r in env.m if r[0] == "L"]:
            del env.m[r]
        for i, v in list(vals.items()):
            if isinstance(v, dict):
                env.write_tree((("L", 0, i), ()), v)
                del vals[i]
        m = self.run(self.fn[name], vals, env, st, obl, desc, self.rev, Menu)
        if m is None:
            return None
        out = []
        for val, e, s, eng, where in m.rets:
            e = e.copy()
            if store is not None:
                e.write_tree(store, val)
            for x in [x for x in e.m if x[0] == "L"]:
                del e.m[x]
            s = seqs.prune(e, s, val.values())
            eng.gc(e)
            out.append((val, e, s, m, eng))
        return out

    def start(self):
        w = (Env(), MenuState(page=Page({}), sel=None))
        return [(e, s) for _, e, s, _, _ in self.call("new", {}, w, "a new dropdown", "new", (OBJ, ())) or ()]

    def keep(self, w, name, vals, desc, obl):
        """worlds after a call that must end"""
        r = self.call(name, vals, w, desc, obl)
        if r is None:
            return []
        self.rep.check(bool(r), obl, "%s %s" % (desc, "ends" if r else "panics"), self.fn[name].loc)
        return r

    def value(self, w, desc, obl, want):
        """what the dropdown says is selected"""
        for val, e, s, m, eng in self.keep(w, "value", {1: SELF}, desc, obl):
            v = val[()]
            got = None if v[0] == "agg" and v[4] == "None" else m.key_at(e, val.get((("v", "Some"), ("f", "0")), TOP)) if v[0] == "agg" else "?"
            if got == "?" or v[0] == "agg" and v[4] == "Some" and got is None:
                self.rep.undecided(obl, desc, self.fn["value"].loc)
                continue
            self.rep.check(got == want, obl, "%s: value() is %s" % (desc, got if got == want else "%s instead of %s" % (got, want)), self.fn["value"].loc)

    def options(self, w, new, told, selected, desc, tag):
        """update_options; selected: the option selected before (or remembered); worlds afterwards"""
        env, st = w[0].copy(), w[1]
        st, v = Menu(self, st).make(env, st, "vec", [seqs.tup({(): key(k)}, {(): ("s", "%s %s" % (tag, k))}) for k in new])
        out = []
        for val, e, s, m, eng in self.keep((env, st), "update_options", {1: SELF, 2: v}, desc, "options:ends"):
            seq = s.page.of("select") or ()
            texts = [dict(s.texts).get(n, "") for n in seq]
            want = ["%s %s" % (tag, k) for k in new]
            self.rep.check(texts == want, "options:order", "%s: the menu shows %s" % (
                desc, "the options in order" if texts == want else "[%s] instead of [%s]" % (", ".join(texts), ", ".join(want))), self.fn["update_options"].loc)
            if texts != want:
                continue
            if told is not None:
                same = all(told[k] == n for k, n in zip(new, seq) if k in told)
                self.rep.check(same, "options:kept", "%s: options that stay keep their elements" % desc, self.fn["update_options"].loc)
            sel = dict(zip(new, seq)).get(selected)
            bad = None
            if s.sel == "?":
                bad = "which option is selected is left to the browser"
            elif s.sel != sel:
                bad = "the selection is not %s" % (selected if sel else "taken away")
            self.rep.check(not bad, "options:selection", "%s, %s selected before: %s" % (desc, selected or "nothing", bad or "it still is if it can be"),
                           self.fn["update_options"].loc)
            if not bad:
                out.append(((e, s), dict(zip(new, seq))))
        return out


def l04(F, rep):
    """After update_options the menu has exactly the options given, in order and with their texts; what was selected still is."""
    D = Dropdown(F, rep)
    if not D.ok:
        return
    loc = D.fn["set_value"].loc
    by = {}
    for prev, new in pairs(("x", "y")):
        if len(new) <= 3 and len(prev) <= 3:
            by.setdefault(tuple(prev), []).append(new)
    for prev, news in by.items():
        for w in D.start()[:1]:
            for w1, told in D.options(w, prev, None, None, "options [%s]" % " ".join(prev), "first")[:1]:
                D.value(w1, "options [%s], nothing selected" % " ".join(prev), "value:none", None)
                picks = [None] + ["user " + k for k in prev] + ["set " + k for k in prev] + ["set %s user %s" % (k, j) for k in prev for j in prev if j != k]
                for pick in picks:
                    d = "options [%s]" % " ".join(prev)
                    w2, k = w1, None
                    for how, k in zip(pick.split()[::2], pick.split()[1::2]) if pick else ():
                        d += ", %s selected by %s" % (k, "the user" if how == "user" else "set_value")
                        if how == "user":
                            w2 = (w2[0], w2[1].set(sel=told[k]))
                        else:
                            r = D.keep(w2, "set_value", {1: SELF, 2: some({(): key(k)})}, d, "set_value")
                            w2 = None
                            for _, e, s, _, _ in r[:1]:
                                ok = s.sel == told[k]
                                rep.check(ok, "set_value", "%s: %s" % (d, "the menu shows it selected" if ok else "the menu does not show it selected"), loc)
                                w2 = (e, s) if ok else None
                            if w2 is None:
                                break
                        D.value(w2, d, "value:selected", k)
                    if w2 is None:
                        continue
                    for what, arg in (("None", dict(NONE)), ("an option that is not there", some({(): key("missing")}))):
                        for _, e, s, _, _ in D.keep(w2, "set_value", {1: SELF, 2: dict(arg)}, d + ", set_value of " + what, "set_value:none")[:1]:
                            rep.check(s.sel is None, "set_value:none", "%s, set_value of %s: %s" % (
                                d, what, "nothing is selected" if s.sel is None else "something stays selected"), loc)
                            if s.sel is None:
                                D.value((e, s), d + ", set_value of " + what, "value:deselected", None)
                    few = [] if pick and len(pick.split()) > 2 else news if pick is None or pick == "user " + prev[0] else [n for n in news if k in n or len(n) < 2]
                    for new in few:
                        d2 = d + ", options [%s]" % " ".join(new)
                        for w3, told3 in D.options(w2, new, told, k, d2, "then")[:1]:
                            if k is None or k in new:
                                D.value(w3, d2, "value:after", k)
                            if pick is None:
                                for late in (list(prev) + ["z"], list(new)[::-1]):
                                    d3 = d2 + ", options [%s]" % " ".join(late)
                                    for w4, _ in D.options(w3, late, told3, None, d3, "last")[:1]:
                                        D.value(w4, d3, "value:after", None)
    rep.floor("abstract calls", rep.counts.get("abstract calls", 0), 300)
