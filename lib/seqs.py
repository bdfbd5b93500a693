"""Small collections of named things, followed exactly: Vec, VecDeque, slices, HashMap, HashSet and the iterators over them.  A rule
that hands such collections to an abstract call (Monitor mixin `Seqs`) owns their content; the closures passed to iterator adaptors are
interpreted like any other code.  What is not covered raises Incomplete, so the obligation is left undecided.

A collection is the value ("agg","adt","coll",0,id); what it holds is in the rule's state: colls[id] = (kind, places), each element living at
a place of its own.  Hash maps and sets hold (place of the key, place of the value); the order in which they yield their entries is
the rule's choice (`rev`), so rules try more than one."""
from absint import Engine, Incomplete, Monitor, TOP, terms
from models import NONE, some, wrap, pre

UNIT = {(): ("unit",)}
BOOL = {True: {(): ("i", 1)}, False: {(): ("i", 0)}}
STD = ("alloc", "std", "core", "hashbrown", "indexmap")
ADT = {"Vec": "vec", "VecDeque": "vec", "HashSet": "set", "BTreeSet": None, "HashMap": "map", "BTreeMap": None}
LESS = {-1: "Less", 0: "Equal", 1: "Greater"}


def tok(kind, name):
    return ("agg", "adt", kind, 0, name)


def is_tok(v, kind):
    return isinstance(v, tuple) and len(v) == 5 and v[:3] == ("agg", "adt", kind)


def key(k):
    return tok("key", k)


def tup(*trees):
    out = {(): ("agg", "tuple", "", 0, "")}
    for i, t in enumerate(trees):
        for p, w in t.items():
            out[(("f", str(i)),) + p] = w
    return out


class State:
    """immutable record; F: its fields"""
    F = ("colls", "fresh")
    ZERO = {"fresh": 0}

    def __init__(self, **k):
        for f in self.F:
            object.__setattr__(self, f, k.get(f, self.ZERO.get(f, ())))
        object.__setattr__(self, "h", hash(tuple(getattr(self, f) for f in self.F)))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, State) and self.h == o.h and all(getattr(self, f) == getattr(o, f) for f in self.F)

    def set(self, **k):
        d = {f: getattr(self, f) for f in self.F}
        d.update(k)
        return type(self)(**d)

    # collections
    def coll(self, i):
        return dict(self.colls)[i]

    def put(self, i, c):
        d = dict(self.colls)
        d[i] = c
        return self.set(colls=tuple(sorted(d.items(), key=lambda x: x[0])))

    def new(self, c):
        """(state with a new collection, its value)"""
        i = self.fresh
        return self.set(fresh=i + 1).put(i, c), tok("coll", i)

    def iter(self, spec):
        i = self.fresh
        return self.set(fresh=i + 1).put(i, ("iter", spec)), tok("iter", i)

    def place(self):
        return self.set(fresh=self.fresh + 1), (("D", ("el", self.fresh)), ())


def become(e, e2):
    e.m = {k: dict(v) for k, v in e2.m.items()}
    e.facts = dict(e2.facts)
    e.epoch = e2.epoch
    e.tls = e2.tls


def prune(env, st, extra=()):
    """forget the places of elements and the collections which nothing refers to any more (env is changed, the new state is returned)"""
    colls = dict(st.colls)
    el = lambda r: r[0] == "D" and r[1][0] == "el"
    live, todo = set(), []

    def see(t):
        for x in terms(t):
            if x in live:
                continue
            if el(x) if len(x) == 2 and isinstance(x[1], tuple) and x[1] else False:
                live.add(x)
                todo.append(x)
            elif is_tok(x, "coll") or is_tok(x, "iter"):
                live.add(x)
                if x[4] in colls:
                    todo.append(("coll", colls[x[4]]))
    for r, d in env.m.items():
        if not el(r):
            for v in d.values():
                see(v)
    for f in st.F:
        if f not in ("colls", "fresh"):
            see(getattr(st, f))
    for v in extra:
        see(v)
    while todo:
        x = todo.pop()
        if x[0] == "coll":
            see(x[1])
        else:
            for v in env.m.get(x, {}).values():
                see(v)
    for r in [r for r in env.m if el(r) and r not in live]:
        del env.m[r]
    keep = {x[4] for x in live if len(x) == 5}
    if len(keep) < len(colls):
        st = st.set(colls=tuple((i, c) for i, c in st.colls if i in keep))
    return st


class Seqs(Monitor):
    precise = True
    rev = False          # hash maps and sets yield their entries backwards

    def sub(self, st):
        """a monitor for a nested run, starting in state st"""
        raise NotImplementedError

    def gone(self, env, st, place):
        """the element at this place is dropped by the collection"""
        return st

    # ------------------------------------------------------------ helpers
    def deep(self, env, v, n=6):
        """the value at the end of a chain of references"""
        while n and isinstance(v, tuple):
            if v[0] == "ref":
                v = env.read(v[1])
            elif v[0] in ("clone", "deref", "copied"):
                v = v[1]
            elif v[0] == "guard":
                v = env.read(v[2])
            else:
                return v
            n -= 1
        return v

    def key_at(self, env, v):
        v = self.deep(env, v)
        return v[4] if is_tok(v, "key") else None

    def need_key(self, env, v, ev):
        k = self.key_at(env, v)
        if k is None:
            raise Incomplete("which key is meant in %s at %s" % (ev.key, ev.loc))
        return k

    def make(self, env, st, kind, trees):
        """a new collection with these element trees (maps: pairs of trees)"""
        ps = []
        for t in trees:
            if kind == "map":
                st, a = st.place()
                st, b = st.place()
                env.write_tree(a, t[0])
                env.write_tree(b, t[1])
                ps.append((a, b))
            else:
                st, a = st.place()
                env.write_tree(a, t)
                ps.append(a)
        return st.new((kind, tuple(ps)))

    def content(self, env, st, v):
        """the elements' deep values of the collection v is or refers to"""
        v = self.deep(env, v)
        if not is_tok(v, "coll"):
            return None
        k, ps = st.coll(v[4])
        return [self.deep(env, env.read(p[0] if k == "map" else p)) for p in ps]

    def result_type(self, eng, ev):
        t = ev.ctx.fn.blocks[ev.block]["t"]
        return eng.optype(ev.ctx, t[3]) if not t[3][1] else None

    def out(self, tree, st, env):
        return (tree, st, False, lambda e, x=env: become(e, x))

    def invoke(self, eng, env, st, ftree, args, ev):
        """run a callable on argument trees: [(result tree, env, st)]"""
        f, tree = eng.find_closure(env, ftree)
        if isinstance(f, tuple):
            name = f[1][2]
            g = self.sh.F.fns.get(f[1][1])
            if g is None:
                last = name.split("::")[-1]
                if last == "Some" or name.endswith("Option::Some"):
                    return [(some(args[0]), env, st)]
                if last in ("clone", "to_owned", "cloned") and args and args[0][()][0] == "ref":
                    v = self.deep(env, args[0][()])
                    if is_tok(v, "key"):
                        w = env.read(args[0][()][1])
                        return [({(): w}, env, st)]
                raise Incomplete("%s passed to %s at %s" % (name, ev.key, ev.loc))
            selft = None
        elif f is None:
            raise Incomplete("an unknown callable in %s at %s" % (ev.key, ev.loc))
        else:
            g = f
            v = ftree[()]
            if g.ty(1).k == "ref":
                while v[0] == "ref" and env.read(v[1])[0] == "ref":
                    v = env.read(v[1])
                if v[0] != "ref":
                    st, loc = st.place()
                    env.write_tree(loc, tree)
                    v = ("ref", loc)
                selft = {(): v}
            else:
                selft = tree
        base = eng.base + 1000

        def purge(en):
            for r in [r for r in en.m if r[0] == "L" and isinstance(r[1], int) and r[1] >= base]:
                del en.m[r]
        en = env.copy()
        purge(en)
        m = self.sub(st)
        e = Engine(self.sh.F, m, merge=False)
        e.seconds = 20
        e.base = base
        vals = ([selft] if selft is not None else []) + list(args)
        e.run(g, {i + 1: t for i, t in enumerate(vals)}, en)
        self.sh.rep.engine(e)
        out = []
        for val, env2, s2, e2, _ in m.rets:
            env2 = env2.copy()
            purge(env2)
            out.append((val, env2, s2))
        return out

    def truth(self, eng, env, tree, ev):
        v = eng.known(env, tree[()])
        if v is None:
            raise Incomplete("what a closure answers in %s at %s" % (ev.key, ev.loc))
        return bool(v)

    # ------------------------------------------------------------ iterators
    def spec_of(self, env, st, tree, ev, ref=False):
        """the iterator specification behind a value passed by value (or through &mut)"""
        v = tree[()]
        if is_tok(v, "iter"):
            return st.coll(v[4])[1]
        if v[0] == "ref":
            w = env.read(v[1])
            n = 4
            while w[0] == "ref" and n:
                v, w, n = w, env.read(w[1]), n - 1
            if is_tok(w, "iter"):
                return ("via", w[4])
            if is_tok(w, "coll") or is_tok(w, "view"):
                return self.over(env, st, w, "ref")
        if is_tok(v, "coll"):
            return self.over(env, st, v, "own")
        if v[0] == "agg" and v[2].endswith("Option"):
            if v[4] == "None":
                return ("locs", ())
            if v[4] == "Some":
                return ("trees", (tuple(sorted(((p[2:], w) for p, w in tree.items() if p[:2] == (("v", "Some"), ("f", "0"))), key=repr)),))
        if v[0] == "agg" and v[2].split("::")[-1] in ("Range", "RangeInclusive"):
            a, b = (tree.get((("f", f),), TOP) for f in ("start", "end"))
            if a[0] == b[0] == "i":
                n = b[1] + (v[2].split("::")[-1] == "RangeInclusive")
                return ("trees", tuple((((), ("i", x)),) for x in range(a[1], n)))
        if v[0] == "agg" and v[1] == "array":
            ns = sorted({p[0][1][1] for p in tree if p and p[0][0] == "ix"})
            return ("trees", tuple(tuple(sorted(((p[1:], w) for p, w in tree.items() if p and p[0] == ("ix", ("i", i))), key=repr)) for i in ns))
        return None

    def over(self, env, st, v, mode):
        k, ps = self.seq_of(st, v)
        if k in ("set", "map") and self.rev:
            ps = tuple(reversed(ps))
        if k == "map":
            return ("pairs", ps, mode)
        return ("locs", ps) if mode == "ref" else ("own", ps)

    def seq_of(self, st, v):
        if is_tok(v, "view"):
            i, lo, hi = v[4]
            k, ps = st.coll(i)
            return k, ps[lo:hi]
        return st.coll(v[4])

    def reverse(self, spec, ev):
        if spec[0] in ("locs", "own", "trees"):
            return (spec[0], tuple(reversed(spec[1])))
        if spec[0] == "pairs":
            return (spec[0], tuple(reversed(spec[1])), spec[2])
        if spec[0] in ("map", "filter", "cloned", "filter_map", "inspect"):
            return (spec[0], self.reverse(spec[1], ev)) + spec[2:]
        if spec[0] == "chain":
            return ("chain", self.reverse(spec[2], ev), self.reverse(spec[1], ev))
        if spec[0] == "enum" and spec[1][0] in ("locs", "own", "trees", "pairs"):
            return ("enum_at", self.reverse(spec[1], ev), spec[2] + len(spec[1][1]) - 1)
        raise Incomplete("a reversed iterator at %s" % ev.loc)

    def advance(self, eng, env, st, spec, ev):
        """[(specification after, item tree or None, env, st)]"""
        k = spec[0]
        if k in ("locs", "own", "trees"):
            if not spec[1]:
                return [(spec, None, env, st)]
            x, rest = spec[1][0], (k, spec[1][1:])
            t = {(): ("ref", x)} if k == "locs" else dict(x) if k == "trees" else env.tree(x)
            return [(rest, t, env, st)]
        if k == "pairs":
            if not spec[1]:
                return [(spec, None, env, st)]
            (a, b), rest = spec[1][0], (k, spec[1][1:], spec[2])
            t = {"ref": lambda: tup({(): ("ref", a)}, {(): ("ref", b)}), "own": lambda: tup(env.tree(a), env.tree(b)),
                 "keys": lambda: {(): ("ref", a)}, "vals": lambda: {(): ("ref", b)}, "ownkeys": lambda: env.tree(a),
                 "ownvals": lambda: env.tree(b)}[spec[2]]()
            return [(rest, t, env, st)]
        if k == "via":
            out = []
            for s2, t, e, s in self.advance(eng, env, st, st.coll(spec[1])[1], ev):
                out.append((spec, t, e, s.put(spec[1], ("iter", s2))))
            return out
        if k == "peek":
            if spec[2] is not None:
                p = spec[2]
                return [(("peek", spec[1], None), None if p == "none" else env.tree(p), env, st)]
            return [(("peek", s2, None), t, e, s) for s2, t, e, s in self.advance(eng, env, st, spec[1], ev)]
        if k == "chain":
            out = []
            for s2, t, e, s in self.advance(eng, env, st, spec[1], ev):
                if t is not None:
                    out.append((("chain", s2, spec[2]), t, e, s))
                else:
                    out += [(("chain", s2, s3), t3, e3, st3) for s3, t3, e3, st3 in self.advance(eng, e, s, spec[2], ev)]
            return out
        if k in ("take", "skip"):
            if k == "take" and spec[2] <= 0:
                return [(spec, None, env, st)]
            if k == "take":
                return [(("take", s2, spec[2] - 1), t, e, s) for s2, t, e, s in self.advance(eng, env, st, spec[1], ev)]
            if spec[2] <= 0:
                return [(("skip", s2, 0), t, e, s) for s2, t, e, s in self.advance(eng, env, st, spec[1], ev)]
            out = []
            for s2, t, e, s in self.advance(eng, env, st, spec[1], ev):
                if t is None:
                    out.append((("skip", s2, 0), None, e, s))
                else:
                    out += self.advance(eng, e, s, ("skip", s2, spec[2] - 1), ev)
            return out
        out = []
        if k == "zip":
            for s2, t, e, s in self.advance(eng, env, st, spec[1], ev):
                if t is None:
                    out.append((("zip", s2, spec[2]), None, e, s))
                    continue
                for s3, t3, e3, st3 in self.advance(eng, e, s, spec[2], ev):
                    out.append((("zip", s2, s3), None if t3 is None else tup(t, t3), e3, st3))
            return out
        for s2, t, e, s in self.advance(eng, env, st, spec[1], ev):
            new = (k, s2) + spec[2:]
            if t is None:
                out.append((new, None, e, s))
            elif k in ("enum", "enum_at"):
                out.append(((k, s2, spec[2] + (1 if k == "enum" else -1)), tup({(): ("i", spec[2])}, t), e, s))
            elif k == "cloned":
                v = t[()]
                out.append((new, self.copy_of(eng, e, s, v, ev), e, s))
            elif k == "map":
                for r, e2, s3 in self.invoke(eng, e, s, {(): ("ref", spec[2])}, [t], ev):
                    out.append((new, r, e2, s3))
            elif k in ("filter", "take_while", "skip_while", "inspect"):
                s, loc = s.place()
                e = e.copy()
                e.write_tree(loc, t)
                for r, e2, s3 in self.invoke(eng, e, s, {(): ("ref", spec[2])}, [{(): ("ref", loc)}], ev):
                    if k == "inspect" or self.truth(eng, e2, r, ev) != (k == "skip_while"):
                        if k == "skip_while":
                            new = s2
                        out.append((new, e2.tree(loc), e2, s3))
                    elif k == "take_while":
                        out.append((("locs", ()), None, e2, s3))
                    else:
                        out += self.advance(eng, e2, s3, new, ev)
            elif k == "filter_map":
                for r, e2, s3 in self.invoke(eng, e, s, {(): ("ref", spec[2])}, [t], ev):
                    v = r[()]
                    if v[0] == "agg" and v[4] == "None":
                        out += self.advance(eng, e2, s3, new, ev)
                    elif v[0] == "agg" and v[4] == "Some":
                        out.append((new, {p[2:]: w for p, w in r.items() if p[:2] == (("v", "Some"), ("f", "0"))}, e2, s3))
                    else:
                        raise Incomplete("what a closure answers in %s at %s" % (ev.key, ev.loc))
            else:
                raise Incomplete("iterator %s at %s" % (k, ev.loc))
        return out

    def copy_of(self, eng, env, st, v, ev):
        """the clone of what a reference leads to"""
        if v[0] != "ref":
            raise Incomplete("a clone in %s at %s" % (ev.key, ev.loc))
        w = env.read(v[1])
        if w[0] == "ref" or is_tok(w, "key") or is_tok(w, "node") or w[0] == "i":
            return {(): w}
        t = env.tree(v[1])
        if all(p == () or x[0] in ("i", "unit") or is_tok(x, "key") or is_tok(x, "node") or (x[0] == "agg" and not is_tok(x, "coll"))
               for p, x in t.items()) and w[0] == "agg" and not is_tok(w, "coll"):
            return t
        raise Incomplete("a clone in %s at %s" % (ev.key, ev.loc))

    def all_items(self, eng, env, st, spec, ev):
        """[(item trees, env, st)]"""
        work, out = [([], env, st, spec)], []
        while work:
            ts, e, s, sp = work.pop()
            if len(ts) > 40:
                raise Incomplete("an endless iterator at %s" % ev.loc)
            for s2, t, e2, st2 in self.advance(eng, e, s, sp, ev):
                if t is None:
                    out.append((ts, e2, st2))
                else:
                    work.append((ts + [t], e2, st2, s2))
        return out

    def build(self, eng, env, st, trees, ty, ev):
        """collect into a collection of this type"""
        n = ty.n.split("::")[-1] if ty is not None and ty.k == "adt" and ty.n.split("::")[0] in STD else None
        kind = ADT.get(n)
        if kind is None:
            raise Incomplete("what is collected into %s at %s" % (ty, ev.loc))
        env = env.copy()
        if kind == "map":
            trees = [({p[1:]: w for p, w in t.items() if p[:1] == (("f", "0"),)}, {p[1:]: w for p, w in t.items() if p[:1] == (("f", "1"),)}) for t in trees]
        if kind in ("set", "map"):
            seen, keep = set(), []
            for t in trees:
                k = self.need_key(env, (t[0] if kind == "map" else t)[()], ev)
                if k in seen and kind == "map":
                    raise Incomplete("a key twice in a map at %s" % ev.loc)
                if k not in seen:
                    keep.append(t)
                seen.add(k)
            trees = keep
        st, v = self.make(env, st, kind, trees)
        return {(): v}, st, env

    def scalars(self, eng, ev, env, st):
        """results for arithmetic and ranges over known numbers; None: not such a call"""
        k = ev.key.split("::")[-1]
        owner = ev.key.split("::")[0]
        if not ev.args:
            return None
        if ev.key == "RangeInclusive::new":
            return [({(): ("agg", "adt", "core::ops::range::RangeInclusive", 0, "RangeInclusive"), (("f", "start"),): ev.args[0],
                      (("f", "end"),): ev.args[1]}, st, False)]
        if ev.key in ("Ord::min", "Ord::max", "cmp::min", "cmp::max") and ev.args[0][0] == ev.args[1][0] == "i":
            return [({(): (min if k == "min" else max)(ev.args[0], ev.args[1], key=lambda x: x[1])}, st, False)]
        if ev.key in ("Ord::cmp", "PartialOrd::partial_cmp") and len(ev.args) == 2:
            a, b = self.deep(env, ev.args[0]), self.deep(env, ev.args[1])
            if a[0] == b[0] == "i":
                i = (a[1] > b[1]) - (a[1] < b[1])
                t = {(): ("agg", "adt", "core::cmp::Ordering", i + 1, LESS[i])}
                return [(t if k == "cmp" else some(t), st, False)]
        if k in ("len", "is_empty", "contains"):
            t = ev.trees[0]
            while t.get((), TOP)[0] == "ref":
                t = env.tree(t[()][1])
            v = t.get((), TOP)
            x, y = (t.get((("f", f),), TOP) for f in ("start", "end"))
            if v[0] == "agg" and v[2].split("::")[-1] == "Range" and x[0] == y[0] == "i":
                n = max(y[1] - x[1], 0)
                i = self.deep(env, ev.args[1]) if k == "contains" else ("i", 0)
                if i[0] == "i":
                    return [({(): ("i", n)} if k == "len" else BOOL[n == 0 if k == "is_empty" else x[1] <= i[1] < y[1]], st, False)]
        if ev.key == "Ord::clamp" and all(x[0] == "i" for x in ev.args):
            x, y, z = (v[1] for v in ev.args)
            return [({(): ("i", min(max(x, y), z))}, st, False)] if y <= z else []
        if ev.key == "usize::abs_diff" and ev.args[0][0] == ev.args[1][0] == "i":
            return [({(): ("i", abs(ev.args[0][1] - ev.args[1][1]))}, st, False)]
        if owner in ("usize", "u64", "u32", "num") and len(ev.args) == 2 and ev.args[0][0] == ev.args[1][0] == "i":
            a, b = ev.args[0][1], ev.args[1][1]
            r = {"saturating_sub": max(a - b, 0), "wrapping_add": a + b, "saturating_add": a + b}.get(k)
            if k == "wrapping_sub":
                r = a - b if a >= b else None
            if r is not None:
                return [({(): ("i", r)}, st, False)]
            if k in ("checked_sub", "checked_add"):
                r = a - b if k == "checked_sub" else a + b
                return [(some({(): ("i", r)}) if r >= 0 else dict(NONE), st, False)]
        return None

    def seq(self, eng, ev, env, st):
        """results for a call on a collection or an iterator this rule owns; None: not one"""
        k = ev.key.split("::")[-1]
        owner = ev.key.split("::")[0]
        if not ev.args:
            if k in ("new", "default") and owner in ADT:
                if ADT[owner] is None:
                    raise Incomplete("%s at %s" % (ev.key, ev.loc))
                st, v = st.new((ADT[owner], ()))
                return [({(): v}, st, False)]
            if ev.key == "Default::default":
                ty = self.result_type(eng, ev)
                if ty is not None and ty.k == "adt" and ADT.get(ty.n.split("::")[-1]) and ty.n.split("::")[0] in STD:
                    st, v = st.new((ADT[ty.n.split("::")[-1]], ()))
                    return [({(): v}, st, False)]
            return None
        if k in ("with_capacity", "with_hasher", "with_capacity_and_hasher") and ADT.get(owner):
            st, v = st.new((ADT[owner], ()))
            return [({(): v}, st, False)]
        a0 = ev.args[0]
        if ev.key in ("mem::take", "mem::replace") and a0[0] == "ref":
            w = env.read(a0[1])
            if is_tok(w, "coll"):
                e2 = env.copy()
                if k == "take":
                    st, n = st.new((st.coll(w[4])[0], ()))
                    e2.write(a0[1], n)
                else:
                    e2.write_tree(a0[1], ev.trees[1])
                return [self.out({(): w}, st, e2)]
            return None
        v = a0
        while v[0] in ("ref", "guard") and env.read(v[1] if v[0] == "ref" else v[2])[0] in ("ref", "guard"):
            v = env.read(v[1] if v[0] == "ref" else v[2])
        w = v if v[0] not in ("ref", "guard") else env.read(v[1] if v[0] == "ref" else v[2])
        if is_tok(w, "coll") or is_tok(w, "view"):
            return self.coll_op(eng, ev, env, st, k, v, w)
        if is_tok(w, "iter"):
            return self.iter_op(eng, ev, env, st, k, v, w)
        if is_tok(w, "entry"):
            return self.entry_op(eng, ev, env, st, k, w[4])
        if owner == "Entry" and is_tok(ev.trees[0].get((("v", a0[4]), ("f", "0")), TOP) if a0[0] == "agg" else TOP, "entry"):
            return self.entry_op(eng, ev, env, st, k, ev.trees[0][(("v", a0[4]), ("f", "0"))][4])
        if ev.key == "Option::filter" and a0[0] == "agg" and a0[4] == "Some":
            inner = pre(ev.trees[0], (("v", "Some"), ("f", "0")))
            st, loc = st.place()
            e = env.copy()
            e.write_tree(loc, inner)
            return [self.out(some(e2.tree(loc)) if self.truth(eng, e2, r, ev) else dict(NONE), s2, e2)
                    for r, e2, s2 in self.invoke(eng, e, st, ev.trees[1], [{(): ("ref", loc)}], ev)]
        if owner in ("Iterator", "IntoIterator") and k not in ("next",):
            sp = self.spec_of(env, st, ev.trees[0], ev)
            if sp is not None:
                st, it = st.iter(sp)
                return self.iter_op(eng, ev, env, st, k, it, it)
        return None

    # ------------------------------------------------------------ calls on collections
    def coll_op(self, eng, ev, env, st, k, v, w):
        owner = ev.key.split("::")[0]
        kind, ps = self.seq_of(st, w)
        i = w[4] if is_tok(w, "coll") else w[4][0]
        view = not is_tok(w, "coll")
        lo = w[4][1] if view else 0
        if k in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "as_slice", "as_mut_slice", "borrow_mut", "by_ref") and v[0] == "ref" and \
                owner in ("Deref", "DerefMut", "AsRef", "AsMut", "Vec", "Borrow", "BorrowMut"):
            return [({(): v}, st, False)]
        if k in ("len", "is_empty"):
            return [({(): ("i", len(ps) if k == "len" else int(not ps))}, st, False)]
        if k in ("iter", "iter_mut"):
            st, it = st.iter(self.over(env, st, w, "ref"))
            return [({(): it}, st, False)]
        if k == "into_iter":
            if view and v[0] != "ref":
                return None
            st, it = st.iter(self.over(env, st, w, "ref" if v[0] == "ref" else "own"))
            return [({(): it}, st, False)]
        if k in ("keys", "values", "into_keys", "into_values", "values_mut") and kind == "map":
            m = {"keys": "keys", "values": "vals", "values_mut": "vals", "into_keys": "ownkeys", "into_values": "ownvals"}[k]
            st, it = st.iter(("pairs", tuple(reversed(ps)) if self.rev else ps, m))
            return [({(): it}, st, False)]
        if k in ("clear",):
            for p in ps:
                st = self.gone(env, st, p)
            return [(dict(UNIT), st.put(i, (kind, ())), False)]
        if k == "drain" and (kind != "vec" or len(ev.args) == 2):
            if kind == "vec":
                a, b = self.range(ev.trees[1], len(ps), ev)
                if not 0 <= a <= b <= len(ps):
                    return []
                st, it = st.put(i, (kind, ps[:a] + ps[b:])).iter(("own", ps[a:b]))
                return [({(): it}, st, False)]
            sp = self.over(env, st, w, "own")
            st, it = st.put(i, (kind, ())).iter(sp)
            return [({(): it}, st, False)]
        if k in ("clone", "to_vec", "to_owned") and (kind == "vec" or kind == "set"):
            e2 = env.copy()
            trees = [self.copy_of(eng, env, st, ("ref", p), ev) for p in ps]
            st, n = self.make(e2, st, kind, trees)
            return [self.out({(): n}, st, e2)]
        if k in ("extend", "append", "extend_from_slice"):
            sp = self.spec_of(env, st, ev.trees[1], ev) if k != "append" else None
            if k == "append":
                o = self.deep(env, ev.args[1])
                if not is_tok(o, "coll"):
                    raise Incomplete("%s at %s" % (ev.key, ev.loc))
                st = st.put(i, (kind, ps + st.coll(o[4])[1])).put(o[4], (kind, ()))
                return [(dict(UNIT), st, False)]
            if sp is None:
                raise Incomplete("what is added at %s" % ev.loc)
            out = []
            for ts, e, s in self.all_items(eng, env, st, sp, ev):
                e = e.copy()
                if kind == "map":
                    raise Incomplete("%s at %s" % (ev.key, ev.loc))
                ts = [self.copy_of(eng, e, s, t[()], ev) if t[()][0] == "ref" and (k == "extend_from_slice") else t for t in ts]
                have = {self.key_at(e, e.read(p)) for p in s.coll(i)[1]} if kind == "set" else ()
                ts = [t for t in ts if kind != "set" or self.need_key(e, t[()], ev) not in have]
                s, n = self.make(e, s, kind, ts)
                s = s.put(i, (kind, s.coll(i)[1] + s.coll(n[4])[1]))
                out.append(self.out(dict(UNIT), s, e))
            return out
        if k in ("reserve", "shrink_to_fit", "shrink_to"):
            return [(dict(UNIT), st, False)]
        if kind == "vec":
            r = self.vec_op(eng, ev, env, st, k, v, w, ps, i, lo, view)
        else:
            r = self.hash_op(eng, ev, env, st, k, v, w, kind, ps, i)
        if r is not None:
            return r
        if owner in ("Iterator", "IntoIterator"):
            st, it = st.iter(self.over(env, st, w, "ref" if v[0] == "ref" else "own"))
            return self.iter_op(eng, ev, env, st, k, it, it)
        if k in ("drop",) or ev.key.startswith("mem::") or owner in ("Into", "From", "RefCell", "Cell", "Rc", "Some", "Box"):
            return None
        raise Incomplete("%s at %s" % (ev.key, ev.loc))

    def index(self, v, ev):
        if v[0] != "i":
            raise Incomplete("which index is meant in %s at %s" % (ev.key, ev.loc))
        return v[1]

    def range(self, tree, n, ev):
        v = tree[()]
        r = v[2].split("::")[-1] if v[0] == "agg" else ""
        g = lambda f: self.index(tree.get((("f", f),), TOP), ev)
        if r == "RangeFull" or (v[0] == "cst" and "RangeFull" in str(v)):
            return 0, n
        if r == "Range":
            return g("start"), g("end")
        if r == "RangeInclusive":
            return g("start"), g("end") + 1
        if r == "RangeTo":
            return 0, g("end")
        if r == "RangeToInclusive":
            return 0, g("end") + 1
        if r == "RangeFrom":
            return g("start"), n
        raise Incomplete("which range is meant in %s at %s" % (ev.key, ev.loc))

    def vec_op(self, eng, ev, env, st, k, v, w, ps, i, lo, view):
        n = len(ps)

        def put(new):
            old = st.coll(i)[1]
            return st.put(i, ("vec", old[:lo] + tuple(new) + old[lo + n:]))
        if k in ("first", "first_mut", "last", "last_mut", "front", "back", "front_mut", "back_mut"):
            if not n:
                return [(dict(NONE), st, False)]
            return [(some({(): ("ref", ps[0 if k[0] == "f" else -1])}), st, False)]
        if k in ("get", "get_mut", "index", "index_mut", "get_unchecked"):
            a = ev.args[1]
            if a[0] == "agg" or a[0] == "cst":
                x, y = self.range(ev.trees[1], n, ev)
                if not 0 <= x <= y <= n:
                    return [(dict(NONE), st, False)] if k[0] == "g" else []
                st, loc = st.place()
                vv = tok("view", (i, lo + x, lo + y))
                tree = {(): ("ref", loc)}
                return [(tree if k[0] == "i" else some(tree), st, False, lambda e: e.write(loc, vv))]
            x = self.index(a, ev)
            if not 0 <= x < n:
                return [(dict(NONE), st, False)] if k in ("get", "get_mut") else []
            tree = {(): ("ref", ps[x])}
            return [(tree if k[0] == "i" else some(tree), st, False)]
        if k in ("push", "push_back", "push_front"):
            st, loc = st.place()
            tree = dict(ev.trees[1])
            return [(dict(UNIT), put(ps + (loc,) if k != "push_front" else (loc,) + ps), False, lambda e: e.write_tree(loc, tree))]
        if k == "insert":
            x = self.index(ev.args[1], ev)
            if not 0 <= x <= n:
                return []
            st, loc = st.place()
            tree = dict(ev.trees[2])
            return [(dict(UNIT), put(ps[:x] + (loc,) + ps[x:]), False, lambda e: e.write_tree(loc, tree))]
        if k in ("pop", "pop_back", "pop_front"):
            if not n:
                return [(dict(NONE), st, False)]
            x = 0 if k == "pop_front" else n - 1
            return [(some(env.tree(ps[x])), put(ps[:x] + ps[x + 1:]), False)]
        if k in ("remove", "swap_remove"):
            x = self.index(ev.args[1], ev)
            deque = ev.key.startswith("VecDeque")
            if not 0 <= x < n:
                return [(dict(NONE), st, False)] if deque else []
            t = env.tree(ps[x])
            new = ps[:x] + ps[x + 1:] if k == "remove" else (ps[:x] + ps[-1:] + ps[x + 1:-1] if x < n - 1 else ps[:-1])
            return [(some(t) if deque else t, put(new), False)]
        if k == "swap":
            x, y = self.index(ev.args[1], ev), self.index(ev.args[2], ev)
            if not (0 <= x < n and 0 <= y < n):
                return []
            e2 = env.copy()
            a, b = env.tree(ps[x]), env.tree(ps[y])
            e2.write_tree(ps[x], b)
            e2.write_tree(ps[y], a)
            return [self.out(dict(UNIT), st, e2)]
        if k in ("rotate_left", "rotate_right", "reverse"):
            x = self.index(ev.args[1], ev) if k != "reverse" else 0
            if not 0 <= x <= n:
                return []
            e2 = env.copy()
            ts = [env.tree(p) for p in ps]
            ts = ts[::-1] if k == "reverse" else ts[x:] + ts[:x] if k == "rotate_left" else ts[n - x:] + ts[:n - x]
            for p, t in zip(ps, ts):
                e2.write_tree(p, t)
            return [self.out(dict(UNIT), st, e2)]
        if k == "truncate":
            x = self.index(ev.args[1], ev)
            for p in ps[x:]:
                st = self.gone(env, st, p)
            old = st.coll(i)[1]
            return [(dict(UNIT), st.put(i, ("vec", old[:lo] + ps[:x] + old[lo + n:])), False)]
        if k == "split_off":
            x = self.index(ev.args[1], ev)
            if not 0 <= x <= n:
                return []
            st2, c = put(ps[:x]).new(("vec", ps[x:]))
            return [({(): c}, st2, False)]
        if k == "contains":
            x = self.need_key(env, ev.args[1], ev)
            return [(BOOL[x in [self.need_key(env, env.read(p), ev) for p in ps]], st, False)]
        if k == "retain":
            out, work = [], [((), ps, env, st)]
            while work:
                kept, rest, e, s = work.pop()
                if not rest:
                    out.append(self.out(dict(UNIT), s.put(i, ("vec", s.coll(i)[1][:lo] + kept)), e))
                    continue
                for r, e2, s2 in self.invoke(eng, e, s, ev.trees[1], [{(): ("ref", rest[0])}], ev):
                    work += self.retained(eng, kept, rest, r, e2, s2, ev)
            return out
        if k in ("eq", "ne") and len(ev.args) == 2:
            o = self.content(env, st, ev.args[1])
            a = [self.deep(env, env.read(p)) for p in ps]
            if o is None or not all(is_tok(x, "key") for x in a + o):
                raise Incomplete("a comparison at %s" % ev.loc)
            return [(BOOL[(a == o) == (k == "eq")], st, False)]
        return None

    def retained(self, eng, kept, rest, r, env, st, ev):
        """what follows a retain closure's answer about the first element of rest"""
        out = []
        v = eng.known(env, r[()])
        if v is None and not self.undecided_retain:
            raise Incomplete("what a closure answers in %s at %s" % (ev.key, ev.loc))
        if v is None or v:
            out.append((kept + rest[:1], rest[1:], env, st))
        if not v:
            out.append((kept, rest[1:], env, self.gone(env, st, rest[0])))
        return out

    undecided_retain = False     # a retain closure whose answer is not known may answer either

    def hash_op(self, eng, ev, env, st, k, v, w, kind, ps, i):
        kp = (lambda p: p[0]) if kind == "map" else (lambda p: p)

        def find(a):
            x = self.need_key(env, a, ev)
            for p in ps:
                if self.need_key(env, env.read(kp(p)), ev) == x:
                    return p
            return None
        if k in ("contains", "contains_key"):
            return [(BOOL[find(ev.args[1]) is not None], st, False)]
        if k in ("get", "get_mut", "index", "get_key_value"):
            p = find(ev.args[1])
            if k == "index":
                return [] if p is None else [({(): ("ref", p[1])}, st, False)]
            if p is None:
                return [(dict(NONE), st, False)]
            if k == "get_key_value":
                return [(some(tup({(): ("ref", p[0])}, {(): ("ref", p[1])})), st, False)]
            return [(some({(): ("ref", p[1] if kind == "map" else p)}), st, False)]
        if k == "entry" and kind == "map":
            p = find(ev.args[1])
            tree = dict(ev.trees[1])
            st, a = st.place()
            t = wrap({(): tok("entry", (i, p, a))}, 0 if p else 1, "Occupied" if p else "Vacant", "std::collections::hash_map::Entry")
            return [(t, st, False, lambda e: e.write_tree(a, tree))]
        if k in ("remove", "take", "remove_entry"):
            p = find(ev.args[1])
            s2 = st.put(i, (kind, tuple(x for x in ps if x != p)))
            if kind == "set" and k == "remove":
                return [(BOOL[p is not None], s2, False)]
            if p is None:
                return [(dict(NONE), st, False)]
            if k == "remove_entry":
                return [(some(tup(env.tree(p[0]), env.tree(p[1]))), s2, False)]
            return [(some(env.tree(p[1] if kind == "map" else p)), s2, False)]
        if k in ("insert", "replace"):
            p = find(ev.args[1])
            tree = dict(ev.trees[1])
            if kind == "set":
                if p is not None:
                    return [(BOOL[False], st, False)] if k == "insert" else None
                st, loc = st.place()
                return [(BOOL[True], st.put(i, (kind, ps + (loc,))), False, lambda e: e.write_tree(loc, tree))]
            val = dict(ev.trees[2])
            if p is not None:
                return [(some(env.tree(p[1])), st, False, lambda e: e.write_tree(p[1], val))]
            st, a = st.place()
            st, b = st.place()

            def fn(e):
                e.write_tree(a, tree)
                e.write_tree(b, val)
            return [(dict(NONE), st.put(i, (kind, ps + ((a, b),))), False, fn)]
        if k == "retain":
            out, work = [], [((), tuple(reversed(ps)) if self.rev else ps, env, st)]
            while work:
                kept, rest, e, s = work.pop()
                if not rest:
                    out.append(self.out(dict(UNIT), s.put(i, (kind, kept)), e))
                    continue
                a = [{(): ("ref", rest[0])}] if kind == "set" else [{(): ("ref", x)} for x in rest[0]]
                for r, e2, s2 in self.invoke(eng, e, s, ev.trees[1], a, ev):
                    work += self.retained(eng, kept, rest, r, e2, s2, ev)
            return out
        if k in ("difference", "intersection") and kind == "set":
            o = self.deep(env, ev.args[1])
            if is_tok(o, "coll"):
                ks = {self.need_key(env, env.read(kp(p)), ev) for p in st.coll(o[4])[1]}
                keep = tuple(p for p in ps if (self.need_key(env, env.read(p), ev) in ks) == (k == "intersection"))
                st, it = st.iter(("locs", tuple(reversed(keep)) if self.rev else keep))
                return [({(): it}, st, False)]
        return None

    def entry_op(self, eng, ev, env, st, k, spec):
        """calls on the entry of a map: (map, its pair of places or None, place of the key given)"""
        i, p, a = spec
        kind, ps = st.coll(i)
        if k == "key":
            return [({(): ("ref", p[0] if p else a)}, st, False)]
        if k in ("or_insert", "or_insert_with", "or_default", "insert_entry") or k == "insert" and not p:
            if p:
                return [({(): ("ref", p[1])}, st, False)] if k != "insert_entry" else None
            if k == "or_default":
                return None
            make = self.invoke(eng, env, st, ev.trees[1], [], ev) if k == "or_insert_with" else [(dict(ev.trees[1]), env, st)]
            out = []
            for t, e, s in make:
                s, b = s.place()
                e = e.copy()
                e.write_tree(b, t)
                out.append(self.out({(): ("ref", b)}, s.put(i, (kind, s.coll(i)[1] + ((a, b),))), e))
            return out
        if p and k in ("get", "get_mut", "into_mut"):
            return [({(): ("ref", p[1])}, st, False)]
        if p and k == "insert":
            new = dict(ev.trees[1])
            return [(env.tree(p[1]), st, False, lambda e: e.write_tree(p[1], new))]
        if p and k in ("remove", "remove_entry"):
            t = env.tree(p[1]) if k == "remove" else tup(env.tree(p[0]), env.tree(p[1]))
            return [(t, st.put(i, (kind, tuple(x for x in ps if x != p))), False)]
        if k == "and_modify":
            if not p:
                return [(dict(ev.trees[0]), st, False)]
            return [self.out(dict(ev.trees[0]), s, e) for _, e, s in self.invoke(eng, env, st, ev.trees[1], [{(): ("ref", p[1])}], ev)]
        return None

    # ------------------------------------------------------------ calls on iterators
    def iter_op(self, eng, ev, env, st, k, v, w):
        i = w[4]
        spec = st.coll(i)[1]
        byref = v[0] == "ref"

        def adv(then):
            """[then(tree or None, env, st with the iterator stepped)]"""
            out = []
            for s2, t, e, s in self.advance(eng, env, st, spec, ev):
                out += then(t, e, s.put(i, ("iter", s2)))
            return out
        if k == "next":
            return adv(lambda t, e, s: [self.out(dict(NONE) if t is None else some(t), s, e)])
        if k in ("into_iter", "by_ref", "fuse", "as_ref"):
            return [({(): v}, st, False)]
        if k in ("peek", "peek_mut", "next_if", "next_if_eq"):
            if spec[0] != "peek":
                raise Incomplete("%s at %s" % (ev.key, ev.loc))
            st2s = []
            if spec[2] is None:
                for s2, t, e, s in self.advance(eng, env, st, spec[1], ev):
                    e = e.copy()
                    if t is None:
                        st2s.append(("none", e, s.put(i, ("iter", ("peek", s2, "none"))), s2))
                    else:
                        s, loc = s.place()
                        e.write_tree(loc, t)
                        st2s.append((loc, e, s.put(i, ("iter", ("peek", s2, loc))), s2))
            else:
                st2s.append((spec[2], env, st, spec[1]))
            out = []
            for p, e, s, inner in st2s:
                if p == "none":
                    out.append(self.out(dict(NONE), s, e))
                elif k in ("peek", "peek_mut"):
                    out.append(self.out(some({(): ("ref", p)}), s, e))
                else:
                    taken = s.put(i, ("iter", ("peek", inner, None)))
                    if k == "next_if_eq":
                        yes = self.need_key(e, e.read(p), ev) == self.need_key(e, ev.args[1], ev)
                        out.append(self.out(some(e.tree(p)) if yes else dict(NONE), taken if yes else s, e))
                        continue
                    for r, e2, s2 in self.invoke(eng, e, s, ev.trees[1], [{(): ("ref", p)}], ev):
                        yes = self.truth(eng, e2, r, ev)
                        # the iterator was not touched by the closure: it is borrowed
                        out.append(self.out(some(e2.tree(p)) if yes else dict(NONE),
                                            s2.put(i, ("iter", ("peek", inner, None if yes else p))), e2))
            return out
        if byref and k not in ("nth", "find", "position", "any", "all", "len", "size_hint", "is_empty", "find_map"):
            spec = ("via", i)
        one = {"enumerate": "enum", "cloned": "cloned", "copied": "cloned", "peekable": "peek"}
        if k in one:
            sp = (one[k], spec) + ((0,) if k == "enumerate" else (None,) if k == "peekable" else ())
            st, it = st.iter(sp)
            return [({(): it}, st, False)]
        if k in ("map", "filter", "filter_map", "take_while", "skip_while", "inspect"):
            st, loc = st.place()
            e2 = env.copy()
            e2.write_tree(loc, ev.trees[1])
            st, it = st.iter((k, spec, loc))
            return [self.out({(): it}, st, e2)]
        if k in ("skip", "take"):
            st, it = st.iter((k, spec, self.index(ev.args[1], ev)))
            return [({(): it}, st, False)] if ev.args[1][1] >= 0 else []
        if k == "rev":
            st, it = st.iter(self.reverse(spec, ev))
            return [({(): it}, st, False)]
        if k in ("chain", "zip"):
            o = self.spec_of(env, st, ev.trees[1], ev)
            if o is None:
                raise Incomplete("%s at %s" % (ev.key, ev.loc))
            st, it = st.iter((k, spec, o))
            return [({(): it}, st, False)]
        if k == "len":
            n = len(self.all_items(eng, env, st, spec, ev)[0][0])
            return [({(): ("i", n)}, st, False)]
        if k in ("collect", "count", "last", "from_iter"):
            out = []
            for ts, e, s in self.all_items(eng, env, st, spec, ev):
                if k == "count":
                    out.append(self.out({(): ("i", len(ts))}, s, e))
                elif k == "last":
                    out.append(self.out(some(ts[-1]) if ts else dict(NONE), s, e))
                else:
                    tree, s, e = self.build(eng, e, s, ts, self.result_type(eng, ev), ev)
                    out.append(self.out(tree, s, e))
            return out
        if k in ("for_each", "fold", "any", "all", "find", "position", "find_map", "nth"):
            return self.consume(eng, ev, env, st, k, spec, i, byref)
        if k in ("drop", "size_hint", "clone"):
            return None
        raise Incomplete("%s at %s" % (ev.key, ev.loc))

    def consume(self, eng, ev, env, st, k, spec, i, byref):
        if k == "nth":
            n = self.index(ev.args[1], ev)
        acc = dict(ev.trees[1]) if k == "fold" else None
        f = ev.trees[2 if k == "fold" else 1]
        st, floc = st.place()
        env = env.copy()
        env.write_tree(floc, f)
        f = {(): ("ref", floc)}
        out, work = [], [(env, st, spec, acc, 0)]
        end = {"for_each": UNIT, "any": BOOL[False], "all": BOOL[True], "find": NONE, "position": NONE, "find_map": NONE, "nth": NONE}
        while work:
            e, s, sp, a, n0 = work.pop()
            if n0 > 40:
                raise Incomplete("an endless iterator at %s" % ev.loc)
            for s2, t, e2, st2 in self.advance(eng, e, s, sp, ev):
                keep = lambda x: x.put(i, ("iter", s2)) if byref and sp[0] != "via" else x
                if t is None:
                    out.append(self.out(dict(a if k == "fold" else end[k]), keep(st2), e2))
                    continue
                if k == "nth":
                    if n0 == n:
                        out.append(self.out(some(t), keep(st2), e2))
                    else:
                        work.append((e2, st2, s2, a, n0 + 1))
                    continue
                args = [a, t] if k == "fold" else [t]
                if k == "find":
                    st2, loc = st2.place()
                    e2 = e2.copy()
                    e2.write_tree(loc, t)
                    args = [{(): ("ref", loc)}]
                for r, e3, s3 in self.invoke(eng, e2, st2, f, args, ev):
                    if k in ("for_each", "fold"):
                        work.append((e3, s3, s2, r, n0 + 1))
                        continue
                    if k == "find_map":
                        yes = {"None": False, "Some": True}.get(r[()][4] if r[()][0] == "agg" else None)
                        if yes is None:
                            raise Incomplete("what a closure answers in %s at %s" % (ev.key, ev.loc))
                    else:
                        yes = self.truth(eng, e3, r, ev)
                    if yes == (k != "all"):
                        res = {"any": BOOL[True], "all": BOOL[False], "find": some(t), "position": some({(): ("i", n0)}), "find_map": r}[k]
                        out.append(self.out(dict(res), keep(s3), e3))
                    else:
                        work.append((e3, s3, s2, a, n0 + 1))
        return out
