"""The dynamic list and the lists built on it.  Each method is interpreted from the compiler's MIR on abstract pages: the children of
the list's container as a sequence of named nodes (the list's markers, each item's markers with the item's nodes between them, left
over nodes of items removed before, foreign nodes around), for every way the items a method is told to work on can lie to each other
and for lists that are shown and lists that are not.  The rule owns the meaning of the DOM calls and of the map of items."""
from absint import Monitor, Engine, Incomplete, TOP, Env
import seqs
from seqs import tok, is_tok, key, BOOL, UNIT
from comb import fields, isname, type_mentions
from dom import tri
from models import NONE, some, wrap, pre, RES

CRATE = "async_ui_web"
LIST = ("D", ("the list",))
REF = ("ref", (LIST, ()))


def node(n):
    return tok("node", n)


def ok(tree):
    return wrap(tree, 0, "Ok", RES)


ERR = {(): ("agg", "adt", RES, 1, "Err"), (("v", "Err"), ("f", "0")): ("sym", ("@", "world", 9, ""), "a DOM error", ())}


# ------------------------------------------------------------------ the page
class Page:
    """children sequences of the containers; immutable"""

    def __init__(self, seqs):
        self.seqs = tuple(sorted((c, tuple(s)) for c, s in dict(seqs).items()))

    def __hash__(self):
        return hash(self.seqs)

    def __eq__(self, o):
        return isinstance(o, Page) and self.seqs == o.seqs

    def __repr__(self):
        return " ".join("%s[%s]" % (c, " ".join(s)) for c, s in self.seqs)

    def of(self, c):
        return dict(self.seqs).get(c)

    def parent(self, n):
        for c, s in self.seqs:
            if n in s:
                return c
        return None

    def without(self, n):
        return Page({c: tuple(x for x in s if x != n) for c, s in self.seqs})

    def next(self, n, d=1):
        c = self.parent(n)
        if c is None:
            return None
        s = self.of(c)
        i = s.index(n) + d
        return s[i] if 0 <= i < len(s) else None

    def insert(self, c, n, before):
        """the page after container.insertBefore(n, before); None: the browser throws"""
        s = self.of(c)
        if s is None or (before is not None and before not in s):
            return None
        if n == c:
            return None
        if n.startswith("frag"):
            p = self
            for x in self.of(n):
                p = p.insert(c, x, before)
            return p
        if before == n:
            before = self.next(n)
        p = self.without(n)
        s = list(p.of(c))
        s.insert(len(s) if before is None else s.index(before), n)
        d = dict(p.seqs)
        d[c] = tuple(s)
        return Page(d)

    def remove(self, c, n):
        s = self.of(c)
        if s is None or n not in s:
            return None
        return self.without(n)


class State(seqs.State):
    """state of the rule on a path: the page, the map of items, tasks dropped, tasks spawned, registered nodes, nodes made"""
    F = ("page", "dropped", "spawned", "reg", "made", "calls", "home") + seqs.State.F


class Dom(seqs.Seqs):
    """the meaning of the DOM calls"""
    precise = True

    def __init__(self, sh, st):
        self.sh = sh
        self.st0 = st
        self.rets = []
        self.ends = []

    def init(self, eng, env):
        return self.st0

    def node_at(self, env, v):
        """the node a value or reference denotes"""
        for _ in range(4):
            if is_tok(v, "node"):
                return v[4]
            if v[0] == "ref":
                v = env.read(v[1])
            elif v[0] in ("clone",):
                v = v[1]
            elif v[0] == "deref":
                v = v[1]
            else:
                return None
        return None

    def need(self, env, ev, i):
        n = self.node_at(env, ev.args[i])
        if n is None:
            raise Incomplete("which node is passed to %s at %s" % (ev.key, ev.loc))
        return n

    def opt_node(self, env, ev, i):
        """an Option<&Node> argument: None, or a node"""
        t = ev.trees[i]
        v = t[()]
        if v[0] == "agg" and v[4] == "None":
            return None
        if v[0] == "agg" and v[4] == "Some":
            n = self.node_at(env, t.get((("v", "Some"), ("f", "0")), TOP))
            if n is not None:
                return n
        raise Incomplete("which node is passed to %s at %s" % (ev.key, ev.loc))

    def dom(self, eng, ev, env, st):
        k = ev.key.split("::")[-1]
        if ev.key == "Comment::new":
            n = "new%d" % len(st.made)
            return [(ok({(): node(n)}), st.set(made=st.made + (n,)), False)]
        if ev.key in ("Document::create_comment",):
            n = "new%d" % len(st.made)
            return [({(): node(n)}, st.set(made=st.made + (n,)), False)]
        if ev.key == "DocumentFragment::new":
            n = "frag%d" % len(st.made)
            d = dict(st.page.seqs)
            d[n] = ()
            return [(ok({(): node(n)}), st.set(made=st.made + (n,), page=Page(d)), False)]
        if ev.key in ("Into::into", "From::from", "Clone::clone", "AsRef::as_ref", "Deref::deref", "JsCast::unchecked_ref",
                      "JsCast::unchecked_into", "ToOwned::to_owned", "Borrow::borrow") and ev.args:
            v = ev.args[0]
            if is_tok(v, "node"):
                return [({(): v}, st, False)]
            if v[0] == "ref" and is_tok(env.read(v[1]), "node"):
                return [({(): env.read(v[1]) if k in ("clone", "to_owned") else v}, st, False)]
            return None
        if ev.key in ("Node::insert_before", "Node::append_child"):
            c, n = self.need(env, ev, 0), self.need(env, ev, 1)
            b = self.opt_node(env, ev, 2) if k == "insert_before" else None
            p = st.page.insert(c, n, b)
            if p is None:
                return [(dict(ERR), st, False)]
            return [(ok({(): node(n)}), st.set(page=p), False)]
        if ev.key == "Node::remove_child":
            c, n = self.need(env, ev, 0), self.need(env, ev, 1)
            p = st.page.remove(c, n)
            return [(dict(ERR), st, False)] if p is None else [(ok({(): node(n)}), st.set(page=p), False)]
        if ev.key == "Node::replace_child":
            c, n, o = self.need(env, ev, 0), self.need(env, ev, 1), self.need(env, ev, 2)
            p = st.page.insert(c, n, o)
            p = p and p.remove(c, o)
            return [(dict(ERR), st, False)] if p is None else [(ok({(): node(o)}), st.set(page=p), False)]
        if k == "remove" and len(ev.args) == 1 and self.node_at(env, ev.args[0]):
            return [(dict(UNIT), st.set(page=st.page.without(self.need(env, ev, 0))), False)]
        if ev.key in ("Node::next_sibling", "Node::previous_sibling", "Node::first_child", "Node::last_child", "Node::parent_node"):
            n = self.need(env, ev, 0)
            if k in ("next_sibling", "previous_sibling"):
                r = st.page.next(n, 1 if k[0] == "n" else -1)
            elif k == "parent_node":
                r = st.page.parent(n)
            else:
                s = st.page.of(n) or ()
                r = (s[0] if k[0] == "f" else s[-1]) if s else None
            return [(dict(NONE) if r is None else some({(): node(r)}), st, False)]
        if ev.key == "Node::is_same_node":
            n, o = self.need(env, ev, 0), self.opt_node(env, ev, 1)
            return [(BOOL[n == o], st, False)]
        if ev.key in ("PartialEq::eq", "PartialEq::ne") and len(ev.args) == 2:
            a, b = self.node_at(env, ev.args[0]), self.node_at(env, ev.args[1])
            if a is not None and b is not None:
                return [(BOOL[(a == b) == (k == "eq")], st, False)]
            return None
        if ev.key == "Node::contains":
            n, o = self.need(env, ev, 0), self.opt_node(env, ev, 1)
            return [(BOOL[n == o or st.page.parent(o) == n], st, False)]
        if ev.key.startswith("Node::") and ev.key != "Node::clone":
            raise Incomplete("%s at %s" % (ev.key, ev.loc))
        return None

    def on_return(self, eng, val, env, st, where):
        self.rets.append((val, env, st, eng, where))
        return st


# ------------------------------------------------------------------ the list's parts, by type and by what `new` and `insert` do with them
class Shape:
    def __init__(self, F, rep):
        self.F, self.rep = F, rep
        self.ok = False
        n = CRATE + "::lists::dynamic_list::DynamicList"
        fs = fields(F, n)
        if not rep.anchor(fs is not None, "DynamicList", "the struct DynamicList"):
            return
        self.cell = [f for f, t in fs if isname(t, "RefCell")]
        self.marks = [f for f, t in fs if isname(t, "Node", "Comment")]
        self.exec = [f for f, t in fs if isname(t, "LocalExecutor")]
        if not rep.anchor(len(self.cell) == 1 and len(self.marks) == 2 and len(self.exec) == 1, "DynamicList:fields",
                          "a RefCell, two marker nodes and an executor in DynamicList"):
            return
        it = [t for f, t in fs if f == self.cell[0]][0].a[0]
        ifs = fields(F, it.n) if it.k == "adt" else None
        m = [(f, t) for f, t in ifs or [] if isname(t, "HashMap")]
        c = [(f, t) for f, t in ifs or [] if t.k == "adt" and t.n.startswith(CRATE)]
        if not rep.anchor(len(m) == 1 and len(c) == 1, "DynamicList:inner", "a map of items and the containing node in DynamicList"):
            return
        self.items = (LIST, (("f", self.cell[0]), "cell", ("f", m[0][0])))
        self.home = (LIST, (("f", self.cell[0]), "cell", ("f", c[0][0])))
        sv = m[0][1].a[1]
        sfs = fields(F, sv.n) if sv.k == "adt" else None
        self.smarks = [f for f, t in sfs or [] if isname(t, "Node", "Comment")]
        self.stask = [f for f, t in sfs or [] if isname(t, "Task")]
        if not rep.anchor(len(self.smarks) == 2 and len(self.stask) == 1, "DynamicList:stored", "a task and two marker nodes in what is stored per item"):
            return
        self.stored = sv.n
        a = F.adt(c[0][1].n.split("::", 1)[1])
        self.real = self.fake = None
        for i, v in enumerate(a[0]["variants"] if len(a) == 1 else []):
            ts = [a[0]["crate"].tys[f["ty"]] for f in v["fields"]]
            if len(ts) == 1 and isname(ts[0], "DocumentFragment"):
                self.fake = (i, v["name"], v["fields"][0]["name"])
            elif len(ts) == 1 and isname(ts[0], "Node"):
                self.real = (i, v["name"], v["fields"][0]["name"])
        self.home_ty = c[0][1].n
        if not rep.anchor(self.real and self.fake and len(a[0]["variants"]) == 2, "ContainingNode", "a real and a stand-in container"):
            return
        self.fn = {}
        for m in ("new", "insert", "remove", "contains_key", "move_before", "swap", "retain", "render"):
            g = F.inherent("dynamic_list::DynamicList", m)
            if not rep.anchor(len(g) == 1, "DynamicList::" + m, "the method " + m):
                return
            self.fn[m] = g[0]
        self.ok = True

    def env(self, shown, items, ls, le, start, end):
        """memory with a list: `items` names"""
        e = Env()
        vi, vn, vf = self.real if shown else self.fake
        e.write_tree(self.home, {(): ("agg", "adt", self.home_ty, vi, vn), (("v", vn), ("f", vf)): node("real" if shown else "frag")})
        e.write((LIST, (("f", ls),)), node("LS"))
        e.write((LIST, (("f", le),)), node("LE"))
        ps = []
        for k in items:
            kl = (("D", ("item's key", k)), ())
            e.write(kl, key(k))
            e.write_tree(self.slot(k), self.stored_tree(k, start, end))
            ps.append((kl, self.slot(k)))
        e.write(self.items, tok("coll", -1))
        return e, ((-1, ("map", tuple(ps))),)

    def stored_items(self, env, st):
        """name -> place of what is stored for it"""
        v = env.read(self.items)
        if not is_tok(v, "coll"):
            raise Incomplete("what map the list holds its items in")
        out = {}
        for a, b in st.coll(v[4])[1]:
            k = env.read(a)
            if not is_tok(k, "key"):
                raise Incomplete("which keys the items have")
            out[k[4]] = b
        return out

    def slot(self, k):
        return (("D", ("item", k)), ())

    def stored_tree(self, k, start, end):
        return {(): ("agg", "adt", self.stored, 0, self.stored.split("::")[-1]), (("f", start),): node("S" + k), (("f", end),): node("E" + k),
                (("f", self.stask[0]),): tok("task", k)}


class Op(Dom):
    """one call of a method of the list"""

    undecided_retain = True
    private = (LIST,)

    def __init__(self, sh, st, rev=False):
        Dom.__init__(self, sh, st)
        self.rev = rev

    def sub(self, st):
        return type(self)(self.sh, st, self.rev)

    def gone(self, env, st, place):
        if isinstance(place[0], tuple) and len(place) == 2 and place[0][0] != "D":
            t = env.read((place[1][0], place[1][1] + (("f", self.sh.stask[0]),)))
            if is_tok(t, "task"):
                return st.set(dropped=st.dropped + (t[4],))
        return st

    def results(self, eng, ev, env, st):
        r = self.dom(eng, ev, env, st)
        if r is not None:
            return r
        sh = self.sh
        if ev.key in ("PartialEq::eq", "PartialEq::ne", "Borrow::borrow", "Clone::clone", "ToOwned::to_owned") and ev.args:
            a = self.key_at(env, ev.args[0])
            if a is not None:
                if ev.key == "Borrow::borrow":
                    return [({(): ev.args[0]}, st, False)]
                if len(ev.args) == 1:
                    return [({(): key(a)}, st, False)]
                b = self.key_at(env, ev.args[1])
                if b is not None:
                    return [(BOOL[(a == b) == ev.key.endswith("eq")], st, False)]
        if ev.key in ("ptr::eq", "ptr::addr_eq") and len(ev.args) == 2:
            slots = {p[1] for _, (k, ps) in st.colls if k == "map" for p in ps}
            a, b = (x[1] if x[0] == "ref" and x[1] in slots else None for x in ev.args)
            if a and b:
                return [(BOOL[a == b], st, False)]
        r = self.seq(eng, ev, env, st)
        if r is not None:
            return r
        if ev.key in ("LocalExecutor::spawn", "Executor::spawn"):
            t = ev.trees[1]
            n = "new%d" % len(st.made)
            return [({(): tok("task", n)}, st.set(made=st.made + (n,), spawned=st.spawned + ((n, tuple(sorted(t.items(), key=repr))),)), False)]
        if ev.key in ("Task::detach", "mem::forget", "ManuallyDrop::new") and ev.args and is_tok(ev.args[0], "task"):
            return [(None, st.set(calls=st.calls + (("kept", ev.args[0][4], str(ev.loc)),)), False)]
        if ev.key == "Task::cancel" and is_tok(ev.args[0], "task"):
            raise Incomplete("asynchronous cancellation of a task at %s" % ev.loc)
        return None

    def on_call(self, eng, ev, env, st):
        if ev.key in ("FnMut::call_mut", "Fn::call", "FnOnce::call_once") and ev.args:
            return st.set(calls=st.calls + (("asked", str(ev.args[1:]), str(ev.loc)),))
        if ev.key == "mem::drop" and ev.args and is_tok(ev.args[0], "task"):
            return st.set(dropped=st.dropped + (ev.args[0][4],))
        return st

    def on_drop(self, eng, ev, env, st):
        v = getattr(ev, "val", None)
        if v is not None and is_tok(v, "task"):
            if v[4] not in st.dropped:
                return st.set(dropped=st.dropped + (v[4],))
        return st


# ------------------------------------------------------------------ abstract lists
class Case:
    """a list: items in order, sizes of what they show, left-over nodes before an item (or at the end), shown or not"""

    def __init__(self, order, sizes=None, stale=(), shown=True):
        self.order, self.sizes, self.stale, self.shown = list(order), sizes or {}, tuple(stale), shown

    def content(self, k):
        return ["%s%d" % (k, i) for i in range(self.sizes.get(k, 1))]

    def page(self):
        s = ["LS"]
        for k in self.order:
            s += ["old" + k] if k in self.stale else []
            s += ["S" + k] + self.content(k) + ["E" + k]
        s += ["old"] if "" in self.stale else []
        s += ["LE"]
        return Page({"real": ["L"] + s + ["R"], "frag": ()} if self.shown else {"real": ["L", "R"], "frag": s})

    def __repr__(self):
        return "%s list [%s]%s%s" % ("shown" if self.shown else "hidden", " ".join(self.order),
                                     " showing " + ",".join("%s:%d" % x for x in sorted(self.sizes.items())) if self.sizes else "",
                                     " with left-overs" if self.stale else "")


class Rules:
    def __init__(self, F, rep):
        self.F, self.rep = F, rep
        self.sh = Shape(F, rep)
        self.ok = self.sh.ok and self.find_new() and self.find_marks()

    # which marker is which
    def find_new(self):
        rep, sh = self.rep, self.sh
        m = Op(sh, State(page=Page({})))
        fn = sh.fn["new"]
        try:
            e = Engine(self.F, m, merge=False)
            e.run(fn, {}, Env())
            rep.engine(e)
        except Incomplete as x:
            rep.undecided("new", str(x), fn.loc)
            return False
        if not rep.anchor(bool(m.rets), "DynamicList::new", "an end of DynamicList::new"):
            return False
        for val, env, st, eng, where in m.rets:
            names = {val.get((("f", f),), TOP)[-1]: f for f in sh.marks if is_tok(val.get((("f", f),), TOP), "node")}
            home = {p[2:]: v for p, v in val.items() if p[:2] == self.sh.home[1][:2]}
            hv = [v for p, v in val.items() if p[:3] == sh.home[1] and is_tok(v, "node")]
            hd = val.get(sh.home[1], TOP)
            if len(names) != 2 or len(hv) != 1 or hd[0] != "agg":
                rep.undecided("new", "what a new list holds", str(where))
                return False
            seq = st.page.of(hv[0][4])
            good = seq is not None and set(seq) == set(names) and len(seq) == 2
            if not tri(rep, good and hd[4] == sh.fake[1], "new",
                       "a new list keeps its two markers, in order, in a stand-in container", where):
                return False
            self.ls, self.le = names[seq[0]], names[seq[1]]
        return True

    def find_marks(self):
        """which of the stored markers comes first; and the rest of what `insert` does on an empty list is judged later"""
        self.start, self.end = self.sh.smarks
        case = Case([])
        m = self.run("insert", case, {2: key("n"), 3: ("sym", ("@", "world", 5, ""), "the new future", ()), 4: None}, "insert")
        if m is None:
            return False
        for val, env, st, eng, where in m.rets:
            d = self.sh.stored_items(env, st)
            if "n" not in d:
                continue
            a, b = (env.read((d["n"][0], (("f", f),))) for f in self.sh.smarks)
            s = st.page.of("real")
            if is_tok(a, "node") and is_tok(b, "node") and a[4] in s and b[4] in s and s.index(a[4]) > s.index(b[4]):
                self.start, self.end = self.end, self.start
            return True
        return self.rep.anchor(False, "DynamicList::insert:stored", "what insert stores")

    def run(self, fn, case, args, obl, rev=False, what=""):
        """explore one call; args: number -> value, or for optional keys a key name / None"""
        sh, rep = self.sh, self.rep
        env, colls = sh.env(case.shown, case.order, self.ls, self.le, self.start, self.end)
        m = Op(sh, State(page=case.page(), colls=colls), rev)
        vals = {1: REF}
        for n, v in args.items():
            if v is None or isinstance(v, str):
                if v is None:
                    env.write_tree((("L", 0, n), ()), dict(NONE))
                else:
                    loc = (("D", ("key", n, v)), ())
                    env.write(loc, key(v))
                    env.write_tree((("L", 0, n), ()), some({(): ("ref", loc)}))
            elif isinstance(v, tuple) and v[0] == "&":
                loc = (("D", ("key", n, v[1])), ())
                env.write(loc, key(v[1]))
                vals[n] = ("ref", loc)
            else:
                vals[n] = v
        e = Engine(self.F, m, merge=False)
        e.seconds = 60
        try:
            e.run(sh.fn[fn], vals, env)
        except Incomplete as x:
            rep.undecided(obl, "%s on a %s: %s" % (what or fn, case, x), sh.fn[fn].loc)
            return None
        rep.engine(e)
        rep.count("abstract calls", rep.counts.get("abstract calls", 0) + 1)
        return m

    def judge(self, fn, case, args, obl, want, gone=(), ret=None, kept_tasks=True, rev=False, what="", extra=None):
        """after the call the list shows the items `want` in order; items in `gone` were taken off and their tasks dropped"""
        rep, sh = self.rep, self.sh
        m = self.run(fn, case, args, obl, rev, what)
        if m is None:
            return
        loc = sh.fn[fn].loc
        desc = "%s on a %s" % (what or fn, case)
        if not m.rets:
            rep.check(False, obl, "%s panics or does not end" % desc, loc)
            return
        for val, env, st, eng, where in m.rets:
            bad = self.wrong(case, want, gone, env, st)
            if bad is None and ret is not None:
                v = eng.known(env, val[()])
                bad = "the answer is not known" if v is None else "" if bool(v) == ret else "it answers %s" % bool(v)
                if v is None:
                    rep.undecided(obl, "%s: %s" % (desc, bad), loc)
                    continue
            if not bad and extra is not None:
                bad = extra(val, env, st, eng)
            if bad == "?":
                rep.undecided(obl, desc, loc)
                continue
            rep.check(not bad, obl, "%s: %s" % (desc, bad or "as documented"), loc)

    def wrong(self, case, want, gone, env, st):
        sh = self.sh
        d = sh.stored_items(env, st)
        if set(d) != set(want):
            return "the items kept are %s" % ", ".join(sorted(d))
        c = "real" if case.shown else "frag"
        loose = {"old" + k for k in case.stale}
        exp = ["LS"]
        for k in want:
            s, e, t = (env.read((d[k][0], (("f", f),))) for f in (self.start, self.end, sh.stask[0]))
            if not (is_tok(s, "node") and is_tok(e, "node") and is_tok(t, "task")):
                return "what is stored for %s is not a task and two markers" % k
            fresh = t[4] != k
            if not fresh and (s[4], e[4]) != ("S" + k, "E" + k):
                return "the markers stored for %s are not its markers" % k
            if fresh and k in case.order and k not in gone:
                return "the task of %s was replaced" % k
            if t[4] in st.dropped:
                return "the task of %s is dropped" % k
            exp += [s[4]] + ([] if fresh else case.content(k)) + [e[4]]
        exp.append("LE")
        for k in gone:
            loose |= set(case.content(k))
            if k not in st.dropped:
                return "the task of %s is not dropped" % k
        for x in st.calls:
            if x[0] == "kept":
                return "a task is detached or forgotten"
        seq = st.page.of(c)
        if case.shown:
            if seq[:1] != ("L",) or seq[-1:] != ("R",):
                return "the page around the list is changed: %s" % " ".join(seq)
            seq = seq[1:-1]
        else:
            if st.page.of("real") != ("L", "R"):
                return "the hidden list shows %s" % " ".join(st.page.of("real"))
        if seq[:1] != ("LS",) or seq[-1:] != ("LE",):
            return "the list's markers are not around it: %s" % " ".join(seq)
        rest = [x for x in seq if x not in loose]
        if rest != exp:
            return "the list then is %s instead of %s" % (" ".join(rest), " ".join(exp))
        if not loose <= set(seq):
            return "nodes of removed items were taken out of the list, where their futures look for them"
        return None


def orders(involved, others=("x", "y", "z")):
    """every order of the items involved, with and without further items around and between them"""
    import itertools
    n = len(involved)
    for perm in itertools.permutations(involved):
        for mask in itertools.product((0, 1), repeat=n + 1):
            o = []
            for i in range(n + 1):
                if mask[i]:
                    o.append(others[i] if i < len(others) else "w")
                if i < n:
                    o.append(perm[i])
            yield o


def l01(F, rep):
    R = Rules(F, rep)
    if not R.ok:
        return
    fut = ("sym", ("@", "world", 5, ""), "the new future", ())

    def spawned(k):
        def f(val, env, st, eng):
            d = R.sh.stored_items(env, st)
            t = env.read((d[k][0], (("f", R.sh.stask[0]),)))
            sp = dict(st.spawned)
            if t[4] not in sp:
                return "the task stored for %s was not spawned for it" % k
            if len(sp) != 1:
                return "more than one task is spawned"
            tree = dict(sp[t[4]])
            if not tree[()][0] == "agg" or "SiblingNodeFuture" not in str(tree[()]):
                return "?"
            e = env.read((d[k][0], (("f", R.end),)))
            if fut not in tree.values():
                return "what is spawned is not the future given"
            refs = [v for v in tree.values() if is_tok(v, "node")]
            if refs != [e]:
                return "the future is not rendered before its end marker"
            return None
        return f

    n = 0
    for shown in (True, False):
        for sizes in ({}, {"a": 0, "b": 2}, {"a": 2, "b": 0}) if shown else ({},):
            # insert: a new key, an existing one; before nothing, a missing key, another item, itself
            for o in orders(["b"]):
                for stale in ((), ("b", "")) if not sizes else ((),):
                    case = Case(o, sizes, stale, shown)
                    for bf, at in ((None, len(o)), ("missing", len(o)), ("b", o.index("b"))):
                        w = o[:at] + ["n"] + o[at:]
                        R.judge("insert", case, {2: key("n"), 3: fut, 4: bf}, "insert:new", w, (), False,
                                what="insert(n, before %s)" % bf, extra=spawned("n"))
            for o in orders(["a", "b"]):
                case = Case(o, sizes, (), shown)
                for bf in (None, "missing", "b", "a"):
                    w = list(o)
                    at = w.index(bf) if bf in w else len(w)
                    w.insert(at, "NEW")
                    w = [x for x in w if x != "a"]
                    w[w.index("NEW")] = "a"
                    R.judge("insert", case, {2: key("a"), 3: fut, 4: bf}, "insert:replace", w, ("a",), True,
                            what="insert(a, before %s)" % bf, extra=spawned("a"))
            # remove
            for o in orders(["a"]):
                for stale in ((), ("a", "")) if not sizes else ((),):
                    case = Case(o, sizes, stale, shown)
                    R.judge("remove", case, {2: ("&", "a")}, "remove", [x for x in o if x != "a"], ("a",), True, what="remove(a)")
                    R.judge("remove", case, {2: ("&", "missing")}, "remove:missing", o, (), False, what="remove(missing)")
                    R.judge("contains_key", case, {2: ("&", "a")}, "contains_key", o, (), True, what="contains_key(a)")
                    R.judge("contains_key", case, {2: ("&", "missing")}, "contains_key", o, (), False, what="contains_key(missing)")
            # move_before, swap
            for o in orders(["a", "b"]):
                case = Case(o, sizes, (), shown)
                for bf in (None, "missing", "b", "a"):
                    w = [x for x in o if x != "a"]
                    w.insert(w.index(bf) if bf in w else len(w), "a")
                    if bf == "a":
                        w = list(o)
                    R.judge("move_before", case, {2: ("&", "a"), 3: bf}, "move_before", w, what="move_before(a, %s)" % bf)
                w = [{"a": "b", "b": "a"}.get(x, x) for x in o]
                R.judge("swap", case, {2: ("&", "a"), 3: ("&", "b")}, "swap", w, what="swap(a, b)")
                R.judge("swap", case, {2: ("&", "a"), 3: ("&", "a")}, "swap:same", o, what="swap(a, a)")
            # retain
            retain(R, Case(["a", "b"], sizes, (), shown))
    for fn, args in (("move_before", {2: ("&", "missing"), 3: "a"}), ("swap", {2: ("&", "missing"), 3: ("&", "a")}),
                     ("swap", {2: ("&", "a"), 3: ("&", "missing")})):
        m = R.run(fn, Case(["x", "a"]), args, fn + ":missing")
        if m is not None:
            rep.check(not m.rets, fn + ":missing", "%s of a key that is not in the list panics, as documented" % fn, R.sh.fn[fn].loc)
    render(R)
    dropped(R)
    rep.floor("abstract calls", rep.counts.get("abstract calls", 0), 500)


def retain(R, case):
    rep = R.rep
    pred = ("sym", ("@", "world", 6, ""), "the predicate", ())
    fn = R.sh.fn["retain"]
    for rev in (False, True):
        m = R.run("retain", case, {2: pred}, "retain", rev)
        if m is None:
            return
        seen = set()
        for val, env, st, eng, where in m.rets:
            keep = [k for k in case.order if k in R.sh.stored_items(env, st)]
            seen.add(tuple(keep))
            bad = R.wrong(case, keep, [k for k in case.order if k not in keep], env, st)
            asked = [c for c in st.calls if c[0] == "asked"]
            if bad is None and len(asked) != len(case.order):
                bad = "the predicate is asked %d times for %d items" % (len(asked), len(case.order))
            rep.check(not bad, "retain", "retain on a %s keeping %s: %s" % (case, " ".join(keep) or "nothing", bad or "as documented"), fn.loc)
        rep.check(len(seen) == 4, "retain:cases", "retain can keep any of the items (%d outcomes)" % len(seen), fn.loc)


class Shown(Op):
    """the coroutine that renders the list: at the place where it waits, and where it is dropped while waiting"""

    def __init__(self, sh, st, right, rev=False):
        Op.__init__(self, sh, st, rev)
        self.right = right
        self.waits = []
        self.drops = []

    def sub(self, st):
        return Shown(self.sh, st, self.right, self.rev)

    def results(self, eng, ev, env, st):
        if ev.key in ("DomContext::add_child", "DomContext::remove_child") and ev.args:
            if ev.key.endswith("add_child"):
                n = self.need(env, ev, 2)
                p = st.page.insert("real", n, self.right)
                return [] if p is None else [(dict(UNIT), st.set(page=p, reg=st.reg + (n,)), False)]
            p = st.page
            for n in st.reg:
                p = p and p.remove("real", n)
            return [] if p is None else [(dict(UNIT), st.set(page=p, reg=()), False)]
        if ev.key == "DomContext::get_containing_node":
            loc = (("D", ("containing node",)), ())
            return [({(): ("ref", loc)}, st, False, lambda e: e.write(loc, node("real")))]
        if ev.key in ("LocalExecutor::run", "Executor::run") and len(ev.args) == 2:
            inner = ev.args[1]
            st = st.set(calls=st.calls + (("run", ev.args[0], inner[0] == "sym" and inner[2] == "future::pending"),))
            return [({(): tok("running", "executor")}, st, False)]
        if ev.key in ("IntoFuture::into_future",) and is_tok(ev.args[0], "running"):
            return [({(): ev.args[0]}, st, False)]
        if ev.key == "Future::poll":
            v = env.read(ev.args[0][1]) if ev.args[0][0] == "ref" else TOP
            pend = {(): ("agg", "adt", "core::task::poll::Poll", 1, "Pending")}
            if v[0] == "sym" and v[2] == "future::pending":
                return [(pend, st, False)]
            if is_tok(v, "running"):
                return [(pend, st.set(calls=st.calls + (("polled",),)), False)]
        return Op.results(self, eng, ev, env, st)

    def on_store(self, eng, loc, val, env, st, where):
        if loc[0] == LIST and loc[1][:len(self.sh.home[1])] == self.sh.home[1]:
            h = home_of(self, env)
            return st.set(home=h or ())
        return st

    def on_yield(self, eng, env, st, where):
        if ("waiting",) in st.calls:
            return None
        self.waits.append((env.copy(), st, where))
        return st.set(calls=st.calls + (("waiting",),))

    def on_cordrop(self, eng, env, st, where):
        self.drops.append((env, st, where))


def render(R):
    rep, sh = R.rep, R.sh
    fid = sh.fn["render"].id
    fs = [f for f in R.F.fns.values() if f.coroutine and f.id.startswith(fid + "::")]
    if not rep.anchor(len(fs) == 1, "DynamicList::render:body", "the body of DynamicList::render"):
        return
    fn = fs[0]
    for order, sizes, stale in (([], {}, ()), (["a"], {}, ()), (["a"], {"a": 0}, ("",)), (["a", "b"], {"a": 2, "b": 0}, ("b",))):
        for right in ("R", None):
            case = Case(order, sizes, stale, False)
            around = ("L", "R") if right else ("L",)
            for again, rev in ((False, False), (False, True), (True, False)) if order else ((False, False),):
                m = play(R, fn, Case(order, sizes, stale, again), right, around, rev)
                if m is None:
                    continue
                if again:
                    rep.check(not m.waits, "render:twice", "rendering a list that is shown already panics", fn.loc)
                    continue
                rep.check(bool(m.waits), "render:waits", "rendering a %s gets to the place where it waits" % case, fn.loc)
                for env, st, where in m.waits:
                    bad = shown_wrong(R, case, env, st, around)
                    rep.check(not bad, "render:shown", "rendering a %s: %s" % (case, bad or "the list is put in its place"), str(where))
                    runs = [c for c in st.calls if c[0] == "run"]
                    good = None if not runs else all(c[1] == ("ref", (LIST, (("f", sh.exec[0]),))) for c in runs)
                    tri(rep, good, "render:executor", "while the list is shown its own executor runs", where)
                    tri(rep, None if not runs else all(c[2] for c in runs) or None, "render:forever", "the executor is run for ever", where)
                    tri(rep, ("polled",) in st.calls or None, "render:polled", "the executor is polled before waiting", where)
                rep.check(bool(m.drops), "render:drop", "a waiting render of a %s can be dropped without a panic" % case, fn.loc)
                clean = False
                for env, st, where in m.drops:
                    bad = hidden_wrong(R, case, env, st, around)
                    clean = clean or not st.reg
                    rep.check(not bad, "render:hidden", "dropping the render of a %s: %s" % (case, bad or "everything is back in the stand-in container"), str(where))
                if m.drops:
                    rep.check(clean, "render:unregistered", "dropping the render of a %s takes its place back" % case, fn.loc)


def play(R, fn, case, right, around, rev=False):
    rep, sh = R.rep, R.sh
    env, colls = sh.env(case.shown, case.order, R.ls, R.le, R.start, R.end)
    page = case.page()
    if not case.shown:
        page = Page({"real": around, "frag": page.of("frag")})
    m = Shown(sh, State(page=page, colls=colls), right, rev)
    env.write((("L", 0, 1), (("f", "^self"),)), REF)
    e = Engine(R.F, m, merge=False)
    e.seconds = 60
    try:
        e.run(fn, {}, env)
    except Incomplete as x:
        rep.undecided("render", "render of a %s: %s" % (case, x), fn.loc)
        return None
    rep.engine(e)
    rep.count("abstract calls", rep.counts.get("abstract calls", 0) + 1)
    return m


def block(case):
    return Case(case.order, case.sizes, case.stale, False).page().of("frag")


def home_of(R, env):
    t = env.tree(R.sh.home)          # R: the rules or a monitor
    v = t[()]
    if v[0] != "agg":
        return None
    ns = [x for p, x in t.items() if is_tok(x, "node")]
    return (v[4], ns[0][4]) if len(ns) == 1 else None


def shown_wrong(R, case, env, st, around):
    h = home_of(R, env)
    if h != (R.sh.real[1], "real"):
        return "the list does not know that it is shown (%s)" % (h,)
    if set(R.sh.stored_items(env, st)) != set(case.order) or st.dropped:
        return "items are lost"
    seq = st.page.of("real")
    lst = block(case)
    if seq[:1] != ("L",) or (len(around) == 2 and seq[-1:] != ("R",)):
        return "the list is not between its siblings: %s" % " ".join(seq)
    mid = seq[1:len(seq) - (len(around) - 1)]
    if mid[-len(lst):] != lst:
        return "the page then is %s" % " ".join(seq)
    marks = mid[:-len(lst)]
    if not set(marks) <= set(st.reg):
        return "the page then is %s" % " ".join(seq)
    if not marks and "LS" not in st.reg:
        return "nothing in the page holds the list's place among its siblings, so those rendered later on its left come after it"
    if st.page.of("frag"):
        return "nodes stay in the stand-in container"
    return None


def hidden_wrong(R, case, env, st, around):
    h = home_of(R, env) or st.home
    if not h or h[0] != R.sh.fake[1]:
        return "the list still takes itself to be shown"
    if set(R.sh.stored_items(env, st)) != set(case.order) or st.dropped:
        return "items are lost"
    lst = block(case)
    if st.page.of(h[1]) != lst:
        return "the stand-in container then holds %s" % " ".join(st.page.of(h[1]) or ("nothing",))
    seq = tuple(x for x in st.page.of("real") if x not in st.reg)
    if seq != around:
        return "the page then is %s" % " ".join(st.page.of("real"))
    for d in env.m.values():
        for v in d.values():
            if v[0] == "guard" and v[2][0] == LIST:
                return "the list stays borrowed"
    return None


class Blocks(Monitor):
    precise = True

    def __init__(self):
        self.rets = []

    def init(self, eng, env):
        return frozenset()

    def results(self, eng, ev, env, st):
        if ev.key == "DetachmentBlocker::block_until_drop":
            return [({(): ("i", 0)}, st | {ev.args[0]}, False)]
        return None

    def on_return(self, eng, val, env, st, where):
        self.rets.append((st, where))
        return st


def dropped(R):
    """the futures of a list that is dropped are dropped with it, when nobody can say where their nodes are: they must not look"""
    rep, F = R.rep, R.F
    n = CRATE + "::lists::dynamic_list::DynamicList"
    fs = fields(F, n)
    bl = [i for i, (f, t) in enumerate(fs) if isname(t, "DetachmentBlocker")]
    a = F.adts[n]
    if not rep.anchor(len(bl) == 1 and "drop" in a, "DynamicList:blocker", "a DetachmentBlocker in DynamicList and a Drop implementation"):
        return
    held = [i for i, (f, t) in enumerate(fs) if f in R.sh.cell + R.sh.exec]
    rep.check(bl[0] > max(held), "drop:order", "the blocker of a list is declared (so dropped) after its tasks and its executor", n)
    fn = F.fns[a["drop"]]
    m = Blocks()
    e = Engine(F, m, merge=False)
    try:
        e.run(fn, {1: REF}, Env())
    except Incomplete as x:
        rep.undecided("drop:blocks", str(x), fn.loc)
        return
    rep.engine(e)
    want = ("ref", (LIST, (("f", fs[bl[0]][0]),)))
    for st, where in m.rets:
        rep.check(want in st, "drop:blocks", "dropping a list keeps its futures from looking for the page", str(where))
    rep.check(bool(m.rets), "drop:ends", "dropping a list ends", fn.loc)
