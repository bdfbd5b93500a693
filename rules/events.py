"""The stream of DOM events.  Its public operations (making it, its options, polls, dropping it) and the listener it hands to the
browser are interpreted from the compiler's MIR on an abstract browser that keeps the listeners registered; all states that any order of
operations, tasks and events can reach are enumerated to a fixpoint and each step is compared with a small specification."""
from absint import Engine, Incomplete, TOP, Env, FakeFn
from comb import fields, isname
from dom import tri
from models import NONE, some, wrap, RES
import seqs
from lists2 import NOTYPE
from seqs import tok, is_tok, BOOL, UNIT

CRATE = "async_ui_web_html"
OBJ = ("D", ("the stream",))
CX = ("D", ("the context",))
NAME, TARGET = tok("name", "the event"), tok("target", "the target")
SAME = ("AsRef::as_ref", "Borrow::borrow", "Deref::deref", "JsCast::unchecked_ref", "JsCast::unchecked_into", "Into::into", "From::from",
        "JsCast::dyn_ref", "Cow::as_ref", "ToString::to_string", "Cow::into_owned", "str::to_owned", "String::as_str", "Closure::as_ref",
        "ScopedClosure::as_ref", "JsCast::unchecked_from_js", "JsCast::unchecked_from_js_ref")
COPY = ("Clone::clone", "ToOwned::to_owned")


class State(seqs.State):
    """listeners: (target, name, listener, capture, passive); options: what each options object says; woken: what happened, in order"""
    F = ("listeners", "options", "dead", "log", "held", "rcs") + seqs.State.F


def pre_of(tree):
    """what is in a Some"""
    p = (("v", "Some"), ("f", "0"))
    return {k[2:]: v for k, v in tree.items() if k[:2] == p}


class Ours:
    """all memory of this model: outside code only reaches it by firing events, polling and dropping the stream, which are separate steps"""
    def __contains__(self, r):
        return r[0] == "D"


class Browser(seqs.Seqs):
    inline_first = ("Clone::clone", "Default::default", "Into::into", "From::from", "Drop::drop")
    private = Ours()

    def __init__(self, sh, st):
        self.sh, self.st0 = sh, st
        self.rets = []

    def init(self, eng, env):
        return self.st0

    def sub(self, st):
        return type(self)(self.sh, st)

    def on_return(self, eng, val, env, st, where):
        self.rets.append((val, env, st, eng, where))
        return st

    def item(self, eng, ev, env, st):
        r = self.results(eng, ev, env, st)
        return [(tree, st1) for tree, st1, _ in r] if r is not None and all(len(x) == 3 for x in r) else None

    def on_acquire(self, eng, g, env, st, where):
        if any(x[0] == "run" for x in st.log):
            st = st.set(log=st.log + (("after", where),))
        return st.set(held=st.held + (g,))

    def on_release(self, eng, g, env, st, where):
        return st.set(held=tuple(x for x in st.held if x != g))

    def on_drop(self, eng, ev, env, st):
        v = getattr(ev, "val", None)
        if v is not None and is_tok(v, "closure"):
            return st.set(dead=tuple(sorted(set(st.dead) | {v[4]})))
        if v is not None and is_tok(v, "rc"):
            return self.count(st, v[4], -1)
        return st

    def count(self, st, n, k):
        return st.set(rcs=tuple((i, c + k) if i == n else (i, c) for i, c in st.rcs))

    def thing(self, env, v):
        """the token behind a value"""
        v = self.deep(env, v)
        return v if isinstance(v, tuple) and len(v) == 5 and v[:2] == ("agg", "adt") and v[2] in ("closure", "target", "name", "options", "event", "waker", "rc", "weak") else None

    def results(self, eng, ev, env, st):
        k = ev.key.split("::")[-1]
        owner = ev.key.split("::")[0]
        a = [self.thing(env, v) for v in ev.args]
        t = a[0] if a else None
        kind = t[2] if t else None
        if k in ("run_now", "run_now_") and not ev.args or ev.id == self.sh.run_now:
            return [(dict(UNIT), st.set(log=st.log + (("run", bool(st.held)),)), False)]
        if owner in ("Closure", "ScopedClosure") and k in ("new", "wrap", "own", "own_aborting", "own_assert_unwind_safe", "borrow", "once", "borrow_mut") and ev.args:
            n = sum(1 for r in env.m if r[0] == "D" and r[1][0] == "closure")
            loc = (("D", ("closure", n)), ())
            tree = dict(ev.trees[0])
            return [({(): tok("closure", n)}, st, False, lambda e: e.write_tree(loc, tree))]
        if ev.key in ("Rc::new", "Arc::new"):
            n = len(st.rcs)
            loc = (("D", ("rc", n)), ())
            tree = dict(ev.trees[0])
            return [({(): tok("rc", n)}, st.set(rcs=st.rcs + ((n, 1),)), False, lambda e: e.write_tree(loc, tree))]
        if kind in ("rc", "weak"):
            n = t[4]
            if k in ("deref", "as_ref", "borrow") and kind == "rc" and owner in ("Deref", "AsRef", "Borrow", "Rc"):
                return [({(): ("ref", (("D", ("rc", n)), ()))}, st, False)]
            if ev.key in COPY or k == "clone" and owner in ("Rc", "Weak"):
                return [({(): t}, self.count(st, n, 1) if kind == "rc" else st, False)]
            if k == "downgrade":
                return [({(): tok("weak", n)}, st, False)]
            if k == "upgrade":
                if dict(st.rcs)[n] > 0:
                    return [(some({(): tok("rc", n)}), self.count(st, n, 1), False)]
                return [(dict(NONE), st, False)]
            if k == "ptr_eq":
                return [(BOOL[a[0] == a[1]], st, False)]
            if kind == "rc" and k not in ("eq", "ne"):
                return None
        if k in ("from_raw", "noop", "dummy_waker") and (owner == "Waker" or k == "dummy_waker"):
            if k == "noop":
                loc = (("D", ("waker", "nobody")), ())
                return [({(): ("ref", loc)}, st, False, lambda e: e.write(loc, tok("waker", "nobody")))]
            return [({(): tok("waker", "nobody")}, st, False)]
        if kind == "waker":
            if k == "will_wake":
                return [(BOOL[a[0] == a[1]], st, False)] if a[1] is not None else None
            if k in ("wake", "wake_by_ref"):
                return [(dict(UNIT), st.set(log=st.log + (("wake", t[4]),)), False)]
            if k == "clone_from":
                src = a[1]
                loc = ev.args[0][1]
                return [(dict(UNIT), st, False, lambda e: e.write(loc, src))] if src else None
        if ev.key == "Option::unwrap_or_default" and isname(self.result_type(eng, ev) or NOTYPE, "AddEventListenerOptions"):
            if ev.args[0][0] == "agg":
                if ev.args[0][4] == "Some":
                    return [(pre_of(ev.trees[0]), st, False)]
                n = len(st.options)
                return [({(): tok("options", n)}, st.set(options=st.options + ((False, False, False),)), False)]
        if ev.key == "AddEventListenerOptions::new" or ev.key == "Default::default" and isname(self.result_type(eng, ev) or NOTYPE, "AddEventListenerOptions"):
            n = len(st.options)
            return [({(): tok("options", n)}, st.set(options=st.options + ((False, False, False),)), False)]
        if kind == "options" and k in ("capture", "set_capture", "passive", "set_passive", "once", "set_once") and len(ev.args) == 2:
            b = eng.known(env, ev.args[1])
            if b is None:
                raise Incomplete("which option is set at %s" % ev.loc)
            o = list(st.options)
            at = ("capture", "passive", "once").index(k.split("_")[-1])
            o[t[4]] = tuple(bool(b) if i == at else x for i, x in enumerate(o[t[4]]))
            return [({(): ev.args[0]}, st.set(options=tuple(o)), False)]
        if kind == "options" and k in ("get_capture", "get_passive"):
            return [(some(BOOL[st.options[t[4]][k == "get_passive"]]), st, False)]
        if "_event_listener_with_" in k:
            return self.listener_op(eng, ev, env, st, k, a)
        if t is not None and kind not in ("rc", "weak"):
            if ev.key in COPY or k == "to_owned":
                return [({(): t}, st, False)]
            if ev.key in SAME or k in ("unchecked_ref", "unchecked_into", "as_ref", "deref", "borrow", "into", "dyn_into"):
                if k == "dyn_into":
                    return [(wrap({(): ev.args[0]}, 0, "Ok", RES), st, False)]
                return [({(): ev.args[0]}, st, False)]
            if k in ("forget", "into_js_value") and kind == "closure":
                return [({(): t} if k != "forget" else dict(UNIT), st, False)]
        return self.seq(eng, ev, env, st)

    def listener_op(self, eng, ev, env, st, k, a):
        if any(x is None for x in a[:3]) or a[0][2] != "target" or a[2][2] != "closure":
            raise Incomplete("which listener %s is about at %s" % (k, ev.loc))
        cap = pas = once = False
        for v, x in list(zip(ev.args, a))[3:4]:
            if x is not None and x[2] == "options":
                cap, pas, once = st.options[x[4]]
            else:
                cap = eng.known(env, v)
                if cap not in (0, 1):
                    raise Incomplete("whether %s is about capture at %s" % (k, ev.loc))
                cap = bool(cap)
        e = (a[0][4], a[1][4], a[2][4], cap)
        ls = [x for x in st.listeners if x[:4] != e]
        if k.startswith("add_"):
            if len(ls) == len(st.listeners):
                ls = list(st.listeners) + [e + (pas, once)]
            else:
                ls = list(st.listeners)
        return [(wrap(dict(UNIT), 0, "Ok", RES), st.set(listeners=tuple(ls)), False)]


class Listening:
    def __init__(self, F, rep):
        self.F, self.rep, self.ok = F, rep, False
        self.fn = {}
        self.self_ref = ("ref", (OBJ, ()))
        is_es = lambda t: isname(t, "EventFutureStream")
        for m in ("new", "set_capture", "set_passive"):
            g = F.inherent("event_handling::EventFutureStream", m)
            if not rep.anchor(len(g) == 1, "EventFutureStream::" + m, "the method " + m):
                return
            self.fn[m] = g[0]
        for tr, m in (("Future", "poll"), ("Stream", "poll_next")):
            g = [F.impl_fn(i, m) for i in F.trait_impls(tr, is_es)]
            g = [x for x in g if x is not None]
            if not rep.anchor(len(g) == 1, "EventFutureStream:" + tr, "the implementation of %s" % tr):
                return
            self.fn[m] = g[0]
        g = [f for i, f in F.fns.items() if i == "async_ui_web_core::executor::run_now"]
        if not rep.anchor(len(g) == 1, "run_now", "the function that runs the executor"):
            return
        self.run_now = g[0].id
        new = self.fn["new"]
        self.adt = new.ty(0)
        unit = next((l["t"] for f in (self.fn["set_capture"], self.fn["set_passive"]) for l in f.locals[:1]), None)
        t = new.locals[0]["t"]
        body = {"blocks": [{"s": [], "t": ["drop", [1, []], t, 1, None, True], "cl": False, "l": 0}, {"s": [], "t": ["return"], "cl": False, "l": 0}],
                "locals": [{"t": unit}, {"t": t}]}
        self.fn["drop"] = FakeFn(new, body, "drop of the stream")
        self.fn["drop"].name = "dropping an EventFutureStream"
        self.fn["drop"].argc = 1
        drops = [F.impl_fn(i, "drop") for i in F.trait_impls("Drop", is_es)]
        self.fn["drop"].loc = drops[0].loc if drops and drops[0] else new.loc
        self.ok = True

    def call(self, fn, vals, w, what):
        env, st = w
        env = env.copy()
        st = st.set(log=(), held=())
        for i, v in vals.items():
            if isinstance(v, dict):
                env.write_tree((("L", 0, i), ()), v)
        vals = {i: v for i, v in vals.items() if not isinstance(v, dict)}
        m = Browser(self, st)
        e = Engine(self.F, m, merge=False)
        e.seconds = 60
        try:
            e.run(fn, vals, env)
        except Incomplete as x:
            self.rep.undecided(what[0], "%s: %s" % (what[1], x), fn.loc)
            return None
        self.rep.engine(e)
        self.rep.count("abstract calls", self.rep.counts.get("abstract calls", 0) + 1)
        out = []
        for val, e2, s2, eng, where in m.rets:
            e2 = e2.copy()
            for r in [r for r in e2.m if r[0] == "L"]:
                del e2.m[r]
            out.append((val, e2, s2))
        return out

    def done(self, env, st):
        env = env.copy()
        st = seqs.prune(env, st)
        if not st.colls:
            st = st.set(fresh=0)
        env.facts.clear()
        return env, st.set(log=(), held=())


# the specification: (polled, capture, passive, task to wake, event waiting)
def e03(F, rep):
    """An event stream has one listener from its first poll until it is dropped, and no event that comes in between is lost."""
    L = Listening(F, rep)
    if not L.ok:
        return
    fn = L.fn
    r = L.call(fn["new"], {1: TARGET, 2: NAME}, (Env(), State()), ("new", "a new stream"))
    todo, seen = [], set()
    for val, e, s in r or ():
        e = e.copy()
        e.write_tree((OBJ, ()), val)
        rep.check(not s.listeners, "new", "a new stream %s" % ("has not registered anything" if not s.listeners else "has registered a listener"), fn["new"].loc)
        todo.append((L.done(e, s), (False, False, False, None, None), "a new stream"))

    def push(e, s, spec, story):
        w = L.done(e, s)
        k = (w[0].freeze(), w[1], spec)
        if k not in seen and len(seen) < 600:
            seen.add(k)
            todo.append((w, spec, story))
    while todo:
        w, spec, story = todo.pop(0)
        polled, cap, pas, task, waiting = spec
        # the options, before the first poll
        if not polled:
            for m in ("set_capture", "set_passive"):
                for b in (0, 1):
                    for val, e, s in L.call(fn[m], {1: L.self_ref, 2: ("i", b)}, w, ("options", story)) or ():
                        push(e, s, (polled, bool(b) if m == "set_capture" else cap, bool(b) if m == "set_passive" else pas, task, waiting),
                             "%s, %s(%s)" % (story, m, "true" if b else "false"))
        # a poll by either task
        for m in ("poll_next", "poll"):
            for t in ("A", "B"):
                poll(L, rep, w, spec, story, m, t, push)
        fire(L, rep, w, spec, story, push)
        drop(L, rep, w, spec, story)
    rep.count("states of the stream", len(seen))
    rep.floor("states of the stream", len(seen), 20)
    if len(seen) >= 600:
        rep.undecided("states", "more than 600 states of the stream", fn["new"].loc)


def shown(ls):
    return "[%s]" % ", ".join("%s%s%s%s" % (n, " capturing" if c else "", " passive" if p else "", " once" if o else "") for _, n, _, c, p, o in ls)


def poll(L, rep, w, spec, story, m, t, push):
    polled, cap, pas, task, waiting = spec
    fn = L.fn[m]
    env, st = w[0].copy(), w[1]
    wk = (("D", ("task", t)), ())
    env.write(wk, tok("waker", t))
    env.write_tree((CX, ()), {(): ("agg", "adt", "core::task::wake::Context", 0, "Context"), (("f", "waker"),): ("ref", wk)})
    pin = {(): ("agg", "adt", "core::pin::Pin", 0, "Pin"), (("f", "pointer"),): L.self_ref, (("f", "__pointer"),): L.self_ref}
    story = "%s, %s by task %s" % (story, m, t)
    r = L.call(fn, {1: L.self_ref, 2: ("ref", (CX, ()))}, (env, st), ("poll", story))
    if r is None:
        return
    rep.check(bool(r), "poll:returns", "%s %s" % (story, "returns" if r else "panics"), fn.loc)
    want = (("the target", "the event", 0, cap, pas, False),)
    for val, e, s in r:
        same = s.listeners == want
        rep.check(same, "poll:listener", "%s: the listeners registered are %s%s" % (
            story, shown(s.listeners), "" if same else " instead of " + shown(want)), fn.loc)
        v = val[()]
        item = None
        if v[0] != "agg":
            rep.undecided("poll:result", story, fn.loc)
            continue
        if v[4] == "Ready":
            p = (("v", "Ready"), ("f", "0"))
            if m == "poll_next":
                o = val.get(p, TOP)
                if o[0] != "agg":
                    rep.undecided("poll:result", story, fn.loc)
                    continue
                if o[4] == "None":
                    rep.check(False, "poll:end", "%s: the stream ends" % story, fn.loc)
                    continue
                p += (("v", "Some"), ("f", "0"))
            item = val.get(p, TOP)
            while item[0] == "ref":
                item = e.read(item[1])
            if not is_tok(item, "event"):
                rep.undecided("poll:result", story, fn.loc)
                continue
            item = item[4]
        good = item == (waiting if polled else None)
        rep.check(good, "poll:result", "%s answers %s%s" % (story, item or "Pending", "" if good else " instead of %s" % (waiting or "Pending")), fn.loc)
        if same and good:
            push(e, s, (True, cap, pas, t if item is None else None, None), story)


def fire(L, rep, w, spec, story, push):
    polled, cap, pas, task, waiting = spec
    env, st = w
    if not polled:
        return
    for name in ("x", "y"):
        story2 = "%s, event %s" % (story, name)
        ws = [(env, st, ())]
        for l in st.listeners:
            tree = env.tree((("D", ("closure", l[2])), ()))
            c = tree.get((), TOP)
            g = L.F.fns.get(c[2]) if c[0] == "agg" and c[1] == "closure" else None
            if g is None:
                rep.undecided("fire", "which function listens", "")
                return
            out = []
            for e, s, log in ws:
                by = {1: ("ref", (("D", ("closure", l[2])), ())), 2: tok("event", name)}
                if g.ty(1).k != "ref":
                    by[1] = dict(tree)
                r = L.call(g, by, (e, s), ("fire", story2))
                if r is None:
                    return
                rep.check(bool(r), "fire:returns", "%s: the listener %s" % (story2, "returns" if r else "panics"), g.loc)
                out += [(e2, s2, log + s2.log) for _, e2, s2 in r]
            ws = out
        for e, s, log in ws:
            wakes = [i for i, x in enumerate(log) if x == ("wake", task)]
            runs = [i for i, x in enumerate(log) if x[0] == "run"]
            late = [x[1] for x in log if x[0] == "after"]
            ok = task is None or bool(wakes)
            rep.check(ok, "fire:wakes", "%s: %s" % (story2, "the task that polled last is woken" if ok else "the task that polled last is not woken"), g.loc)
            if ok and task is not None:
                ok = bool(runs) and runs[-1] > wakes[0]
                rep.check(ok, "fire:runs", "%s: %s" % (story2, "the app runs before the listener returns" if ok else "the app is not run after the wake-up"), g.loc)
            held = any(x[1] for x in log if x[0] == "run")
            rep.check(not held, "fire:free", "%s: %s" % (story2, "the app runs while the stream's state is borrowed" if held else
                                                         "nothing of the stream is borrowed while the app runs"), g.loc)
            if late and ok and not held:
                rep.undecided("fire:after", "%s: the stream's state is used after the app has run at %s" % (story2, late[0]), g.loc)
            elif ok and not held:
                push(e, s, (True, cap, pas, None, name), story2)


def drop(L, rep, w, spec, story):
    fn = L.fn["drop"]
    story = "%s, dropped" % story
    r = L.call(fn, {1: w[0].tree((OBJ, ()))}, w, ("drop", story))
    if r is None:
        return
    rep.check(bool(r), "drop:returns", "%s: the drop %s" % (story, "returns" if r else "panics"), fn.loc)
    for val, e, s in r:
        bad = bool(s.listeners)
        rep.check(not bad, "drop:listener", "%s: %s" % (story, "the listener %s stays registered" % shown(s.listeners) if bad else "no listener is left"), fn.loc)
