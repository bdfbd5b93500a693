"""Scheduling of the root executor and mounting: the functions that schedule and run the executor are reduced, from the
compiler's MIR and path-sensitively, to their effect on the flags of the executor (for every value the flags can take),
with the polled future allowed to do anything it can do to the executor (wake it, run it, both, any number of times);
the reachable combinations of flags, pending callbacks and outstanding wake-ups are then enumerated to a fixpoint."""
from absint import Monitor, Engine, Incomplete, TOP, Env, FakeFn
from dom import explore, tri

CORE = "async_ui_web_core"
WEB = "async_ui_web"
FUT = ("sym", ("@", "world", 0, ""), "the root future", ())
QUEUE = ("set_timeout", "queue_microtask", "request_animation_frame", "request_idle_callback", "Promise::then",
         "Promise::finally", "post_task")


class Lost(Exception):
    pass


def pub_fn(F, rep, crate, name):
    fs = [f for f in F.fns.values() if f.crate.name == crate and f.name == "crate::" + name]
    return fs[0] if rep.anchor(len(fs) == 1, name, "the function %s of %s" % (name, crate)) else None


def is_const(v):
    if v[0] == "i":
        return True
    return v[0] == "agg" and v[1] == "adt"


class Model:
    """the executor's statics, and the effect of functions on them"""

    def __init__(self, F, rep):
        self.F, self.rep = F, rep
        self.base = {}            # static root -> {path: value}
        self.flags = []           # the places whose content changes and is constant
        self.cache = {}
        self.fixed = {}           # transfer of functions that poll: (fn id, state) -> outcomes
        self.stack = []
        self.changed = False
        self.pollinfo = []        # (receiver, waker, where)
        self.queued = []
        self.tables = []

    def start(self, setter):
        """initial content of the statics of the core crate, then after the root future was set"""
        F, rep = self.F, self.rep
        suf = "::__rust_std_internal_init_fn"
        for f in F.fns.values():
            if f.crate.name != CORE or not f.id.endswith(suf):
                continue
            got = []

            class M(RawM):
                def on_return(m, eng, val, env, st, where):
                    got.append({p: v for p, v in val.items()})
                    return st
            if not explore(F, rep, f, M(F, rep, self.tables), "init:" + f.id):
                continue
            if len(got) == 1:
                self.base[("S", f.id[:-len(suf)])] = got[0]
        got = []

        class M(Monitor):
            precise = True

            def on_return(m, eng, val, env, st, where):
                got.append({r: {p: v for p, v in env.m.get(r, {}).items()} for r in self.base})
                return st
        e = Engine(F, M(), merge=False)
        e.run(setter, {1: FUT}, self.env0())
        rep.engine(e)
        uniq = []
        for g in got:
            if g not in uniq:
                uniq.append(g)
        if not rep.anchor(len(uniq) == 1, "set_executor_future:effect", "one effect of set_executor_future on the executor"):
            return False
        before = self.base
        self.base = uniq[0]
        diff = [(r, p) for r in self.base for p in self.base[r] if before[r].get(p) != self.base[r][p]]
        holds = [(r, p) for r, p in diff if contains(self.base[r][p], FUT)]
        tri(rep, bool(holds) or (None if diff else False), "future:stored",
            "set_executor_future does not keep the future it is given", setter.loc)
        inside = lambda r, p: any(q[:len(p)] == p and contains(v, FUT) for q, v in self.base[r].items())
        self.flags = sorted(((r, p) for r in before for p, v in before[r].items()
                             if "cell" in p and is_const(v) and not inside(r, p) and not any(q[:len(p)] == p and q != p for q in before[r])), key=repr)
        self.setter = setter
        self.bases = (before, self.base)
        self.init = (0,) + tuple(before[r][p] for r, p in self.flags)
        return True

    def set_future(self, x):
        """flags after the root future was set in state x"""
        outs = set()

        class M(Monitor):
            precise = True

            def on_return(m, eng, val, env, st, where):
                outs.add((1,) + self.get(env, where, 1)[1:])
                return st
        e = Engine(self.F, M(), merge=False)
        e.run(self.setter, {1: FUT}, self.env(x))
        self.rep.engine(e)
        return outs

    def env0(self, phase=None):
        e = Env()
        for r, t in (self.base if phase is None else self.bases[phase]).items():
            e.write_tree((r, ()), t)
        return e

    def env(self, x):
        e = self.env0(x[0])
        self.put(e, x)
        return e

    def put(self, e, x):
        for (r, p), v in zip(self.flags, x[1:]):
            if e.read((r, p)) != v:
                e.write((r, p), v)

    def get(self, e, where, phase):
        out = [phase]
        for r, p in self.flags:
            v = e.read((r, p))
            if not is_const(v):
                raise Lost("content of %s%s at %s" % (r[1], p, where))
            out.append(v)
        return tuple(out)

    def callable_of(self, env, v, n=0):
        """the function a JS callback value runs"""
        if n > 12:
            return None
        if v[0] == "ref":
            return self.callable_of(env, env.read(v[1]), n + 1)
        if v[0] == "init" and v[1][0][0] == "S":
            b = self.base.get(v[1][0], {}).get(v[1][1])
            return self.callable_of(env, b, n + 1) if b is not None else None
        if v[0] == "fn":
            return self.F.fns.get(v[1])
        if v[0] == "agg" and v[1] == "closure":
            return self.F.fns.get(v[2])
        if v[0] == "sym" and v[3]:
            return self.callable_of(env, v[3][0], n + 1)
        if v[0] == "agg" and v[1] == "adt" and v[4] == "Some":
            return None
        return None

    # -------------------------------------------------------------- transfer functions
    def transfer(self, fn, x):
        """outcomes of calling fn outside of any poll, in state x: set of (x', outstanding wake?, callbacks queued (0..2),
        polled?, polled twice at once?)"""
        k = (fn.id, x)
        if k in self.stack:
            return self.fixed.get(k, frozenset())
        self.stack.append(k)
        try:
            while True:
                old = self.fixed.get(k, frozenset())
                new = frozenset(self.run(fn, x, self.poll_alts))
                self.fixed[k] = new | old
                if self.fixed[k] == old:
                    return old
        finally:
            self.stack.pop()

    def run(self, fn, x, pollalts):
        outs = set()
        self_ = self

        class M(Monitor):
            precise = True

            def init(m, eng, env):
                return ("run", -1, 0, 0, 0)       # wake outstanding (-1: as before), queued, polled, nested poll

            def results(m, eng, ev, env, st):
                if ev.key == "Future::poll":
                    xs = self_.get(env, ev.loc, x[0])
                    self_.pollinfo.append((ev.args[0], self_.waker_of(env, ev.args[1]), str(ev.loc)))
                    alts = []
                    for x2, w, q, nested in pollalts(xs):
                        s2 = ("run", w, min(2, st[2] + q), 1, st[4] | nested)
                        alts.append((None, s2, False, lambda e, x2=x2: self_.put(e, x2)))
                    return alts
                if ev.key.split("::")[0] in ("ScopedClosure", "Closure"):
                    return [(None, st, False)]
                n = self_.queue_of(env, ev)
                if n:
                    g, known = n
                    if not known:
                        raise Lost("the callback queued at %s" % ev.loc)
                    self_.queued.append((g, str(ev.loc)))
                    return [(None, st[:2] + (min(2, st[2] + 1),) + st[3:], False)]
                return None

            def on_return(m, eng, val, env, st, where):
                outs.add((self_.get(env, where, x[0]),) + st[1:])
                return st
        e = Engine(self.F, M(), merge=False)
        e.seconds = 60
        argv = None
        e.run(fn, argv, self.env(x))
        self.rep.engine(e)
        return outs

    def queue_of(self, env, ev):
        if not any(ev.key.split("::")[-1].startswith(q.split("::")[-1]) for q in QUEUE):
            return None
        for a in ev.args:
            g = self.callable_of(env, a)
            if g is not None:
                return g, True
        return None, False

    def waker_of(self, env, cx):
        """the value of the waker a poll context was made from"""
        n = 0
        while n < 12:
            n += 1
            if cx[0] == "ref":
                v = env.read(cx[1])
                if v[0] == "agg" and v[2].endswith("Context"):
                    v = env.read((cx[1][0], cx[1][1] + (("f", "waker"),)))
                    if v[0] == "ref":
                        cx = v
                        continue
                if v[0] == "init" and v[1][0][0] == "S":
                    return v
                cx = v
            elif cx[0] == "sym" and cx[2] in ("Context::from_waker", "ContextBuilder::build", "ContextBuilder::from_waker",
                                              "Clone::clone", "LocalWaker::clone", "Waker::clone", "AsRef::as_ref", "Deref::deref") and cx[3]:
                cx = cx[3][0]
            else:
                return cx
        return cx

    def poll_alts(self, x):
        """everything the polled future can have done to the executor by the time its poll returns:
        (x', a wake-up is outstanding, callbacks queued, another poll ran inside)"""
        seen = {(x, 0, 0, 0)}
        work = list(seen)
        while work:
            y, w, q, n = work.pop()
            for g in self.wakefns:
                for y2, w2, q2, p, nn in self.transfer(g, y):
                    k = (y2, 1, min(2, q + q2), n | p | nn)
                    if k not in seen:
                        seen.add(k)
                        work.append(k)
            for y2, w2, q2, p, nn in self.transfer(self.runfn, y):
                k = (y2, w if w2 < 0 else w2, min(2, q + q2), n | p | nn)
                if k not in seen:
                    seen.add(k)
                    work.append(k)
        return seen

    def quiet_alts(self, x):
        return {(x, 0, 0, 0)}


def contains(v, w):
    if v == w:
        return True
    return isinstance(v, tuple) and any(contains(x, w) for x in v)


# ------------------------------------------------------------------ the waker handed to the root future
def vtable_of(F, rep, env, v):
    """the (clone, wake, wake_by_ref, drop) callables of a RawWakerVTable reference"""
    bodies = []
    if v[0] == "ref":
        r = v[1][0]
        w = env.read(v[1])
        if w[0] == "cst" and F.fns.get(w[1]) is not None:
            f = F.fns[w[1]]
            bodies = [FakeFn(f, b, ("P", f.id, i)) for i, b in enumerate(f.body.get("promoted") or [])]
        elif w[0] == "cst" and w[1] in F.cbodies:
            bodies = [F.cbodies[w[1]]]
        elif r[0] == "S" and r[1] in F.cbodies:
            bodies = [F.cbodies[r[1]]]
    elif v[0] == "static" and v[1] in F.cbodies:
        bodies = [F.cbodies[v[1]]]
    elif v[0] == "cst" and v[1] in F.cbodies:
        bodies = [F.cbodies[v[1]]]
    for b in bodies:
        got = []

        class M(Monitor):
            precise = True

            def on_call(m, eng, ev, env2, st):
                if ev.key == "RawWakerVTable::new":
                    got.append(tuple(ev.args))
                return st
        if explore(F, rep, b, M(), "vtable:" + str(b.id), merge=False) and got:
            fs = []
            for a in got[0]:
                fs.append(F.fns.get(a[1]) if a[0] == "fn" else F.fns.get(a[2]) if a[0] == "agg" and a[1] == "closure" else None)
            if len(fs) == 4 and all(f is not None for f in fs[:3]):
                return fs
    return None


def waker_fns(F, rep, M, waker, where):
    """functions run when the waker value is woken; None if not understood"""
    v = waker
    if v[0] == "init" and v[1][0][0] == "S":
        v = M.base.get(v[1][0], {}).get(v[1][1], TOP)
    if v[0] == "sym" and v[2] in ("Into::into", "From::from", "Waker::from", "task::waker"):
        out = []
        for i in F.trait_impls("Wake"):
            for m in ("wake", "wake_by_ref"):
                g = F.impl_fn(i, m)
                if g is not None and g.crate.name == CORE:
                    out.append(g)
        return out or None
    if v[0] == "sym" and v[2] in ("Waker::from_raw", "Waker::new"):
        t = None
        if v[3] and v[3][0][0] == "sym" and v[3][0][2] == "a raw waker":
            t = M.tables[v[3][0][1][2]]
        elif v[2] == "Waker::new" and len(v[3]) == 2:
            t = vtable_of(F, rep, Env(), v[3][1])
        if t is None:
            return None
        clone, wake, wbr = t[:3]
        m = RawM(F, rep, [])
        if not explore(F, rep, clone, m, "vtable:clone", merge=False):
            return None
        if not m.tables:
            tri(rep, None, "waker:clone", "a clone of the root waker is a raw waker of the same table", clone.loc)
        for u in m.tables:
            tri(rep, None if u is None else u[1] in (wake, wbr) and u[2] in (wake, wbr), "waker:clone",
                "a clone of the root waker does not wake the way the original does", clone.loc)
        return [wake, wbr]
    return None


class RawM(Monitor):
    """raw wakers get a name under which the functions of their table are kept"""
    precise = True

    def __init__(self, F, rep, tables):
        self.F, self.rep, self.tables = F, rep, tables

    def results(self, eng, ev, env, st):
        if ev.key in ("RawWaker::new", "Waker::new"):
            t = vtable_of(self.F, self.rep, env, ev.args[1])
            if t not in self.tables:
                self.tables.append(t)
            v = ("sym", ("@", "raw", self.tables.index(t), ""), "a raw waker", ())
            if ev.key == "Waker::new":
                v = ("sym", ("@", "raw", self.tables.index(t), "w"), "Waker::from_raw", (v,))
            return [({(): v}, st, False)]
        if ev.key.split("::")[0] in ("ScopedClosure", "Closure"):
            return [(None, st, False)]          # creating a callback does not run it
        return None


def c08(F, rep):
    """root executor: in every reachable combination of its flags, pending callbacks and outstanding wake-ups, a wake-up that has not been answered by a poll is
    covered by a queued callback that polls; running it answers every wake-up made while polling; polls never nest; mounting spawns the
    app on the executor that future runs and schedules it"""
    schedule = pub_fn(F, rep, CORE, "executor::schedule")
    run_now = pub_fn(F, rep, CORE, "executor::run_now")
    setter = pub_fn(F, rep, CORE, "executor::set_executor_future")
    if not (schedule and run_now and setter):
        return
    M = Model(F, rep)
    try:
        if not M.start(setter):
            return
        executor(F, rep, M, schedule, run_now)
    except (Incomplete, Lost) as x:
        rep.undecided("executor:model", str(x), schedule.loc)
    getter(F, rep)
    mounting(F, rep)


def executor(F, rep, M, schedule, run_now):
    if not rep.anchor(len(M.flags) >= 1, "executor:flags", "flags of the root executor"):
        return
    rep.count("flags", len(M.flags))
    M.runfn = run_now
    M.wakefns = [schedule]
    # the waker given to the future
    woken = [x for y in M.set_future(M.init) for x, *_ in M.transfer(schedule, y)]
    for x in woken:
        M.run(run_now, x, M.quiet_alts)
    wk = []
    for rcv, w, where in M.pollinfo:
        if w not in wk:
            wk.append(w)
    rep.count("polls_seen", len(M.pollinfo))
    for w in wk:
        fs = waker_fns(F, rep, M, w, run_now.loc)
        if fs is None:
            rep.undecided("waker:functions", "what waking the root waker does", run_now.loc)
        else:
            for g in fs:
                if g not in M.wakefns:
                    M.wakefns.append(g)
                rep.ok("waker:%s" % g.name, g.loc)
    M.fixed.clear()
    # reachable quiescent states: flags, wake outstanding, callbacks pending
    init = (M.init, 0, 0)
    seen = {init}
    work = [init]
    edges = 0
    V = lambda c, k, msg, w: tri(rep, c, k, msg, w)
    while work:
        x, w, q = work.pop()
        steps = [(g, "wake", q) for g in M.wakefns] + [(run_now, "run", q)]
        if q:
            cbs = []
            for g, where in M.queued:
                if g not in cbs:
                    cbs.append(g)
            steps += [(g, "callback", q - 1) for g in cbs]
        st = "flags %s, %s wake-up outstanding, %d callback(s) pending%s" % (
            [v[1] if v[0] == "i" else v[4] for v in x[1:]], "a" if w else "no", q, "" if x[0] else ", no root future yet")
        if not x[0]:
            # the root future is set; nothing was woken before that matters
            for y in M.set_future(x):
                k = (y, 0, q)
                if k not in seen:
                    seen.add(k)
                    work.append(k)
        for g, kind, q0 in steps:
            outs = M.transfer(g, x)
            polls = M.run(g, x, M.quiet_alts) if kind != "wake" else ()
            if kind != "wake":
                V(bool(polls), "run:returns", "running the executor never returns even if the future is not woken again (%s)" % st, g.loc)
            for x2, w2, dq, polled, nested in outs:
                edges += 1
                if kind == "wake":
                    nw = 1 if not polled else (w2 if w2 >= 0 else 0)
                    if w and x[0]:
                        V(dq == 0, "schedule:once", "scheduling again although already scheduled queues another callback (%s)" % st, g.loc)
                else:
                    nw = w if w2 < 0 else w2
                    if w and x[0]:
                        V(bool(polled), "run:polls", "running the executor does not poll although it was woken (%s)" % st, g.loc)
                    V(not nw if polled else True, "run:drains",
                      "running the executor returns while a wake-up made during the poll is unanswered (%s)" % st, g.loc)
                V(not nested, "run:nested", "the root future is polled while it is being polled (%s)" % st, g.loc)
                nq = min(2, q0 + dq)
                if not x[0]:
                    nw = 0
                V(not nw or nq > 0, "wake:covered",
                  "a wake-up is outstanding and no callback is queued: it is never answered (%s)" % st, g.loc)
                k = (x2, nw, nq)
                if k not in seen:
                    seen.add(k)
                    work.append(k)
    rep.count("executor_states", len(seen))
    rep.count("executor_edges", edges)
    # the future that was set is the one polled
    done = set()
    for rcv, w, where in M.pollinfo:
        if (rcv, where) in done:
            continue
        done.add((rcv, where))
        ok = True if contains(rcv, FUT) or resolves(M, rcv) else None
        tri(rep, ok, "poll:future", "the future polled is the one given to set_executor_future", where)


def resolves(M, v):
    """follow places of the statics to what set_executor_future put there"""
    n = 0
    while n < 8:
        n += 1
        if v[0] == "ref" and v[1][0][0] == "D":
            v = v[1][0][1]
        elif v[0] in ("ref", "init") and v[1][0][0] == "S":
            v = M.base.get(v[1][0], {}).get(v[1][1], TOP)
        else:
            break
    return contains(v, FUT)


# ------------------------------------------------------------------ the executor apps run on
def getter(F, rep):
    ge = pub_fn(F, rep, WEB, "executor::get_executor")
    if ge is None:
        return
    outs = []

    class M(Monitor):
        precise = True

        def init(m, eng, env):
            return ("g", ())

        def opaque(m, eng, fn, ev):
            return fn.name == "crate::executor::set_executor_future"

        def on_call(m, eng, ev, env, st):
            if ev.key.endswith("set_executor_future"):
                return ("g", st[1] + ((deepval(env, ev.args[0]), str(ev.loc)),)) if len(st[1]) < 3 else st
            return st

        def on_return(m, eng, val, env, st, where):
            outs.append((val[()], st[1], {r: dict(d) for r, d in env.m.items() if r[0] == "S"}, env))
            return st
    if not explore(F, rep, ge, M(), "get_executor", merge=False):
        return
    rep.floor("get_executor_paths", len(outs), 1)
    fresh = 0
    for v, sets, statics, env in outs:
        ex = target(env, v)
        if sets:
            fresh += 1
            tri(rep, len(sets) == 1, "get_executor:once", "the root future is set more than once for one executor", sets[0][1])
            for fut, where in sets:
                r = run_of(fut)
                if r is None:
                    tri(rep, None, "get_executor:drives", "the root future runs the executor that get_executor returns", where)
                    continue
                inner, forever = r
                tri(rep, same(env, inner, ex), "get_executor:drives",
                    "the future the root executor polls runs another executor than the one returned to spawn tasks on", where)
                tri(rep, forever, "get_executor:forever", "the executor is run only until a future that can finish", where)
            kept = [x for d in statics.values() for x in d.values() if ex is not None and contains(x, ex)]
            tri(rep, True if kept else None, "get_executor:kept", "the executor created is kept for later calls", ge.loc)
        else:
            st = static_of(v)
            tri(rep, True if st else None, "get_executor:same", "later calls return the executor created first", ge.loc)
    tri(rep, fresh > 0, "get_executor:installs", "no path of get_executor sets the future the root executor polls", ge.loc)


def deepval(env, v, n=0):
    while n < 6 and v[0] == "ref" and v[1][0][0] == "L":
        v = env.read(v[1])
        n += 1
    return v


def target(env, v):
    """what a reference refers to, as a value"""
    n = 0
    while n < 8 and v[0] == "ref":
        n += 1
        r, p = v[1]
        if r[0] == "D" and p == ():
            v = r[1]
        else:
            w = env.read(v[1])
            if w[0] == "init":
                return w
            v = w
    return v


def same(env, a, b):
    a, b = target(env, a), target(env, b)
    if a == b:
        return True
    if a[0] == "sym" and b[0] == "sym":
        return False
    return None


def run_of(v):
    """(executor, whether what it runs until never finishes) of an `executor.run(future)` value"""
    n = 0
    while v[0] == "sym" and n < 8:
        n += 1
        if v[2] in ("LocalExecutor::run", "Executor::run", "StaticLocalExecutor::run"):
            f = v[3][1]
            never = f[0] == "sym" and f[2] == "future::pending"
            return v[3][0], True if never else None
        if v[2] in ("Box::new", "Box::pin", "Into::into", "From::from") and v[3]:
            v = v[3][0]
        else:
            return None
    return None


def static_of(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "S":
            return v
        for x in v:
            r = static_of(x)
            if r:
                return r
    return None


# ------------------------------------------------------------------ mounting
def mounting(F, rep):
    at = pub_fn(F, rep, WEB, "mount::mount_at")
    mo = pub_fn(F, rep, WEB, "mount::mount")
    if not (at and mo):
        return
    arg = lambda n: ("init", (("L", 0, n), ()))

    class M(Monitor):
        precise = True

        def __init__(m, fn):
            m.fn = fn
            m.outs = []

        def init(m, eng, env):
            return ("m", None, 0, ())

        def opaque(m, eng, fn, ev):
            return fn.name in ("crate::executor::get_executor", "crate::executor::schedule", "crate::executor::run_now") or \
                fn.name.endswith("::new_root")

        def on_call(m, eng, ev, env, st):
            k = ev.key
            if k in ("LocalExecutor::spawn", "StaticLocalExecutor::spawn", "Executor::spawn"):
                return ("m", (ev.args[0], deepval(env, ev.args[1]), ("@", ev.ctx.id, ev.block), str(ev.loc)), st[2], st[3])
            if k.endswith("executor::schedule") or k.endswith("executor::run_now"):
                return st[:2] + (1,) + st[3:]
            if k == "Task::detach":
                return st[:3] + (st[3] + (deepval(env, ev.args[0]),),) if len(st[3]) < 3 else st
            return st

        def on_return(m, eng, val, env, st, where):
            m.outs.append((val, st, env))
            return st
    for fn in (at, mo):
        name = fn.name.split("::")[-1]
        m = M(fn)
        if not explore(F, rep, fn, m, name, merge=False):
            continue
        rep.floor(name + "_paths", len(m.outs), 1)
        for val, st, env in m.outs:
            sp = st[1]
            if not tri(rep, sp is not None, name + ":spawned", "a path of %s does not spawn the app" % name, fn.loc):
                continue
            exe, fut, site, where = sp
            g = target(env, exe)
            tri(rep, True if g[0] == "sym" and g[2].endswith("get_executor") else None, name + ":executor",
                "the app is spawned on the executor of get_executor", where)
            tri(rep, bool(st[2]), name + ":scheduled", "the app is spawned but the executor is not scheduled: nothing would run it", where)
            isroot = fut[0] == "sym" and fut[2].endswith("new_root")
            tri(rep, True if isroot else None, name + ":root", "the app is spawned as a root container", where)
            if isroot:
                a = fut[3]
                tri(rep, a[0] == arg(1), name + ":child", "the app spawned is not the future given to %s" % name, where)
                if fn is at:
                    tri(rep, a[1] == arg(2), name + ":node", "the app is not mounted in the node given", where)
                else:
                    tri(rep, True if has_key(a[1], "Document::body") else False if a[1][0] != "top" and
                        (has_key(a[1], "Document::head") or has_key(a[1], "Document::document_element")) else None,
                        name + ":node", "mount renders into the body of the document", where)
            r = val.get((), TOP)
            task = lambda v: v[0] == "sym" and v[2].endswith("Executor::spawn")
            if fn is at:
                tri(rep, True if task(r) else None, name + ":task", "mount_at returns the task of the app", where)
            else:
                det = any(task(v) for v in st[3])
                tri(rep, True if det else False if not st[3] else None, name + ":detached",
                    "mount does not detach the task: the app is dropped at once", where)


def has_key(v, k):
    if isinstance(v, tuple):
        if len(v) > 2 and v[0] == "sym" and v[2] == k:
            return True
        return any(has_key(x, k) for x in v)
    return False
