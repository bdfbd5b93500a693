"""The dynamic slot.  Making it, sending it futures and the coroutine that renders it are interpreted from the compiler's MIR; where the
coroutine waits, every order of messages and polls is played, so that all states the slot can get into are visited."""
from absint import Engine, Incomplete, TOP, Env
from comb import isname
from dom import tri
from models import wrap
import events
from events import Browser
from seqs import tok, is_tok, BOOL, UNIT, become, prune

CRATE = "async_ui_web"
SLOT = ("D", ("the slot",))
SELF = ("ref", (SLOT, ()))
CX = ("D", ("the context",))
POLL = "core::task::poll::Poll"
PENDING = {(): ("agg", "adt", POLL, 1, "Pending")}
NAMES = ("f1", "f2", "f3", "f4")


class State(events.State):
    """spec: (current, finished, message, task to wake) as the last step left it; told: the futures sent while a child was polled"""
    F = ("spec", "steps") + events.State.F


class SlotMon(Browser):
    sending = False

    def sub(self, st):
        m = type(self)(self.sh, st)
        return m

    def on_acquire(self, eng, g, env, st, where):
        if any(x[2] == g[2] and not (x[1] == g[1] == "borrow") for x in st.held):
            self.sh.rep.check(False, "borrow", "%s: the slot is borrowed while it is borrowed" % self.sh.story(st), str(where))
            return None
        return st.set(held=st.held + (g,))

    def on_drop(self, eng, ev, env, st):
        v = getattr(ev, "val", None)
        if v is not None and is_tok(v, "future"):
            return self.gone(st, v[4])
        return Browser.on_drop(self, eng, ev, env, st)

    def gone(self, st, f):
        return st.set(log=st.log + (("dropped", f, bool(st.held)),))

    def results(self, eng, ev, env, st):
        k = ev.key.split("::")[-1]
        if ev.key in ("future::get_context", "get_context"):
            return [({(): ("ref", (CX, ()))}, st, False)]
        if ev.key == "Pin::set":
            loc = eng.deref(env, ev.args[0])
            if env.read(loc) != TOP and env.read(loc)[0] == "ref":
                loc = eng.deref(env, env.read(loc))
            elif env.read((loc[0], loc[1] + (("f", "pointer"),)))[0] == "ref":
                loc = eng.deref(env, env.read((loc[0], loc[1] + (("f", "pointer"),))))
            return self.overwrite(ev, env, st, loc, dict(UNIT))
        if ev.key == "Future::poll" and ev.args:
            v = ev.args[0]
            n = 0
            while n < 5 and v[0] == "ref":
                loc, v = v[1], env.read(v[1])
                n += 1
            if is_tok(v, "future"):
                return self.poll_child(eng, ev, env, st, v[4])
        return Browser.results(self, eng, ev, env, st)

    def overwrite(self, ev, env, st, loc, ret):
        for v in sorted(set(x for x in env.tree(loc).values() if is_tok(x, "future"))):
            st = self.gone(st, v[4])
        tree = dict(ev.trees[1])
        return [(ret, st, False, lambda e: e.write_tree(loc, tree))]

    def poll_child(self, eng, ev, env, st, f):
        w = None
        c = self.sh.follow(env, ev.args[1])
        if c is not None:
            x = self.sh.follow_value(env, env.read((c[0], c[1] + (("f", "waker"),))))
            w = x[4] if x is not None and is_tok(x, "waker") else None
        st = st.set(log=st.log + (("polled", f, w, bool(st.held)),))
        out = [(dict(PENDING), st.set(log=st.log + (("pending", f),)), False)]
        out.append((wrap({(): ("sym", ("@", "world", 3, ""), "the output", ())}, 0, "Ready", POLL), st.set(log=st.log + (("ready", f),)), False))
        if not st.held:
            # while it is polled the future may change the slot
            cur, fin, msg, task = st.spec
            for op, arg in self.sh.ops(env, st, used=(f,)):
                before = st.set(log=st.log + (("sent", op, arg),))
                r = self.sh.call(self.sh.fn[op], {1: SELF, **({2: {(): tok("future", arg)}} if arg else {})}, env, before, "%s while a future is polled" % op, eng)
                for _, e2, s2 in r:
                    out.append((dict(PENDING), s2.set(log=s2.log + (("pending", f),)), False, lambda e, x=e2: become(e, x)))
        return out

    def at_yield(self, eng, env, st, where):
        return self.sh.at_yield(eng, env, st, where)


class Slot:
    def __init__(self, F, rep):
        self.F, self.rep, self.ok = F, rep, False
        self.fn = {}
        self.run_now = None
        self.seen = set()
        self.polls = 0
        for m in ("new", "set_future", "clear_future", "render"):
            g = F.inherent("dynamic_slot::DynamicSlot", m)
            if not rep.anchor(len(g) == 1, "DynamicSlot::" + m, "the method " + m):
                return
            self.fn[m] = g[0]
        fid = self.fn["render"].id
        fs = [f for f in F.fns.values() if f.coroutine and f.id.startswith(fid + "::")]
        if not rep.anchor(len(fs) == 1, "DynamicSlot::render:body", "the body of DynamicSlot::render"):
            return
        self.body = fs[0]
        self.ok = True

    def follow(self, env, v):
        n = 0
        while v[0] == "ref" and env.read(v[1])[0] == "ref" and n < 5:
            v = env.read(v[1])
            n += 1
        return v[1] if v[0] == "ref" else None

    def follow_value(self, env, v):
        n = 0
        while v[0] == "ref" and n < 5:
            v = env.read(v[1])
            n += 1
        return v

    def call(self, fn, vals, env, st, what, eng=None):
        """[(value, env, st)] of a complete call, with what it does to the log kept"""
        env = env.copy()
        base = (eng.base if eng is not None else 0) + 1000
        e = Engine(self.F, SlotMon(self, st), merge=False)
        e.base = base
        e.seconds = 60
        m = e.mon
        args = {}
        for i, v in vals.items():
            if isinstance(v, dict):
                args[i] = v
            else:
                args[i] = v
        e.run(fn, args, env)
        self.rep.engine(e)
        out = []
        for val, e2, s2, eng2, where in m.rets:
            e2 = e2.copy()
            for r in [r for r in e2.m if r[0] == "L" and (isinstance(r[1], int) and r[1] >= base)]:
                del e2.m[r]
            out.append((val, e2, s2))
        return out

    def ops(self, env, st, used=()):
        """the messages that can be sent: a new future, or to clear the slot"""
        cur, fin, msg, task = st.spec
        taken = {cur, msg and msg[1]} | set(used) | {x[1] for x in st.log if x[0] == "sent"}
        new = next(n for n in NAMES if n not in taken)
        return [("set_future", new), ("clear_future", None)]

    def sent(self, st, op, arg, story, before):
        """what sending a message must do: (new state, or None when it is wrong)"""
        rep, fn = self.rep, self.fn[op]
        cur, fin, msg, task = before
        new = st.log
        held = [x for x in new if x[0] == "dropped" and x[2]]
        rep.check(not held, "send:free", "%s: %s" % (story, "a future is dropped while the slot is borrowed" if held else
                                                      "nothing is borrowed when a future is dropped"), fn.loc)
        ok = task is None or ("wake", task) in new
        rep.check(ok, "send:wakes", "%s: %s" % (story, "the task that renders the slot is woken" if ok else "the task that renders the slot is not woken"), fn.loc)
        gone = [x[1] for x in new if x[0] == "dropped"]
        bad = [f for f in gone if f not in (cur, msg and msg[1])]
        rep.check(not bad, "send:kept", "%s: %s" % (story, "the future sent is dropped" if bad else "the future sent is kept"), fn.loc)
        return ok and not bad and not held

    def story(self, st):
        cur, fin, msg, task = st.spec
        return "the slot showing %s%s%s" % (cur or "nothing", " (finished)" if fin else "",
                                            "" if msg is None else " with %s sent" % (msg[1] or "clear"))

    def at_yield(self, eng, env, st, where):
        """judge the poll that has ended here, then go on in every way"""
        st = self.judge(env, st, where, "poll")
        if st is None:
            return []
        out = []
        done = set()
        todo = [(env, st)]
        while todo:
            e, s = todo.pop()
            e = e.copy()
            s = prune(e, s.set(log=(), held=()))
            if not s.colls:
                s = s.set(fresh=0)
            e.facts.clear()
            k = (e.freeze(), s)
            if k in done:
                continue
            done.add(k)
            for op, arg in self.ops(e, s):
                story = "%s on %s" % (op, self.story(s))
                r = self.call(self.fn[op], {1: SELF, **({2: {(): tok("future", arg)}} if arg else {})}, e, s, story, eng)
                self.rep.check(bool(r), "send:returns", "%s %s" % (story, "returns" if r else "panics"), self.fn[op].loc)
                for _, e2, s2 in r:
                    if self.sent(s2, op, arg, story, s.spec):
                        cur, fin, msg, task = s.spec
                        todo.append((e2, s2.set(spec=(cur, fin, (op, arg), None))))
            if k in self.seen:
                continue
            self.seen.add(k)
            if len(self.seen) > 2000:
                raise Incomplete("more than 2000 states of the slot")
            for t in ("A", "B"):
                out.append(self.resume(e, s, t))
        return out

    def resume(self, e, s, t):
        e = e.copy()
        wk = (("D", ("task", t)), ())
        e.write(wk, tok("waker", t))
        e.write_tree((CX, ()), {(): ("agg", "adt", "core::task::wake::Context", 0, "Context"), (("f", "waker"),): ("ref", wk)})
        self.polls += 1
        return e, s.set(steps=(t,)), ("ref", (CX, ()))

    def judge(self, env, st, where, what):
        """what a poll must do; the state after it, or None"""
        rep, loc = self.rep, str(where)
        cur, fin, msg, task = st.spec
        t = st.steps[0]
        story = "polling %s" % self.story(st)
        log = list(st.log)
        want = cur if msg is None else msg[1]
        same = want == cur and msg is None
        good = True

        def check(ok, key, text):
            nonlocal good
            good = good and ok
            rep.check(ok, key, "%s: %s" % (story, text), loc)
        borrowed = [x for x in log if x[0] in ("dropped", "polled") and x[-1]]
        check(not borrowed, "poll:free", "a future is %s while the slot is borrowed" % borrowed[0][0] if borrowed else "nothing is borrowed while a future is polled or dropped")
        polled = [x for x in log if x[0] == "polled"]
        others = [x for x in polled if x[1] != want]
        check(not others, "poll:which", "%s is polled" % others[0][1] if others else "no other future is polled")
        finished = fin if same else False
        n = 0
        for x in log:
            if x[0] == "polled" and x[1] == want:
                if finished:
                    check(False, "poll:finished", "%s is polled after it has finished" % want)
                    return None
                n += 1
                if x[2] is None:
                    rep.undecided("poll:waker", "%s: which waker a future is polled with" % story, loc)
                    return None
                check(x[2] == t, "poll:waker", "the future is polled with the waker of this poll" if x[2] == t else "the future is polled with another waker (%s)" % x[2])
            elif x[0] == "ready":
                finished = True
        if want is not None and not (same and fin):
            check(n > 0, "poll:polled", "%s is %spolled" % (want, "" if n else "not "))
        dropped = [x[1] for x in log if x[0] == "dropped"]
        if not same and cur is not None:
            if not dropped.count(cur) == 1:
                there = any(is_tok(v, "future") and v[4] == cur for r, d in env.m.items() for v in d.values())
                if not dropped.count(cur) and not there:
                    pass
                elif there and not dropped.count(cur):
                    check(False, "poll:replaced", "the future that was there is not dropped")
                else:
                    check(False, "poll:replaced", "the future that was there is dropped %d times" % dropped.count(cur))
            else:
                first = next((i for i, x in enumerate(log) if x[0] == "polled"), len(log))
                check(log.index(("dropped", cur, False)) < first if ("dropped", cur, False) in log else True, "poll:replaced", "the future that was there is dropped first")
        early = want is not None and want in dropped and not finished
        check(not early, "poll:kept", "%s is dropped" % want if early else "what was sent last is kept")
        if not good:
            return None
        now = None if want in dropped else want
        # a message sent while the future was polled
        new = None
        woke = False
        for i, x in enumerate(log):
            if x[0] == "sent":
                new = (x[1], x[2])
                woke = ("wake", t) in log[i:] or ("wake", t) in log[:i]
        if new is not None:
            check(woke, "poll:told", "the task is woken when its future changes the slot" if woke else "the task is not woken when its future changes the slot")
            if not woke:
                return None
        return st.set(spec=(now, finished and now is not None, new, None if new else t))


def l05(F, rep):
    """A DynamicSlot renders the future it was given last, and forgets the one before."""
    S = Slot(F, rep)
    if not S.ok:
        return
    try:
        r = S.call(S.fn["new"], {}, Env(), State().set(spec=(None, False, None, None)), "new")
        for val, e, s in r:
            e = e.copy()
            e.write_tree((SLOT, ()), val)
            # before it is rendered, anything may have been sent
            starts = [(e, s.set(log=()))]
            seen = set()
            todo = list(starts)
            while todo:
                e1, s1 = todo.pop()
                k = (e1.freeze(), s1)
                if k in seen or len(seen) > 60:
                    continue
                seen.add(k)
                for op, arg in S.ops(e1, s1):
                    story = "%s on a slot that is not rendered, %s" % (op, S.story(s1))
                    r2 = S.call(S.fn[op], {1: SELF, **({2: {(): tok("future", arg)}} if arg else {})}, e1, s1, story)
                    rep.check(bool(r2), "send:returns", "%s %s" % (story, "returns" if r2 else "panics"), S.fn[op].loc)
                    for _, e2, s2 in r2:
                        if S.sent(s2, op, arg, story, s1.spec):
                            e2 = e2.copy()
                            s2 = prune(e2, s2.set(log=(), held=()))
                            e2.facts.clear()
                            todo.append((e2, s2.set(spec=(None, False, (op, arg), None))))
                e3, s3, v = S.resume(e1, s1, "A")
                m = SlotMon(S, s3)
                eng = Engine(F, m, merge=False)
                eng.seconds = 100
                cap = {(): ("agg", "coroutine", S.body.id, 0, ""), (("f", "^self"),): SELF}
                selfref = (("D", ("the coroutine",)), ())
                e3.write_tree(selfref, cap)
                eng.run(S.body, {1: cap if S.body.ty(1).k != "ref" else ("ref", selfref), 2: v}, e3)
                rep.engine(eng)
                rep.check(not m.rets, "ends", "rendering a slot %s" % ("never ends" if not m.rets else "ends"), S.body.loc)
    except Incomplete as x:
        rep.undecided("slot", str(x), S.body.loc)
    rep.count("states of the slot", len(S.seen))
    rep.count("polls", S.polls)
    rep.floor("states of the slot", len(S.seen), 8)
