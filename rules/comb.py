"""Combinators (join, race, try_join, race_ok over tuples, arrays and Vecs): the poll, wake and drop code is explored
path-sensitively from the compiler's MIR for every combinator type, loops to a fixpoint; what each iteration of the
poll loop reads and writes is compared with the slot/waker protocol."""
from absint import Monitor, Engine, Incomplete, TOP, Env, neg, FakeFn
import json
from precise import last_range, EMPTY, length_of

CRATE = "async_ui_web_core"


# ------------------------------------------------------------------ structure
def isname(ty, *names):
    return ty is not None and ty.k == "adt" and ty.n.split("::")[-1] in names


def type_mentions(ty, name, depth=0):
    if ty is None or isinstance(ty, str) or depth > 8:
        return False
    if ty.k == "adt" and ty.n.split("::")[-1] == name:
        return True
    return any(type_mentions(a, name, depth + 1) for a in ty.a) or type_mentions(ty.t, name, depth + 1)


def elem_ty(ty):
    if ty.k in ("array", "slice"):
        return ty.t
    if isname(ty, "Vec", "VecDeque") and ty.a:
        return ty.a[0]
    return None


def fields(F, n):
    a = F.adts.get(n)
    if a is None or a["kind"] != "Struct":
        return None
    return [(f["name"], a["crate"].tys[f["ty"]]) for f in a["variants"][0]["fields"]]


def local(F, ty):
    return ty is not None and ty.k == "adt" and ty.n in F.adts


class Roles:
    """which field of a combinator plays which part, decided by type"""

    def __init__(self, F, n):
        self.F, self.n = F, n
        self.paths = {}     # role -> [path]
        self.ty = {}
        self.walk((), n, 0)

    def add(self, role, path, ty):
        self.paths.setdefault(role, []).append(path)
        self.ty[path] = ty

    def walk(self, path, n, depth):
        for nm, ty in fields(self.F, n) or ():
            p = path + (("f", nm),)
            e = elem_ty(ty)
            if type_mentions(ty, "MaybeUninit"):
                self.add("items", p, ty)
            elif (e is not None and e.s == "bool") or isname(ty, "BitVec"):
                self.add("filled", p, ty)
            elif e is not None and e.s == "usize":
                self.add("buffer", p, ty)
            elif ty.s == "usize":
                self.add("pending", p, ty)
            elif isname(ty, "DetachmentBlocker"):
                self.add("blocker", p, ty)
            elif local(self.F, ty) and self.has_arc(ty.n):
                self.add("wakers", p, ty)
            elif isname(ty, "PhantomData"):
                pass
            elif local(self.F, ty) and depth < 2 and not self.is_futures(ty.n):
                self.walk(p, ty.n, depth + 1)
            else:
                self.add("futures", p, ty)

    def has_arc(self, n):
        return any(isname(t, "Arc") for _, t in fields(self.F, n) or ())

    def is_futures(self, n):
        fs = fields(self.F, n) or []
        return bool(fs) and all(t.k == "param" for _, t in fs)

    def one(self, role):
        p = self.paths.get(role, [])
        return p[0] if len(p) == 1 else None

    def ok(self):
        return [r for r in ("items", "filled", "pending", "wakers", "futures") if self.one(r) is None]


class WakeRoles:
    """the readiness record shared by the wakers: flag set, index list, (length), parent waker"""

    def __init__(self, F, wakers_ty):
        self.F = F
        self.inner = None
        self.inner_path = self.vec_path = None
        for nm, t in fields(F, wakers_ty.n) or ():
            if isname(t, "Arc") and t.a and local(F, t.a[0]):
                self.inner_path, self.inner = (("f", nm),), t.a[0].n
            e = elem_ty(t)
            if isname(e, "Waker"):
                self.vec_path = (("f", nm),)
        self.roles = {}
        self.list_is_vec = False
        self.rec = None
        self.redirect = None
        for nm, t in (fields(F, self.inner) or ()) if self.inner else ():
            if isname(t, "Mutex", "RefCell") and t.a and local(F, t.a[0]):
                self.rec = t.a[0].n
                self.lock_path = (("f", nm),)
            e = elem_ty(t)
            if e is not None and e.k == "ptr":
                self.redirect = (("f", nm),)
        for nm, t in (fields(F, self.rec) or ()) if self.rec else ():
            e = elem_ty(t)
            r = None
            if (e is not None and e.s == "bool") or isname(t, "BitVec"):
                r = "set"
            elif e is not None and e.s == "usize":
                r = "list"
                self.list_is_vec = t.k == "adt"
            elif t.s == "usize":
                r = "len"
            elif isname(t, "Waker"):
                r = "parent"
            if r:
                self.roles.setdefault(r, []).append((("f", nm),))

    def one(self, r):
        p = self.roles.get(r, [])
        return p[0] if len(p) == 1 else None

    def missing(self):
        return [r for r in ("set", "list", "parent") if self.one(r) is None] + \
               ([] if self.list_is_vec or self.one("len") else ["len"]) + \
               ([] if self.inner_path and self.vec_path and self.rec else ["shared"])


def combinators(F, rep):
    """every local type with a Future impl that stores results in MaybeUninit slots"""
    out = []
    for i in F.trait_impls("Future"):
        ty = i["self_ty"]
        if ty.k != "adt" or ty.n not in F.adts:
            continue
        fs = fields(F, ty.n)
        if not fs or i["crate"].name != CRATE:
            continue
        R = Roles(F, ty.n)
        if "items" in R.paths and "wakers" in R.paths:
            fn = F.impl_fn(i, "poll")
            if fn is not None:
                out.append((ty.n, fn, R))
    return sorted(out, key=lambda x: x[0])


def short(n):
    return n.split("::")[-1]


# ------------------------------------------------------------------ value predicates
def self_loc(path):
    return (("D", ("init", (("L", 0, 1), ()))), path)


def strip_copy(v):
    while v[0] in ("clone", "copied"):
        v = v[1]
    return v


def canon(eng, env, v):
    k = eng.known(env, v) if v != TOP else None
    return ("i", k) if k is not None else v


def same(a, b):
    while isinstance(a, tuple) and a[:2] == ("op", "cast"):
        a = a[2]
    while isinstance(b, tuple) and b[:2] == ("op", "cast"):
        b = b[2]
    return a == b and a != TOP


MAYBE = "maybe_return"
DONE = "when_completed"


class St(tuple):
    phase = property(lambda s: s[0])
    locks = property(lambda s: s[1])
    pre = property(lambda s: s[2])
    cur = property(lambda s: s[3])
    info = property(lambda s: s[4])

    def put(self, **k):
        return St((k.get("phase", self[0]), k.get("locks", self[1]), k.get("pre", self[2]), k.get("cur", self[3]),
                   k.get("info", self[4])))


class FindLoop(Monitor):
    """pass 1: which loop hands out the index a child is polled with"""
    precise = True

    def __init__(self, R):
        self.R = R
        self.sites = set()
        self.polls = 0

    def results(self, eng, ev, env, st):
        if ev.key == "Future::poll":
            s = slot_of(self.R, ev.args[0])
            if s is not None:
                self.polls += 1
                for x in item_sites(s if s[0] != "field" else TOP):
                    self.sites.add(x)
                if s[0] == "field" or not item_sites(s):
                    for f in env.facts:
                        for x in item_sites(f):
                            self.sites.add(x)
                P = "core::task::poll::Poll"
                return [({(): ("agg", "adt", P, 1, "Pending")}, st, False)]
        return None


def item_sites(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if len(v) == 3 and v[:2] == ("op", "pos") and isinstance(v[2], tuple) and v[2][0] == "sym":
            out.add(v[2][1])
        for x in v:
            item_sites(x, out)
    return out


def slot_of(R, v):
    """the slot a pinned child reference denotes: an index value, or ("field", name) of the futures struct"""
    base = self_loc(R.one("futures"))
    if v[0] != "ref" or v[1][0] != base[0]:
        return None
    p, b = v[1][1], base[1]
    if p[: len(b)] != b or len(p) != len(b) + 1:
        return None
    e = p[len(b)]
    if e[0] == "ix":
        return e[1]
    if e[0] == "f":
        return ("field", e[1])
    return None


class PollMon(Monitor):
    precise = True

    def __init__(self, rep, name, R, W, sites, want):
        self.rep, self.name, self.R, self.W, self.sites, self.want = rep, name, R, W, sites, want
        self.seen = {}
        self.order = None
        self.rets = 0

    # ---- reporting (each finding belongs to one property)
    def bad(self, prop, key, msg, where):
        if prop == self.want:
            self.rep.violation("%s:%s" % (self.name, key), "%s: %s" % (short(self.name), msg), str(where))

    def good(self, prop, key, where):
        if prop == self.want:
            k = (key, str(where))
            if k not in self.seen:
                self.seen[k] = True
                self.rep.ok("%s:%s" % (short(self.name), key), str(where))

    def unsure(self, prop, key, why, where):
        if prop == self.want:
            k = ("?", key)
            if k not in self.seen:
                self.seen[k] = True
                self.rep.undecided("%s:%s" % (short(self.name), key), why, str(where))

    def claim(self, cond, prop, key, msg, where):
        (self.good(prop, key, where) if cond else self.bad(prop, key, msg, where))
        return cond

    # ---- places
    def role(self, loc):
        if loc[0] == self_loc(())[0]:
            for r, ps in self.R.paths.items():
                for p in ps:
                    if loc[1][: len(p)] == p:
                        return r, loc[1][len(p):]
            return "self", loc[1]
        if "cell" in loc[1]:
            i = loc[1].index("cell")
            rest = loc[1][i + 1:]
            for r, ps in self.W.roles.items():
                for p in ps:
                    if rest[: len(p)] == p and self.is_rec(loc):
                        return "R." + r, rest[len(p):]
        return None, loc[1]

    def rec_loc(self):
        """the readiness record: (*self.wakers.inner).lock"""
        base = self_loc(self.R.one("wakers") + self.W.inner_path)
        return (("D", ("init", base)), self.W.lock_path + ("cell",))

    def is_rec(self, loc):
        b = self.rec_loc()
        return loc[0] == b[0] and loc[1][: len(b[1])] == b[1]

    def rloc(self, role, rest=()):
        b = self.rec_loc()
        return (b[0], b[1] + self.W.one(role) + rest)

    # ---- events
    def init(self, eng, env):
        return St(("pre", (), (), (), None))

    def add(self, st, ev):
        if st.phase == "pre":
            return st.put(pre=st.pre + (ev,)) if ev not in st.pre[-1:] else st
        return st.put(cur=st.cur + (ev,)) if ev not in st.cur[-1:] else st

    def on_acquire(self, eng, g, env, st, where):
        if self.is_rec(g[2]):
            return self.add(st.put(locks=st.locks + (g,)), ("lock",))
        return st

    def on_release(self, eng, g, env, st, where):
        if g in st.locks:
            return self.add(st.put(locks=tuple(x for x in st.locks if x != g)), ("unlock",))
        return st

    def on_store(self, eng, loc, val, env, st, where):
        r, rest = self.role(loc)
        if r in (None, "self", "buffer", "futures", "wakers", "blocker"):
            return st
        rest = tuple(("ix", canon(eng, env, e[1])) if e[0] == "ix" else e for e in rest)
        if r.startswith("R.") and r != "R.set" and any(e[0] == "ix" for e in rest):
            pass
        return self.add(st, ("store", r, rest, canon(eng, env, val) if r != "pending" else val))

    def results(self, eng, ev, env, st):
        P = "core::task::poll::Poll"
        CF = "core::ops::control_flow::ControlFlow"
        if ev.key == "Future::poll":
            s = slot_of(self.R, ev.args[0])
            if s is None:
                return None
            st = self.polled(eng, ev, env, st, s)
            pay = eng.sym(env, ev.ctx, ev.block, "Future::poll", (), "pay")
            s = canon(eng, env, s)
            return [({(): ("agg", "adt", P, 0, "Ready"), (("v", "Ready"), ("f", "0")): pay}, self.add(st, ("poll", s, "Ready", pay)), False),
                    ({(): ("agg", "adt", P, 1, "Pending")}, self.add(st, ("poll", s, "Pending", None)), False)]
        if ev.key == "Waker::will_wake":
            a = [x[1] if x[0] == "ref" else None for x in ev.args]
            mine = self.cx_waker()[1]
            if self.rloc("parent") in a and mine in a:
                return [({(): ("i", 1)}, self.add(st, ("same-waker",)), False), ({(): ("i", 0)}, st, False)]
        if ev.key.endswith("::" + MAYBE):
            i, v = canon(eng, env, ev.args[0]), ev.args[1]
            a = eng.sym(env, ev.ctx, ev.block, MAYBE, (), "mb")
            return [({(): ("agg", "adt", CF, 0, "Continue"), (("v", "Continue"), ("f", "0")): a}, self.add(st, ("maybe", i, v, "Continue", a)), False),
                    ({(): ("agg", "adt", CF, 1, "Break"), (("v", "Break"), ("f", "0")): a}, self.add(st, ("maybe", i, v, "Break", a)), False)]
        if ev.key.endswith("::" + DONE):
            return [(None, self.add(st, ("done", tuple(sorted(ev.trees[0].items(), key=repr)))), False)]
        return None

    def on_call(self, eng, ev, env, st):
        if any(ev.key.endswith(d) for d in DROPS):
            return self.add(st, ("dropcall", ev.key))
        return st

    # ---- loops
    def main(self, eng):
        c, b = eng.at
        return ("@", c.id, b, "") in self.sites

    def on_next(self, eng, it, env, st, where):
        if self.main(eng):
            if st.phase == "pre":
                self.check_pre(eng, env, st, it, where)
                return st.put(phase="between", pre=(), cur=())
            if st.phase == "iter":
                if not self.end_iter(eng, env, st, where):
                    return None
                return st.put(phase="between", cur=())
            return st
        return self.close_loop(st, it)

    def on_item(self, eng, it, item, env, st, where):
        if self.main(eng):
            p, f, i = self.forget(eng, env)
            return st.put(phase="iter", cur=(), info=(it, item, p, f, i))
        return self.add(st, ("item", it, item))

    def forget(self, eng, env):
        """the bookkeeping at the start of an arbitrary iteration (and after the loop) is unknown"""
        out = []
        for r in ("pending", "filled", "items"):
            v = ("sym", ("@", "iter", r), r, ())
            eng.purge(env, v[1])
            env.write(self_loc(self.R.one(r)), v)
            out.append(v)
        return out

    def on_end(self, eng, it, env, st, where):
        if self.main(eng):
            if st.phase == "pre":
                self.check_pre(eng, env, st, it, where)
            elif st.phase == "iter":
                if not self.end_iter(eng, env, st, where):
                    return None
                self.forget(eng, env)
            return st.put(phase="post", pre=(), cur=(), info=(env.read(self_loc(self.R.one("pending"))),
                                                              env.read(self_loc(self.R.one("items")))))
        st = self.close_loop(st, it)
        return self.add(st, ("end", it))

    def close_loop(self, st, it):
        """summarise the finished iteration of an inner loop so that repeating it adds nothing"""
        ev = st.pre if st.phase == "pre" else st.cur
        for n in range(len(ev) - 1, -1, -1):
            if ev[n][0] == "item" and ev[n][1] == it:
                body = tuple(subst_item(e, ev[n][2]) for e in ev[n + 1:])
                new = ("iteration", it, body)
                rest = ev[:n]
                if new not in rest:
                    rest = rest + (new,)
                return st.put(pre=rest) if st.phase == "pre" else st.put(cur=rest)
            if ev[n][0] in ("iteration", "end") and ev[n][1] == it:
                break
        return st

    # ---- the awake list
    def is_list(self, v):
        v = strip_copy(v)
        if v[0] == "init":
            loc = v[1]
            r, rest = self.role(loc)
            return r == "R.list" and all(e[0] == "ix" and isinstance(e[1], tuple) and e[1][0] == "range" for e in rest)
        return False

    def len_ok(self, v):
        """the value is the number of queued indices"""
        if self.W.list_is_vec:
            l = ("init", self.rloc("list"))
            return v[:2] == ("op", "Len") and self.is_list(v[2])
        return v[0] == "init" and self.role(v[1]) == ("R.len", ())

    def covers(self, eng, it, env):
        """does the loop visit every queued index: yes / no (a reason) / None"""
        if it[0] != "op":
            return None
        k = it[1]
        if k in ("copied", "cloned", "peekable", "rev", "enumerate"):
            return self.covers(eng, it[2], env)
        if k == "take":
            return self.count_ok(it[3]) if self.covers(eng, it[2], env) == "yes" else self.covers(eng, it[2], env)
        if k in ("skip",):
            if it[3][0] == "i" and it[3][1] > 0:
                return "the first %d queued children are skipped" % it[3][1]
            return None
        if k == "step_by":
            return "queued children are stepped over"
        if k == "iter":
            x = it[2]
            if x[0] == "ref":
                rg = last_range(x[1][1])
                if rg is not None:
                    return self.range_ok(rg)
                return "yes"
            if x[0] == "tree":
                d = dict(x[1])
                a, b = d.get((("f", "start"),)), d.get((("f", "end"),))
                if a is None or b is None:
                    return None
                return self.range_ok(("range", b, a, "Range"))
            return "yes"
        return None

    def range_ok(self, rg):
        k = rg[-1]
        if k == "RangeFull":
            return "yes"
        if k == "RangeTo":
            return self.count_ok(rg[1])
        if k == "Range":
            if rg[2][0] == "i" and rg[2][1] > 0:
                return "the first %d queued children are skipped" % rg[2][1]
            return self.count_ok(rg[1]) if rg[2] == ("i", 0) else None
        if k == "RangeFrom":
            return "yes" if rg[1] == ("i", 0) else ("queued children are skipped" if rg[1][0] == "i" else None)
        return None

    def count_ok(self, n):
        if self.len_ok(n):
            return "yes"
        if n[0] == "i":
            return "at most %d queued children are polled" % n[1]
        if n[:2] == ("op", "Add") and self.len_ok(n[2]) and n[3][1] < 0:
            return "the last queued child is not polled"
        return None

    def awake_index(self, v, item):
        """v is the queued index handed out by this iteration"""
        v = v[2] if v[:2] == ("op", "cast") else v
        if v[0] == "proj" and len(v[2]) == 1 and v[2][0][0] == "ix" and self.is_list(v[1]):
            return v[2][0][1] == ("op", "pos", item) or v[2][0][1] == item
        if v[0] == "init" and self.role(v[1])[0] == "R.list" and v[1][1] and v[1][1][-1][0] == "ix":
            return v[1][1][-1][1] in (("op", "pos", item), item)
        return False

    # ---- obligations
    def check_pre(self, eng, env, st, it, where):
        ev = st.pre
        C = "C01"
        locks = [n for n, e in enumerate(ev) if e == ("lock",)]
        if not locks:
            self.bad(C, "no-lock", "children are polled without first taking the list of woken children", where)
            return
        stores = [(n, e) for n, e in enumerate(ev) if e[0] == "store"]
        # parent waker
        ok = None
        ps = [e for n, e in stores if e[1] == "R.parent"]
        mine = self.cx_waker()
        if ps:
            v = ps[-1][3]
            ok = v[0] == "clone" and v[1] == mine
            if not ok and contains(v, mine):
                ok = True
            if not ok:
                ok = False if v != TOP and v[0] != "sym" else None
        else:
            ok = ("same-waker",) in ev
        if ok is None:
            self.unsure(C, "parent-waker", "the registered waker could not be identified", where)
        else:
            self.claim(ok, C, "parent-waker", "a poll can start children without registering the waker of the current context", where)
        # list copied, then cleared, then set cleared
        cov = self.covers(eng, it, env)
        if cov == "yes":
            self.good(C, "covers-list", where)
        elif cov is None:
            self.unsure(C, "covers-list", "loop over %s" % (repr(it)[:80],), where)
        else:
            self.bad(C, "covers-list", cov, where)
        # cleared
        if self.W.list_is_vec:
            cur = env.read(self.rloc("list"))
            cleared = cur == EMPTY or env.tree(self.rloc("list")).get(()) == EMPTY
        else:
            cleared = env.read(self.rloc("len")) == ("i", 0)
        self.claim(cleared, C, "list-cleared", "the list of woken children is not emptied before the children are polled", where)
        sc = self.set_cleared(eng, env, ev)
        if sc is None:
            self.unsure(C, "set-cleared", "how the woken flags are reset could not be followed", where)
        else:
            self.claim(sc, C, "set-cleared", "the woken flag of some queued child is not reset before it is polled, so its next wake-up is swallowed", where)
        self.claim(not st.locks, C, "lock-released", "the wake list is still locked while children are polled", where)
        n = sum(1 for e in ev if e == ("lock",))
        self.claim(n == 1, C, "one-region", "the waker is registered and the wake list is taken in %d separate lock regions" % n, where) if n == 1 else \
            self.region_gap(ev, where)

    def region_gap(self, ev, where):
        # registering the waker after the list was cleared leaves a window in which a wake is lost
        regs = []
        cur = None
        for e in ev:
            if e == ("lock",):
                cur = []
                regs.append(cur)
            elif e == ("unlock",):
                cur = None
            elif cur is not None:
                cur.append(e)
        clear = [i for i, r in enumerate(regs) if any(e[0] == "store" and e[1] in ("R.len", "R.list") for e in r)]
        par = [i for i, r in enumerate(regs) if any(e[0] == "store" and e[1] == "R.parent" for e in r)]
        if clear and par and par[-1] > clear[0]:
            self.bad("C01", "one-region", "the wake list is emptied in an earlier lock region than the one that registers the new waker", where)
        else:
            self.unsure("C01", "one-region", "several lock regions", where)

    def cx_waker(self):
        cx = (("D", ("init", (("L", 0, 2), ()))), (("f", "waker"),))
        return ("init", (("D", ("init", cx)), ()))

    def set_cleared(self, eng, env, ev):
        whole = env.read(self.rloc("set"))
        if whole[0] == "repeat" and whole[1] == ("i", 0):
            t = env.tree(self.rloc("set"))
            if all(v == ("i", 0) for p, v in t.items() if p):
                return True
        its = {}
        ended = set()
        for e in ev:
            if e[0] == "iteration":
                its.setdefault(e[1], []).append(e[2])
            if e[0] == "end":
                ended.add(e[1])
        good = None
        for it in ended:
            bodies = its.get(it, [])
            src = self.loop_source(it)
            if src is None:
                continue
            cov = self.covers(eng, it, env)
            okb = all(any(x[0] == "store" and x[1] == "R.set" and x[3] == ("i", 0) and self.idx_of_item(x[2]) for x in b) for b in bodies)
            anyb = any(any(x[0] == "store" and x[1] == "R.set" for x in b) for b in bodies)
            if not bodies:
                # the loop ran no iteration on this path: nothing was queued
                good = True
            elif okb and cov == "yes":
                good = True
            elif anyb:
                return False if (cov is not None or not okb) else None
        if good:
            return True
        if any(e[0] == "store" and e[1] == "R.set" for e in ev):
            return None
        return False

    def loop_source(self, it):
        """the loop goes over the queued indices"""
        x = it
        while x[0] == "op" and x[1] in ("copied", "cloned", "take", "peekable", "rev", "enumerate"):
            x = x[2]
        if x[0] == "op" and x[1] == "iter":
            y = x[2]
            if y[0] == "ref":
                r, rest = self.role(y[1])
                return r if r in ("R.list", "buffer") else None
            if self.is_list(y):
                return "R.list"
        return None

    def idx_of_item(self, rest):
        return len(rest) == 1 and rest[0][0] == "ix" and contains(rest[0][1], ("op", "pos", "ITEM"))

    def polled(self, eng, ev, env, st, slot):
        where = ev.loc
        if st.phase != "iter":
            self.unsure("C01", "poll-outside-loop", "a child is polled outside the loop over woken children", where)
            return st
        it, item, p, f, i = st.info
        n = slot
        if slot[0] == "field":
            if self.order is None or slot[1] not in self.order:
                self.unsure("C04", "slot", "unknown child %s" % (slot,), where)
                return st
            n = ("i", self.order.index(slot[1]))
        k = self.handed(eng, env, item)
        sl = canon(eng, env, n)
        # same child as the queued index
        good = k is not None and (same(canon(eng, env, k), sl))
        if k is None and not self.awake_index(n, item):
            self.unsure("C04", "slot", "the polled child's index was not recognised", where)
        else:
            self.claim(good or self.awake_index(n, item), "C04", "slot", "the child polled is not the one whose wake-up was taken from the list", where)
        # not completed
        if slot[0] == "field" and k is not None:
            fi = [k, n]
        else:
            fi = [n]
        fl = self_loc(self.R.one("filled"))
        kn = None
        for x in fi:
            v = env.read((fl[0], fl[1] + (("ix", x),)))
            kk = eng.known(env, v)
            kn = kk if kk is not None else kn
        self.claim(kn == 0, "C02", "poll-only-unfinished", "a child is polled without having been found unfinished", where)
        # waker
        w = self.waker_index(env, ev.args[1])
        if w is None:
            self.unsure("C04", "waker", "the waker passed to the child could not be identified", where)
        elif w == "parent":
            self.bad("C04", "waker", "the child is polled with the combinator's own waker instead of the child's", where)
        else:
            self.claim(same(canon(eng, env, w), sl), "C04", "waker", "the child is polled with another child's waker", where)
        # rendering context
        self.check_ctx(eng, env, sl, where)
        self.claim(not st.locks, "C01", "poll-unlocked", "a child is polled while the wake list is locked", where)
        return st

    def handed(self, eng, env, item):
        """the index value this iteration works on"""
        cands = set()
        for r, d in env.m.items():
            for p, v in d.items():
                collect_idx(v, cands)
                collect_idx(p, cands)
            collect_idx(r, cands)
        for f in env.facts:
            collect_idx(f, cands)
        c = [v for v in cands if self.awake_index(v, item)]
        return c[0] if c else None

    def waker_index(self, env, cx):
        if cx[0] != "ref":
            return None
        if cx[1][0] == ("D", ("init", (("L", 0, 2), ()))) or cx == ("init", (("L", 0, 2), ())):
            return "parent"
        w = env.read((cx[1][0], cx[1][1] + (("f", "waker"),)))
        if w[0] != "ref":
            return "parent" if w == ("init", (("D", ("init", (("L", 0, 2), ()))), (("f", "waker"),))) else None
        b = self_loc(self.R.one("wakers") + self.W.vec_path)
        if w[1][0] == b[0] and w[1][1][: len(b[1])] == b[1] and len(w[1][1]) == len(b[1]) + 1 and w[1][1][-1][0] == "ix":
            return w[1][1][-1][1]
        if w[1] == (("D", ("init", (("D", ("init", (("L", 0, 2), ()))), (("f", "waker"),)))), ()):
            return "parent"
        return None

    def check_ctx(self, eng, env, sl, where):
        if not env.tls:
            self.bad("C04", "context", "the child is polled without a rendering context of its own", where)
            return
        v = env.tls[-1][1]
        if v[0] != "ref":
            self.unsure("C04", "context", "unknown rendering context", where)
            return
        t = env.tree(v[1])
        top = t.get((), TOP)
        if top[0] != "agg" or top[4] != "Child":
            self.bad("C04", "context", "the child's rendering context is not a child position", where)
            return
        idx = par = None
        for q, x in t.items():
            if len(q) == 2 and q[0] == ("v", "Child"):
                if q[1][1] == "index":
                    idx = x
                if q[1][1] == "parent":
                    par = x
        while idx is not None and idx[0] == "op" and idx[1] == "cast":
            idx = idx[2]
        outer = env.tls[-2][1] if len(env.tls) > 1 else ("ctx0",)
        if idx is None or par is None:
            self.unsure("C04", "context", "unknown fields", where)
            return
        self.claim(same(canon(eng, env, idx), sl), "C04", "context-index", "the child renders at another child's position", where)
        self.claim(par == outer or par == ("ref", (("D", outer), ())) or (par[0] == "ref" and par[1] == (("D", ("ctx0",)), ())), "C04", "context-parent",
                   "the child's position is not nested in the combinator's own position", where)

    def end_iter(self, eng, env, st, where):
        """an iteration of the poll loop is over (without returning)"""
        it, item, p, f, i = st.info
        ev = st.cur
        polls = [e for e in ev if e[0] == "poll"]
        maybes = [e for e in ev if e[0] == "maybe"]
        stores = [e for e in ev if e[0] == "store"]
        k = self.handed(eng, env, item)
        fl = self_loc(self.R.one("filled"))
        pend = env.read(self_loc(self.R.one("pending")))
        touched = [e for e in stores if e[1] in ("pending", "filled", "items")]
        if not polls:
            done = False
            for fct, x in env.facts.items():
                if fct[0] == "proj" and fct[1] == f and x == ("eq", 1):
                    done = True
            self.claim(done, "C01", "polled-if-unfinished", "a woken child that has not finished can be passed over", where)
            self.claim(not touched, "C02", "idle-iteration", "bookkeeping changes although no child was polled", where)
            return True
        if len(polls) > 1:
            self.unsure("C02", "one-poll", "several polls in one iteration", where)
            return True
        _, slot, res, pay = polls[0]
        if res == "Pending":
            self.claim(not maybes and not touched, "C02", "pending-child", "bookkeeping changes although the child is still pending", where)
            return True
        if not maybes:
            self.bad("C02", "result-kept", "the output of a finished child is dropped", where)
            return True
        if len(maybes) > 1:
            self.bad("C02", "result-once", "the output of one child is judged more than once", where)
            return True
        _, mi, mv, out, store = maybes[0]
        self.judged(mi, mv, slot, pay, where)
        if out == "Break":
            self.bad("C02", "early-return", "the combinator goes on after a child's output asked for an early return", where)
            return True
        sl = self.slot_ix(slot)
        its = [e for e in stores if e[1] == "items"]
        fis = [e for e in stores if e[1] == "filled"]
        self.claim(len(its) == 1 and self.item_slot(its[0][2], sl, k) and its[0][3] == store, "C02", "store-item",
                   "the output of a finished child is not stored exactly once, in the child's own slot", where)
        self.claim(len(fis) >= 1 and all(self.item_slot(e[2], sl, k) for e in fis) and fis[-1][3] == ("i", 1), "C02", "mark-filled",
                   "a finished child's slot is not marked as filled", where)
        self.claim(eng.binop(env, "Add", p, ("i", -1)) == pend, "C02", "count-down",
                   "the count of unfinished children does not go down by exactly one when a child finishes", where)
        return True

    def slot_ix(self, slot):
        if slot[0] == "field" and self.order and slot[1] in self.order:
            return ("i", self.order.index(slot[1]))
        return slot

    def item_slot(self, rest, sl, k):
        if not rest:
            return False
        e = rest[0]
        if e[0] == "ix":
            return same(e[1], sl) or (k is not None and same(e[1], k))
        if e[0] == "f":
            return sl == ("i", int(e[1])) if e[1].isdigit() else False
        return False

    def judged(self, mi, mv, slot, pay, where):
        self.claim(mv == pay, "C04", "judge-own-output", "a value other than the finished child's output is judged", where)
        sl = self.slot_ix(slot)
        if same(mi, sl):
            self.good("C04", "judge-index", where)
        elif mi[0] == "i" and sl[0] == "i":
            self.bad("C04", "judge-index", "a child's output is judged under another child's index", where)
        else:
            self.unsure("C04", "judge-index", "index not recognised", where)

    def on_return(self, eng, val, env, st, where):
        self.rets += 1
        v = val[()]
        ready = v[0] == "agg" and v[4] == "Ready"
        pending = v[0] == "agg" and v[4] == "Pending"
        if not ready and not pending:
            self.unsure("C02", "result", "returned value not recognised", where)
            return st
        if st.phase == "pre":
            if pending:
                pe = any(f[0] == "cst" and "PEND_IF_EMPTY" in repr(f) and x == ("eq", 1) for f, x in env.facts.items())
                z = self.zero_children(eng, env)
                self.claim(pe and z, "C01", "early-pending", "poll gives up before registering the waker although there are children to wait for", where)
            else:
                self.check_done(eng, env, st, val, st.pre, (env.read(self_loc(self.R.one("pending"))), None), where)
            return st
        if st.phase == "iter":
            ev = st.cur
            maybes = [e for e in ev if e[0] == "maybe"]
            polls = [e for e in ev if e[0] == "poll"]
            if pending:
                self.bad("C01", "gives-up", "poll returns while queued wake-ups are still unprocessed", where)
                return st
            if len(maybes) == 1 and len(polls) == 1:
                _, mi, mv, out, x = maybes[0]
                self.judged(mi, mv, polls[0][1], polls[0][3], where)
                pl = val.get((("v", "Ready"), ("f", "0")))
                self.claim(out == "Break" and pl == x, "C02", "break-value",
                           "poll resolves early with something other than the value a child's output asked for", where)
                self.check_break(ev, where)
            else:
                self.bad("C02", "break-value", "poll resolves in the middle of the loop without a child asking for it", where)
            return st
        if st.phase == "post":
            if ready:
                self.check_done(eng, env, st, val, st.cur, st.info, where)
            else:
                k = eng.known(env, st.info[0])
                self.claim(eng.excluded(env, st.info[0], 0) or (k is not None and k != 0), "C02", "pending-means-unfinished",
                           "poll can report Pending although every child has finished", where)
        return st

    def check_break(self, ev, where):
        """an early end leaves the outputs stored so far to Drop"""
        touched = [e for e in ev if e[0] == "store" and e[1] in ("items", "filled")]
        if not touched:
            self.good("C02", "break-keeps-stored", where)
        elif any(e[1] == "filled" and e[3] == ("i", 1) for e in touched) and not any(e[1] == "items" for e in touched):
            self.bad("C02", "break-keeps-stored", "an early end marks a slot as filled that is not", where)
        elif not any(e[0] == "dropcall" for e in ev):
            self.bad("C02", "break-keeps-stored", "an early end forgets outputs of other children without dropping them", where)
        else:
            self.unsure("C02", "break-keeps-stored", "bookkeeping changes on an early end", where)

    def zero_children(self, eng, env):
        for f, x in env.facts.items():
            if x != ("eq", 0):
                continue
            if f == ("init", self_loc(self.R.one("pending"))) or f[0] == "cst" and "PEND_IF_EMPTY" not in repr(f):
                return True
            if f[:2] == ("op", "Len"):
                return True
        return False

    def check_done(self, eng, env, st, val, ev, info, where):
        p, items = info
        self.claim(eng.known(env, p) == 0, "C02", "done-means-all", "poll can report completion while children are unfinished", where)
        done = [e for e in ev if e[0] == "done"]
        if len(done) != 1:
            self.unsure("C02", "done-value", "completion value not recognised", where)
            return
        n = ev.index(done[0])
        before = [e for e in ev[:n] if e[0] == "store" and e[1] == "filled"]
        f = env.read(self_loc(self.R.one("filled")))
        cleared = (f[0] == "repeat" and f[1] == ("i", 0)) or f == EMPTY
        if not cleared and any(e[0] == "iteration" and any(x[0] == "store" and x[1] == "filled" for x in e[2]) for e in ev[:n]):
            self.unsure("C02", "unmark-first", "slots are unmarked one by one", where)
        else:
            self.claim(cleared and bool(before), "C02", "unmark-first",
                       "the stored outputs are handed out while their slots are still marked as filled (they would be dropped again)", where)
        if items is not None:
            tree = dict(done[0][1])
            v = tree.get((), TOP)
            if v[0] == "agg" and v[1] == "tuple":
                good = True
                n = 0
                while (("f", str(n)),) in tree:
                    x = tree[(("f", str(n)),)]
                    want = [("proj", items, (("f", str(n)),))]
                    if items[0] == "init":
                        want.append(("init", (items[1][0], items[1][1] + (("f", str(n)),))))
                    good = good and x in want
                    n += 1
                self.claim(good and n > 0, "C02", "done-order", "the stored outputs are not handed out in the order of the children", where)
            elif v == items:
                self.good("C02", "done-order", where)
            elif v == TOP or v[0] == "sym":
                self.unsure("C02", "done-order", "the completion argument could not be followed", where)
            else:
                self.bad("C02", "done-order", "the completion value is not made from the stored outputs", where)
        r = val.get((("v", "Ready"), ("f", "0")), TOP)
        self.claim(r[0] == "sym" and r[2].endswith(DONE), "C02", "done-value", "poll resolves with something other than the completion value", where)


def collect_idx(v, out):
    if isinstance(v, tuple):
        if v and v[0] in ("proj", "init", "op"):
            out.add(v)
        for x in v:
            collect_idx(x, out)


def contains(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(contains(y, x) for y in v if isinstance(y, tuple))


def subst_item(v, item):
    if v == item:
        return "ITEM"
    if isinstance(v, tuple):
        return tuple(subst_item(x, item) for x in v)
    return v


def futures_order(F, R):
    """names of the child fields, in the order of the combinator's type parameters"""
    p = R.one("futures")
    ty = R.ty[p]
    if not local(F, ty):
        return None
    return [nm for nm, t in fields(F, ty.n)]


def explore(F, rep, want, seconds=150):
    """run the poll monitor over every combinator; obligations of property `want` go to the report"""
    cs = combinators(F, rep)
    rep.floor("combinators", len(cs), 14)
    for n, fn, R in cs:
        miss = R.ok()
        if miss:
            rep.undecided("roles:" + short(n), "no single field plays: " + ", ".join(miss), fn.loc)
            continue
        W = WakeRoles(F, R.ty[R.one("wakers")])
        if W.missing():
            rep.undecided("roles:" + short(n), "readiness record lacks: " + ", ".join(W.missing()), fn.loc)
            continue
        m1 = FindLoop(R)
        e1 = Engine(F, m1)
        e1.seconds = seconds
        try:
            e1.run(fn)
            if not m1.polls:
                rep.undecided("polls:" + short(n), "no child poll was recognised", fn.loc)
                continue
            m = PollMon(rep, n, R, W, m1.sites, want)
            m.order = futures_order(F, R)
            e = Engine(F, m)
            e.seconds = seconds
            e.run(fn)
            rep.engine(e)
            rep.count("poll_paths:" + short(n), m.rets)
        except Incomplete as x:
            rep.undecided("explore:" + short(n), str(x), fn.loc)


# ------------------------------------------------------------------ the wake side
class Plain(Monitor):
    """stores and chosen calls, in order"""
    precise = True

    def __init__(self, keep, calls=(), grab=None):
        self.keep, self.keys, self.grab = keep, calls, grab
        self.rets = []

    def add(self, st, e):
        return st if e in st[-1:] else st + (e,)

    def on_store(self, eng, loc, val, env, st, where):
        k = self.keep(loc)
        if k is None:
            return st
        k = tuple(("ix", canon(eng, env, e[1])) if isinstance(e, tuple) and e[0] == "ix" else e for e in k)
        return self.add(st, ("store", k, val))

    def on_acquire(self, eng, g, env, st, where):
        return self.add(st, ("lock", g[2]))

    def on_release(self, eng, g, env, st, where):
        return self.add(st, ("unlock", g[2]))

    def on_call(self, eng, ev, env, st):
        if self.grab is not None and ev.key.endswith("::new"):
            for t in ev.trees:
                if t.get((), TOP)[0] == "agg" and t[()][2] == self.grab:
                    st = self.add(st, ("made", tuple(sorted(t.items(), key=repr))))
        if ev.key in self.keys:
            return st + ((ev.key,) + tuple(ev.args),)
        return st

    def on_return(self, eng, val, env, st, where):
        self.rets.append((val, st, env, where))
        return st


def wake_fns(F, inner):
    """trait methods (&self, usize) implemented for the shared part of the wakers"""
    out = []
    for i in F.impls:
        if not i.get("trait") or i["self_ty"].n != inner:
            continue
        for it in i["items"]:
            f = F.fns.get(it["id"])
            if f is not None and f.argc == 2 and f.ty(2).s == "usize" and f.ty(0).s == "()":
                out.append(f)
    return out


def run_plain(F, rep, fn, keep, calls=(), env=None, argvals=None, seconds=60, grab=None):
    m = Plain(keep, calls, grab)
    e = Engine(F, m)
    e.seconds = seconds
    e.run(fn, argvals, env)
    rep.engine(e)
    return m


def wake_side(F, rep):
    """waking child i records i once and wakes the parent unless a wake-up is already outstanding"""
    done = set()
    for n, fn, R in combinators(F, rep):
        if R.ok():
            continue
        W = WakeRoles(F, R.ty[R.one("wakers")])
        if W.missing() or W.inner in done:
            continue
        done.add(W.inner)
        fns = wake_fns(F, W.inner)
        if len(fns) != 1:
            rep.undecided("wake:" + short(W.inner), "the wake function was not recognised", "")
            continue
        f = fns[0]
        rec = (self_loc(())[0], W.lock_path + ("cell",))
        rl = lambda r, rest=(): (rec[0], rec[1] + W.one(r) + rest)
        ix = ("init", (("L", 0, 2), ()))
        names = {r: p[0] for r, p in W.roles.items()}

        def keep(loc):
            if loc[0] != rec[0] or loc[1][: len(rec[1])] != rec[1]:
                return None
            rest = loc[1][len(rec[1]):]
            for r, p in names.items():
                if rest[: len(p)] == p:
                    return (r,) + rest[len(p):]
            return ("?",) + rest
        for bit, ln in ((1, None), (1, 0), (0, 0), (0, 1)):
            env = Env()
            env.write(rl("set", (("ix", ix),)), ("i", bit))
            lenv = ("op", "Len", ("init", rl("list"))) if W.list_is_vec else ("init", rl("len"))
            if ln == 0:
                env.write(rl("list") if W.list_is_vec else rl("len"), EMPTY if W.list_is_vec else ("i", 0))
            what = "%s flag=%s list=%s" % (short(W.inner), bit, {None: "any", 0: "empty", 1: "nonempty"}[ln])
            probe = Engine(F, Monitor())
            if ln == 1:
                x = probe.assume_not(env, lenv, [0])
                env = x if x is not None else env
                lenv = length_of(env, ("init", rl("list"))) if W.list_is_vec else lenv
            try:
                m = run_plain(F, rep, f, keep, ("Waker::wake_by_ref", "Waker::wake"), env)
            except Incomplete as x:
                rep.undecided("wake:" + what, str(x), f.loc)
                continue
            rep.count("wake_paths:" + what, len(m.rets))
            for val, st, env2, where in m.rets:
                one_wake(rep, W, what, bit, ln, st, ix, rl, f.loc)


def one_wake(rep, W, what, bit, ln, st, ix, rl, where):
    key = "wake:" + what
    sets = [(k, v) for e in st if e[0] == "store" for k, v in [(e[1], e[2])] if k[0] == "set"]
    wrong = [1 for k, v in sets if k[1:] != (("ix", ix),)]
    if any(k[1:] == () for k, v in sets) or any(e[0] == "store" and e[1][0] == "?" for e in st):
        rep.undecided(key, "the readiness record is rewritten as a whole", where)
        return
    rep.check(not wrong, key + ":flag-place", "waking a child changes another child's flag", where)
    mine = [v for k, v in sets if k[1:] == (("ix", ix),)]
    final = mine[-1] if mine else ("i", bit)
    rep.check(final == ("i", 1), key + ":flag", "after a wake-up the child's woken flag is not set", where)
    app = None
    idx = None
    for n, e in enumerate(st):
        if e[0] == "store" and e[1][0] == "list":
            if W.list_is_vec and e[2][0] == "pushed" and e[1][1:] == ():
                app, idx = (app or 0) + 1, (n, e[2][2])
            elif not W.list_is_vec and len(e[1]) == 2 and e[1][1][0] == "ix":
                app, idx = (app or 0) + 1, (n, e[2])
                l0 = ("i", 0) if ln == 0 else None
                p = e[1][1][1]
                okp = p == l0 if l0 else (p[0] == "init" and p[1] == rl("len"))
                if p != TOP:
                    rep.check(okp, key + ":list-place", "the woken child's index is not appended at the end of the list", where)
            else:
                rep.undecided(key + ":list", "list change not recognised", where)
                return
    if bit == 1:
        rep.check(not app, key + ":no-append", "a child that is already queued is queued again", where)
        return
    if rep.check(app == 1, key + ":append", "a woken child is queued %s times" % (app or 0), where):
        rep.check(same(idx[1], ix), key + ":append-index", "waking a child queues another child", where)
    if not W.list_is_vec:
        ls = [e[2] for e in st if e[0] == "store" and e[1][0] == "len"]
        want = [("i", 1)] if ln == 0 else [("op", "Add", ("init", rl("len")), ("i", 1)), ("op", "Add", ("init", rl("len"), 0), ("i", 1))]
        rep.check(len(ls) == 1 and ls[-1] in want, key + ":length", "the length of the wake list does not grow by one", where)
    if ln == 0:
        wk = [n for n, e in enumerate(st) if e[0] in ("Waker::wake_by_ref", "Waker::wake") and wakes(e[1], rl("parent"))]
        rep.check(bool(wk), key + ":parent", "the parent is not woken although no wake-up was outstanding", where)
        if wk and idx:
            held = 0
            for e in st[:wk[-1]]:
                held += (e[0] == "lock") - (e[0] == "unlock")
            rep.check(held > 0 or wk[-1] > idx[0], key + ":order", "the parent is woken before the child is queued", where)


def wakes(v, parent):
    if not isinstance(v, tuple):
        return False
    return v == ("ref", parent) or v[:2] == ("init", parent) or any(wakes(x, parent) for x in v)


# ------------------------------------------------------------------ construction
def makers(F, n, least=1):
    """functions that build a combinator out of the children (the result is the combinator itself)"""
    out = []
    for f in F.fns.values():
        t = f.ty(0)
        if f.crate.name != CRATE or t.k != "adt" or t.n != n or f.kind == "Closure" or f.argc < least:
            continue
        if any(type_mentions_id(f.ty(a), n) for a in range(1, f.argc + 1)):
            continue
        out.append(f)
    return out


def type_mentions_id(ty, n, depth=0):
    if ty is None or isinstance(ty, str) or depth > 8:
        return False
    return ty.n == n or any(type_mentions_id(a, n, depth + 1) for a in ty.a) or type_mentions_id(ty.t, n, depth + 1)


def uncast(v):
    while isinstance(v, tuple) and v[:2] == ("op", "cast"):
        v = v[2]
    return v


class Made:
    """one way a combinator is put together: the returned tree and what the shared allocation holds"""

    def __init__(self, F, R, W, fn, tree, env, st):
        self.F, self.R, self.W, self.fn, self.tree, self.env = F, R, W, fn, tree, env
        recs = [dict(e[1]) for e in st if e[0] == "made"]
        self.rec = recs[0] if len(recs) == 1 else None

    def get(self, path):
        return self.tree.get(path)

    def sub(self, path):
        return {q[len(path):]: v for q, v in self.tree.items() if q[: len(path)] == path}

    def arc(self):
        return self.get(self.R.one("wakers") + self.W.inner_path)

    def shared(self, rest):
        a = self.arc()
        return None if a is None else self.env.read((("D", a), rest))

    def shared_tree(self, rest):
        a = self.arc()
        return None if a is None else self.env.tree((("D", a), rest))

    def children(self):
        """how many children there are: a number, or the length of the argument"""
        p = self.R.one("futures")
        order = futures_order(self.F, self.R)
        if order is not None:
            return ("i", len(order))
        ty = self.R.ty[p]
        return None if ty.k == "array" else "vec"


def is_count(v, made):
    """v is the number of children"""
    v = uncast(v)
    n = made.children()
    if isinstance(n, tuple):
        # the shared part is an array type of its own: its length parameter is the array's size
        return v == n or v[0] == "cst" and str(v[-1]) == "N"
    fut = made.get(made.R.one("futures"))
    if v[:2] == ("op", "Len") and (v[2] == fut or contains(v[2], fut)):
        return True
    if n is None:
        return v[0] == "cst" and "N" in repr(v[-1]) or v == TOP and None
    return False


def is_indices(v, made):
    """v is the list 0, 1, .., n-1"""
    n = made.children()
    if v[0] == "agg" and v[1] == "array":
        return None
    if v[0] == "each":
        t = dict(v[2])
        if uncast(t.get((), TOP)) != v[1] or len(t) > 1:
            return False
        src = v[3]
        if src is None:
            return True
        if src[:2] == ("op", "iter") and src[2][0] == "tree":
            d = dict(src[2][1])
            a, b = d.get((("f", "start"),)), d.get((("f", "end"),))
            return a == ("i", 0) and bool(is_count(b, made))
        return None
    if v[0] == "repeat" or v == EMPTY:
        return False
    return None


def made(F, rep):
    for n, fn, R in combinators(F, rep):
        if R.ok():
            continue
        W = WakeRoles(F, R.ty[R.one("wakers")])
        if W.missing():
            continue
        fs = makers(F, n)
        if not fs:
            rep.undecided("made:" + short(n), "no function builds this combinator", fn.loc)
        for f in fs:
            try:
                m = run_plain(F, rep, f, lambda loc: None, seconds=60, grab=W.rec)
            except Incomplete as x:
                rep.undecided("made:%s:%s" % (short(n), short(f.name)), str(x), f.loc)
                continue
            for val, st, env, where in m.rets:
                if val[()][0] != "agg":
                    rep.undecided("made:%s:%s" % (short(n), short(f.name)), "result not followed", f.loc)
                    continue
                yield n, f, Made(F, R, W, f, val, env, st)


def maker_key(n, f):
    return "%s:%s" % (short(n), f.name.split("::")[-1])


def tri(rep, c, key, msg, where):
    if c is None:
        rep.undecided(key, "value not recognised", where)
    else:
        rep.check(c, key, msg, where)


def made_c01(F, rep):
    """a new combinator has every child queued"""
    k = 0
    for n, f, m in made(F, rep):
        k += 1
        key = "new:" + maker_key(n, f)
        if m.rec is None:
            rep.undecided(key, "the readiness record's construction was not followed", f.loc)
            continue
        s = m.rec.get(m.W.one("set"), TOP)
        tri(rep, (s[1] == ("i", 1)) if s[0] == "repeat" else None if s[0] in ("sym", "top", "init", "deref") else False, key + ":set",
            "a new combinator does not have every child marked as woken", f.loc)
        if s[0] == "repeat" and not isinstance(s[2], str) and s[2] is not None:
            tri(rep, is_count(s[2], m), key + ":set-size", "there are not as many woken flags as children", f.loc)
        l = m.rec.get(m.W.one("list"), TOP)
        tri(rep, is_indices(l, m), key + ":list", "a new combinator does not have every child queued for its first poll", f.loc)
        if m.W.one("len"):
            tri(rep, is_count(m.rec.get(m.W.one("len"), TOP), m), key + ":len", "a new combinator's wake list does not count every child", f.loc)
    rep.floor("constructors", k, 14)


def made_c02(F, rep):
    """a new combinator counts all children as unfinished and has no result"""
    k = 0
    for n, f, m in made(F, rep):
        k += 1
        key = "new:" + maker_key(n, f)
        p = m.get(m.R.one("pending"))
        tri(rep, None if p is None else is_count(p, m), key + ":pending", "a new combinator does not wait for all its children", f.loc)
        v = m.get(m.R.one("filled"))
        tri(rep, None if v is None or v[0] in ("sym", "top", "init") else v[0] == "repeat" and v[1] == ("i", 0), key + ":filled",
            "a new combinator has result slots marked as filled", f.loc)
        if v is not None and v[0] == "repeat" and not isinstance(v[2], str) and v[2] is not None:
            tri(rep, is_count(v[2], m), key + ":filled-size", "there are not as many result marks as children", f.loc)
    rep.floor("constructors", k, 14)


def made_c04(F, rep):
    """child k of the combinator is the k-th future given"""
    k = 0
    for n, f, m in made(F, rep):
        k += 1
        key = "new:" + maker_key(n, f)
        order = futures_order(F, m.R)
        fp = m.R.one("futures")
        if order is None:
            v = m.get(fp)
            tri(rep, True if v == ("init", (("L", 0, 1), ())) else None if v is None or v[0] in ("sym", "top", "each") else False, key + ":children",
                "the combinator does not keep the given futures in their order", f.loc)
            continue
        for j, nm in enumerate(order):
            v = m.get(fp + (("f", nm),))
            if v is not None and v[0] == "proj" and v[1][0] == "init":
                v = ("init", (v[1][1][0], v[1][1][1] + v[2]))
            if v is None or v[0] != "init" or v[1][0][:2] != ("L", 0):
                if f.argc > 1:
                    continue    # built from separate arguments: judged with that function
                rep.undecided(key + ":child%d" % j, "child not recognised", f.loc)
                continue
            last = [e for e in v[1][1] if e[0] == "f"]
            if not last and f.argc > 1:
                rep.check(v[1][0][2] == j + 1, key + ":child%d" % j, "child %d is the wrong future" % j, f.loc)
                continue
            rep.check(bool(last) and last[-1][1] == str(j), key + ":child%d" % j, "child %d of the combinator is another future" % j, f.loc)
    rep.floor("constructors", k, 14)


# ------------------------------------------------------------------ dropping
def drop_fns(F, n):
    out = []
    for i in F.impls:
        t = i.get("trait") or ""
        if t.split("::")[-1] in ("PinnedDrop",) and i["self_ty"].n == n:
            f = F.impl_fn(i, "drop")
            if f is not None:
                out.append(f)
    return out


DROPS = ("MaybeUninit::assume_init_drop", "ptr::drop_in_place", "MaybeUninit::assume_init_read", "mem::drop", "MaybeUninit::assume_init", "ptr::read")


class DropMon(Monitor):
    """which slots are dropped in the iteration at hand, and under which mark"""
    precise = True

    def __init__(self, rep, name, R, only=None):
        self.rep, self.name, self.R, self.only = rep, name, R, only
        self.ends = 0
        self.inloop = 0

    def opaque(self, eng, fn, ev):
        return "::context::" in fn.name or "::node_container::" in fn.name

    def key(self, k):
        return "drop:%s:%s" % (short(self.name), k)

    def init(self, eng, env):
        return ("out", (), None)

    def slot(self, loc):
        b = self_loc(self.R.one("items"))
        if loc[0] == b[0] and loc[1][: len(b[1])] == b[1] and len(loc[1]) > len(b[1]):
            e = loc[1][len(b[1])]
            if e[0] == "ix":
                return e[1]
            if e[0] == "f" and e[1].isdigit():
                return ("i", int(e[1]))
        return None

    def mark(self, eng, env, ix):
        b = self_loc(self.R.one("filled"))
        return eng.known(env, env.read((b[0], b[1] + (("ix", ix),))))

    def on_call(self, eng, ev, env, st):
        if ev.key in DROPS and ev.args and ev.args[0][0] == "ref":
            s = self.slot(ev.args[0][1])
            if s is not None:
                s = canon(eng, env, s)
                if st[0] == "in" and s[0] != "i":
                    item = st[2]
                    if s not in (("op", "pos", item), item):
                        self.rep.undecided(self.key("slot"), "slot not recognised", str(ev.loc))
                        return st
                k = self.mark(eng, env, s)
                self.rep.check(k == 1, self.key("only-filled"), "%s: a result slot is dropped without having been found filled" % short(self.name), str(ev.loc))
                if s in st[1]:
                    self.rep.violation(self.key("twice"), "%s: a stored output is dropped twice" % short(self.name), str(ev.loc))
                return (st[0], st[1] + (s,), st[2])
        return st

    def on_item(self, eng, it, item, env, st, where):
        if not self.about(it):
            return st
        self.inloop += 1
        return ("in", (), item)

    def about(self, it):
        b = self_loc(self.R.one("items"))
        c = self_loc(self.R.one("filled"))
        return contains(it, ("ref", b)) or contains(it, ("ref", c)) or contains(it, ("init", b)) or \
            (it[:2] == ("op", "iter") and it[2][0] == "tree" and dict(it[2][1]).get((("f", "start"),)) == ("i", 0))

    def finish(self, eng, env, st, it, where):
        if st[0] != "in" or not self.about(it):
            return st
        item = st[2]
        for ix in (("op", "pos", item), item):
            if self.mark(eng, env, ix) == 0:
                return ("out", (), None)
        self.rep.check(len(st[1]) >= 1, self.key("all-filled"), "%s: a stored output can be left without being dropped" % short(self.name), where)
        return ("out", (), None)

    def on_next(self, eng, it, env, st, where):
        return self.finish(eng, env, st, it, where)

    def on_end(self, eng, it, env, st, where):
        st = self.finish(eng, env, st, it, where)
        if self.about(it):
            c = whole(it)
            if c is not None:
                self.rep.check(c, self.key("every-slot"), "%s: not every result slot is considered when dropping" % short(self.name), where)
        return st

    def on_return(self, eng, val, env, st, where):
        self.ends += 1
        if self.only is not None:
            k, bit = self.only
            d = ("i", k) in st[1]
            if bit:
                self.rep.check(d, self.key("slot%d-dropped" % k), "%s: a stored output can be left without being dropped" % short(self.name), where)
            else:
                self.rep.check(not d, self.key("slot%d-kept" % k), "%s: an empty result slot is dropped" % short(self.name), where)
        return st


def whole(it):
    """the iterator visits every element of what it goes over (None: unknown)"""
    if it[0] != "op":
        return None
    if it[1] in ("skip", "step_by", "take_while", "skip_while"):
        return False if it[1] != "skip" or it[3] != ("i", 0) else True
    if it[1] == "take":
        return None
    if it[1] in ("rev", "copied", "cloned", "enumerate", "peekable"):
        return whole(it[2])
    if it[1] == "zip":
        a, b = whole(it[2]), whole(it[3])
        return False if False in (a, b) else True if a and b else None
    if it[1] == "iter":
        x = it[2]
        if x[0] == "ref":
            rg = last_range(x[1][1])
            if rg is None or rg[-1] == "RangeFull":
                return True
            return False if rg[-1] == "RangeFrom" and rg[1] != ("i", 0) else None
        return None
    return None


def drop_c02(F, rep):
    k = 0
    for n, fn, R in combinators(F, rep):
        if R.ok():
            continue
        fs = drop_fns(F, n)
        if len(fs) != 1:
            rep.undecided("drop:" + short(n), "the drop code was not recognised", fn.loc)
            continue
        k += 1
        order = futures_order(F, R)
        b = self_loc(R.one("filled"))
        runs = [(None, None)]
        if order is not None:
            runs = [((j, bit), other) for j in range(len(order)) for bit in (0, 1) for other in (0, 1)]
        try:
            for only, other in runs:
                env = Env()
                if only is not None:
                    for j in range(len(order)):
                        env.write((b[0], b[1] + (("ix", ("i", j)),)), ("i", only[1] if j == only[0] else other))
                m = DropMon(rep, n, R, only)
                e = Engine(F, m)
                e.seconds = 60
                e.run(fs[0], None, env)
                rep.engine(e)
                if only is None and not m.inloop:
                    rep.undecided("drop:" + short(n), "no loop over the slots was recognised", fs[0].loc)
        except Incomplete as x:
            rep.undecided("drop:" + short(n), str(x), fs[0].loc)
    rep.floor("drop_functions", k, 14)



# ------------------------------------------------------------------ what each combinator makes of its children's outputs
OKV = (("v", "Ok"), ("f", "0"))
ERRV = (("v", "Err"), ("f", "0"))


def plain_runs(F, rep, f, argvals=None):
    m = run_plain(F, rep, f, lambda loc: None, argvals=argvals, seconds=30)
    return m.rets


def arg(n, path=()):
    return ("init", (("L", 0, n), path))


def is_(v, want):
    """the value is the wanted part of an argument, however it was moved there"""
    if v == want:
        return True
    if v[0] == "proj" and want[0] == "init":
        b = v[1]
        return b[0] == "init" and ("init", (b[1][0], b[1][1] + v[2])) == want
    return False


def flow(val):
    """the ControlFlow value: (Continue or Break, payload tree)"""
    r = val.get((), TOP)
    if r[0] != "agg" or r[4] not in ("Continue", "Break"):
        return None, {}
    p = (("v", r[4]), ("f", "0"))
    return r[4], {q[len(p):]: w for q, w in val.items() if q[: len(p)] == p}


def payload(tree, variant):
    """the tree is Result::variant(x): x"""
    r = tree.get((), TOP)
    if r[0] == "agg" and r[4] == variant:
        return tree.get((("v", variant), ("f", "0")), TOP)
    return None


# trait -> given a finished child's output: (what to do with Ok/any, with Err)
TABLE = {
    "Join": dict(any="keep", done="plain", empty=0),
    "Race": dict(any="return", done=None, empty=1),
    "TryJoin": dict(ok="keep", err="return-err", done="ok", empty=0),
    "RaceOk": dict(ok="return-ok", err="keep", done="err", empty=0),
}
METHODS = {"Join": "join", "Race": "race", "TryJoin": "try_join", "RaceOk": "race_ok"}
SAY = {"keep": "kept until all are done", "return": "returned at once", "return-err": "returned at once as the error", "return-ok": "returned at once as the success"}


def judge_output(rep, key, what, want, out, pay, x, where):
    """x: the value the child delivered (inside Ok or Err where there is one)"""
    if out is None:
        rep.undecided(key, "result not recognised", where)
        return
    if want == "keep":
        good = out == "Continue" and is_(pay.get((), TOP), x)
    elif want == "return":
        good = out == "Break" and is_(pay.get((), TOP), x)
    else:
        v = payload(pay, "Err" if want == "return-err" else "Ok")
        whole = pay.get((), TOP)
        good = out == "Break" and (v is not None and is_(v, x) or whole == ("init", (x[1][0], ())))
    rep.check(good, key, "%s must be %s" % (what, SAY[want]), where)


def behaviours(F, trait):
    """the behaviour types the methods of a combinator trait select, with the combinator they are plugged into"""
    out = {}
    for i in F.trait_impls("::" + trait) if False else F.trait_impls(trait):
        if i["crate"].name != CRATE:
            continue
        f = F.impl_fn(i, METHODS[trait])
        if f is None:
            continue
        t = f.ty(0)
        b = [a for a in t.a if not isinstance(a, str) and a is not None and a.k == "adt" and a.n.split("::")[-1].endswith("Behavior")]
        out[i["id"]] = (i, f, b[0].n if len(b) == 1 else None, t)
    return out


def c03(F, rep):
    """join waits for all, race takes the first, try_join stops at the first error, race_ok at the first success; every input shape selects the
    behaviour of its own trait; pend_after never finishes; meanwhile yields the main future's output"""
    names = {n: R for n, fn, R in combinators(F, rep)}
    for trait, want in TABLE.items():
        bs = behaviours(F, trait)
        kinds = {}
        arities = set()
        for iid, (i, f, b, t) in bs.items():
            sh = i["self_ty"]
            key = "%s for %s" % (trait, sh.s[:40])
            if t.k == "adt" and t.n in names:
                if b is None:
                    rep.undecided(key, "behaviour not recognised", f.loc)
                    continue
                kinds.setdefault(b, set()).add("array" if sh.k == "array" else "vec" if isname(sh, "Vec") else "tuple")
                if sh.k == "tuple":
                    arities.add(len(sh.a))
            elif sh.k == "tuple" and not sh.a:
                arities.add(0)
        rep.count("arities:" + trait, len(arities))
        top = max(arities | {0})
        rep.check(top >= 12 and set(range(1, top + 1)) <= arities, "arities:" + trait,
                  "%s is documented for tuples of up to 12 futures, but has impls for %s" % (METHODS[trait], sorted(arities)), "")
        for k in ("array", "vec"):
            rep.check(any(k in ks for ks in kinds.values()), "input:%s:%s" % (trait, k), "%s is not offered for %s" % (METHODS[trait], k), "")
        rep.check(len(kinds) <= 1, "one-behaviour:" + trait, "the inputs of %s do not share one behaviour: %s" % (METHODS[trait], sorted(kinds)), "")
        for b in kinds:
            judge_behaviour(F, rep, trait, want, b)
    entry_points(F, rep)
    pend_after(F, rep)


def judge_behaviour(F, rep, trait, want, b):
    n = 0
    for i in F.impls:
        if i["self_ty"].n != b or not i.get("trait"):
            continue
        tn = i["trait"].split("::")[-1]
        for it in i["items"]:
            nm = (it.get("of") or it["id"]).rsplit("::", 1)[-1]
            key = "%s:%s:%s" % (trait, tn, nm)
            if it["kind"] == "Const" and nm == "PEND_IF_EMPTY":
                n += 1
                rep.check(str(it.get("v")) in (("1", "true") if want["empty"] else ("0", "false")), key,
                          "%s of no futures at all %s" % (METHODS[trait], "must wait for ever" if want["empty"] else "must finish at once"), i["loc"])
            f = F.fns.get(it["id"])
            if f is None:
                continue
            if nm == MAYBE:
                n += 1
                o = f.argc
                if "any" in want:
                    for val, st, env, where in plain_runs(F, rep, f):
                        out, pay = flow(val)
                        judge_output(rep, key, "a child's output", want["any"], out, pay, arg(o), f.loc)
                else:
                    for variant, ix, w in (("Ok", 0, want["ok"]), ("Err", 1, want["err"])):
                        av = {(): ("agg", "adt", "core::result::Result", ix, variant), (("v", variant), ("f", "0")): arg(o, (("v", variant), ("f", "0")))}
                        rs = plain_runs(F, rep, f, {o: av})
                        if not rs:
                            rep.violation(key, "no result for %s" % variant, f.loc)
                        for val, st, env, where in rs:
                            out, pay = flow(val)
                            judge_output(rep, key + ":" + variant, "a child's %s" % ("success" if ix == 0 else "error"), w, out, pay,
                                         arg(o, (("v", variant), ("f", "0"))), f.loc)
            if nm == DONE and want["done"] is not None:
                n += 1
                for val, st, env, where in plain_runs(F, rep, f):
                    if want["done"] == "plain":
                        good = is_(val.get((), TOP), arg(1))
                    else:
                        v = payload(val, "Ok" if want["done"] == "ok" else "Err")
                        good = v is not None and is_(v, arg(1))
                    rep.check(good, key, "when all children are done, %s must resolve to the kept outputs%s" % (
                        METHODS[trait], {"plain": "", "ok": " as success", "err": " as the error"}[want["done"]]), f.loc)
    rep.count("behaviour_functions:" + trait, n)


def entry_points(F, rep):
    """combinators::join and friends call the method of the same name on their argument"""
    for trait, meth in METHODS.items():
        fs = [f for f in F.fns.values() if f.crate.name == CRATE and f.name == "crate::combinators::" + meth]
        if not rep.anchor(len(fs) == 1, "fn:" + meth, "function combinators::" + meth):
            continue
        key = "%s::%s" % (trait, meth)
        m = run_plain(F, rep, fs[0], lambda loc: None, (key,))
        for val, st, env, where in m.rets:
            v = val.get((), TOP)
            good = v[0] == "sym" and v[2] == key and v[3] and v[3][0] == arg(1)
            rep.check(good, "entry:" + meth, "combinators::%s does not return its argument's own %s" % (meth, meth), fs[0].loc)


def pend_after(F, rep):
    fs = [(i, F.impl_fn(i, "poll")) for i in F.trait_impls("Future") if isname(i["self_ty"], "PendAfter") and i["crate"].name == CRATE]
    if not rep.anchor(len(fs) == 1 and fs[0][1] is not None, "pend_after", "the future PendAfter"):
        return
    i, f = fs[0]
    child = [nm for nm, t in fields(F, i["self_ty"].n) if isname(t, "Option")]
    if len(child) != 1:
        rep.undecided("pend_after", "no optional child", f.loc)
        return
    base = self_loc((("f", child[0]),))
    cx = ("init", (("L", 0, 2), ()))
    P_ = "core::task::poll::Poll"

    class M(Monitor):
        precise = True

        def results(self, eng, ev, env, st):
            if ev.key == "Future::poll":
                ok = ev.args[0][0] == "ref" and ev.args[0][1][0] == base[0] and ev.args[0][1][1][:1] == base[1]
                cxok = ev.args[1] in (cx, ("ref", (("D", cx), ())))
                rep.check(ok, "pend_after:child", "pend_after polls something other than its future", str(ev.loc))
                rep.check(cxok, "pend_after:waker", "pend_after polls its future with another waker", str(ev.loc))
                return [({(): ("agg", "adt", P_, 0, "Ready"), (("v", "Ready"), ("f", "0")): eng.sym(env, ev.ctx, ev.block, "Future::poll", (), "pay")}, st + ("ready",), False),
                        ({(): ("agg", "adt", P_, 1, "Pending")}, st + ("pending",), False)]

        def on_return(self, eng, val, env, st, where):
            v = val[()]
            if v[0] == "agg":
                rep.check(v[4] == "Pending", "pend_after:never", "pend_after can finish", f.loc)
            d = eng.known(env, ("discr", env.read(base)))
            r = env.read(base)
            none = r[0] == "agg" and r[4] == "None" or d == 0
            if "ready" in st:
                rep.check(none, "pend_after:fused", "pend_after polls its future again after it finished", f.loc)
            if "pending" in st:
                rep.check(not none, "pend_after:kept", "pend_after drops its future before it finished", f.loc)
            if not st:
                s = [x for q, x in env.facts.items() if q == ("discr", ("init", base))]
                rep.check(none or any(x == ("eq", 0) or x[0] == "ne" and 1 in x[1] for x in s), "pend_after:polled", "pend_after does not poll its unfinished future", f.loc)
            return st
    e = Engine(F, M())
    e.seconds = 30
    try:
        e.run(f)
        rep.engine(e)
    except Incomplete as x:
        rep.undecided("pend_after", str(x), f.loc)
    # meanwhile races the future itself against the never-ending effect
    ms = [g for g in F.fns.values() if g.crate.name == CRATE and g.name.endswith("UiFutureExt::meanwhile")]
    if rep.anchor(len(ms) == 1, "meanwhile", "UiFutureExt::meanwhile"):
        for n, g, m in made(F, rep):
            if g is not ms[0]:
                continue
            b = [a for a in g.ty(0).a if not isinstance(a, str) and a is not None and a.k == "adt" and a.n.split("::")[-1].endswith("Behavior")]
            rb = {x[2] for x in behaviours(F, "Race").values()}
            rep.check(len(b) == 1 and b[0].n in rb, "meanwhile:race", "meanwhile does not end with the first future", g.loc)
            order = futures_order(F, m.R)
            fp = m.R.one("futures")
            got = {}
            for j, nm in enumerate(order):
                for q, v in m.sub(fp + (("f", nm),)).items():
                    if v[0] == "init" and v[1][0] in (("L", 0, 1), ("L", 0, 2)):
                        got.setdefault(v[1][0][2], []).append((j, q, m.get(fp + (("f", nm),))))
            main, eff = got.get(1, []), got.get(2, [])
            rep.check(len(main) == 1 and main[0][1] == (), "meanwhile:main", "meanwhile does not run the future itself as a child of the race", g.loc)
            rep.check(len(eff) == 1 and eff[0][1] != () and eff[0][2][0] == "agg" and eff[0][2][2] == i["self_ty"].n, "meanwhile:effect",
                      "meanwhile lets the effect end the race", g.loc)



# ------------------------------------------------------------------ waker vtables
def vtables(F):
    """every RawWakerVTable::new(clone, wake, wake_by_ref, drop) in the workspace: (where it is, the four function values)"""
    out = []
    for f in list(F.fns.values()) + list(F.cbodies.values()):
        bodies = [(f, f.id)] if "RawWakerVTable::new" in json.dumps(f.blocks) else []
        for k, pr in enumerate(f.body.get("promoted") or []):
            if "RawWakerVTable::new" in json.dumps(pr):
                fk = FakeFn(f, pr, ("P", f.id, k))
                bodies.append((fk, f.id))
        for b, fid in bodies:
            yield_ = Plain(lambda loc: None, ("RawWakerVTable::new",))
            e = Engine(F, yield_)
            e.seconds = 20
            e.run(b)
            for val, st, env, where in yield_.rets:
                for c in st:
                    if c[0] == "RawWakerVTable::new" and len(c) == 5 and (fid, c[1:]) not in [(x[0], x[2]) for x in out]:
                        out.append((fid, f, c[1:]))
    return out


REFC = ("Arc::increment_strong_count", "Arc::decrement_strong_count", "Rc::increment_strong_count", "Rc::decrement_strong_count")
OWN = ("Arc::from_raw", "Rc::from_raw", "Box::from_raw", "Arc::into_raw", "ManuallyDrop::new", "mem::forget", "Arc::clone")


def vt_fn(F, v):
    return F.fns.get(v[1] if v[0] == "fn" else v[2]) if v[0] in ("fn", "agg") else None


def vt_effects(F, rep, f):
    """per path: the net change of each reference count, and everything else that is called or stored"""
    class M(Monitor):
        precise = True

        def __init__(self):
            self.rets = []

        def on_call(self, eng, ev, env, st):
            if ev.key in REFC:
                return st + ((ev.key, ev.args[0] if ev.args else None),)
            if ev.key in ("Clone::clone", "Arc::clone", "Rc::clone") and ev.args and ev.args[0][0] == "ref":
                p = ev.args[0][1]
                o = raw_owner(env.read(p)) or (raw_owner(p[0][1]) if p[0][0] == "D" and not p[1] else None)
                if o is not None:
                    return st + (("count", o, 1),)
            if ev.key == "mem::drop" and ev.args and raw_owner(ev.args[0]) is not None:
                return st
            if ev.key in OWN:
                return st
            if ev.key == "RawWaker::new":
                return st + ((ev.key, ev.args[0], ev.args[1]),)
            c = F.fns.get(ev.id) if isinstance(ev.id, str) else None
            if c is None and not ev.key.startswith(("ptr::", "slice::", "Deref::", "Vec::")):
                return st + (("effect", ev.key) + tuple(ev.args),)
            return st

        def on_store(self, eng, loc, val, env, st, where):
            if loc[0][0] in ("D", "S", "tls"):
                return st + (("effect", "store", loc, val),)
            return st

        def on_drop(self, eng, ev, env, st):
            o = raw_owner(getattr(ev, "val", None))
            return st + (("count", o, -1),) if o is not None else st

        def on_return(self, eng, val, env, st, where):
            if any(raw_owner(v) is not None for v in val.values()):
                st = st + (("escapes",),)
            self.rets.append((val, st, env))
            return st
    m = M()
    e = Engine(F, m)
    e.seconds = 20
    e.run(f)
    rep.engine(e)
    return m.rets


def raw_owner(v):
    """the raw pointer an owning pointer was made from (possibly through clones of it)"""
    while isinstance(v, tuple) and v:
        if v[0] == "sym" and len(v) > 3 and v[2] in ("Arc::from_raw", "Rc::from_raw") and v[3]:
            return v[3][0]
        if v[0] == "clone":
            v = v[1]
        elif v[0] == "sym" and len(v) > 3 and v[2] in ("Clone::clone", "Arc::clone", "Rc::clone") and v[3] and v[3][0][0] == "ref" and v[3][0][1][0][0] == "D":
            v = v[3][0][1][0][1]
        else:
            return None
    return None


def data_arg(f):
    """the data pointer argument: closures take it second"""
    return ("init", (("L", 0, f.argc), ()))


def rename(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        return tuple(rename(x, a, b) for x in v)
    return v


def plainsites(v):
    """drop analysis-internal call sites so that effects of different functions compare"""
    if isinstance(v, tuple):
        if v and v[0] == "@":
            return "@"
        return tuple(plainsites(x) for x in v)
    return v


def counts(st, data):
    n = {}
    other = False
    for e in st:
        if e[0] in REFC:
            v = e[1]
            if v != ("init", (("D", data), ())) and v != data:
                other = True
            n[v] = n.get(v, 0) + (1 if "increment" in e[0] else -1)
        elif e[0] == "count":
            if e[1] != ("init", (("D", data), ())) and e[1] != data:
                other = True
            n[e[1]] = n.get(e[1], 0) + e[2]
        elif e[0] == "escapes":
            other = True
    return n, other


def effects_of(st):
    return frozenset(plainsites(e) for e in st if e[0] == "effect")


def c05(F, rep):
    """waker reference counting: clone takes one reference on the object the waker points into and hands out the same data and vtable, wake and drop
    release exactly one, wake_by_ref none; wake and wake_by_ref do the same; a child's waker points at its own slot; creating it consumes one reference"""
    vts = vtables(F)
    rep.floor("vtables", len(vts), 3)
    for fid, home, four in vts:
        nm = short(home.name) if short(home.name) not in ("VTABLE",) else "::".join(home.name.split("::")[-2:])
        fs = [vt_fn(F, v) for v in four]
        if any(f is None for f in fs):
            rep.undecided("vtable:" + nm, "its functions were not resolved", home.loc)
            continue
        try:
            runs = [vt_effects(F, rep, f) for f in fs]
        except Incomplete as x:
            rep.undecided("vtable:" + nm, str(x), home.loc)
            continue
        counted = any(counts(st, data_arg(f))[0] for f, r in zip(fs, runs) for _, st, _ in r)
        for k, what, want in ((0, "clone", 1), (1, "wake", -1), (2, "wake_by_ref", 0), (3, "drop", -1)):
            f, r = fs[k], runs[k]
            d = data_arg(f)
            if not r:
                rep.undecided("vtable:%s:%s" % (nm, what), "never returns", f.loc)
            for val, st, env in r:
                n, other = counts(st, d)
                key = "vtable:%s:%s" % (nm, what)
                if other and any(e[0] == "escapes" for e in st):
                    rep.undecided(key + ":count", "references are moved out of the function", f.loc)
                else:
                    net = {o: c for o, c in n.items() if c}
                    w = want if counted else 0
                    good = (net == {} if w == 0 else list(net.values()) == [w]) and not other
                    rep.check(good, key + ":count", "%s of this waker changes the reference count by %s instead of %+d" % (
                        what, ", ".join("%+d" % c for c in net.values()) or "0", w), f.loc)
                if k == 0:
                    rw = [e for e in st if e[0] == "RawWaker::new"]
                    same_data = val.get((), TOP)[0] == "sym" and val[()][2] == "RawWaker::new"
                    if len(rw) == 1 and same_data:
                        p = rw[0][1]
                        tab = table_of(F, rw[0][2])
                        rep.check(p == d or (p == ("null",) and not counted) or (not counted), key + ":data", "a cloned waker points somewhere else", f.loc)
                        if counted:
                            rep.check(tab in (None, fid), key + ":table", "a cloned waker uses another vtable", f.loc)
                    elif counted:
                        rep.undecided(key + ":data", "result not recognised", f.loc)
        # wake and wake_by_ref notify the same
        d1, d2 = data_arg(fs[1]), data_arg(fs[2])
        D = ("data",)
        a = {rename(effects_of(st) and tuple(sorted(effects_of(st), key=repr)), d1, D) for _, st, _ in runs[1]}
        b = {rename(effects_of(st) and tuple(sorted(effects_of(st), key=repr)), d2, D) for _, st, _ in runs[2]}
        rep.check(a == b, "vtable:%s:same-wake" % nm, "wake and wake_by_ref of this waker do not do the same", fs[1].loc)
        for k, what in ((0, "clone"), (3, "drop")):
            for _, st, _ in runs[k]:
                ef = [e for e in effects_of(st)]
                rep.check(not ef, "vtable:%s:%s-silent" % (nm, what), "%s of this waker has an effect of its own: %s" % (what, ef[:1]), fs[k].loc)
        if counted:
            wake_index_rule(F, rep, nm, fs[2], runs[2])
    child_wakers(F, rep)


def table_of(F, v):
    """the function whose promoted constant holds the vtable a reference points at"""
    if v[0] == "ref" and v[1][0][0] == "S":
        return v[1][0][1]
    return None


def wake_index_rule(F, rep, nm, f, runs):
    """wake_by_ref passes the distance of its slot from the start of the redirect slice to the shared part's wake function"""
    d = data_arg(f)
    owner = ("ref", (("D", ("init", (("D", d), ()))), ()))
    for val, st, env in runs:
        w = [e for e in st if e[0] == "effect" and len(e) == 4 and e[1].endswith("::wake_index")]
        key = "vtable:%s:index" % nm
        if len(w) != 1:
            cand = [e for e in st if e[0] == "effect" and len(e) == 4]
            if len(cand) != 1:
                rep.check(bool(cand), key, "wake_by_ref does not notify the shared part", f.loc) if not cand else rep.undecided(key, "notification not recognised", f.loc)
                continue
            w = cand
        obj, ix = w[0][2], uncast(w[0][3])
        rep.check(obj == owner, key + ":object", "wake_by_ref notifies another object than the one its slot belongs to", f.loc)
        if ix[0] == "sym" and ix[2] in ("ptr::offset_from", "ptr::sub_ptr", "ptr::offset_from_unsigned"):
            p, q = ix[3]
            start = q[0] == "ref" and q[1][0][0] == "D" and q[1][0][1][0] == "sym" and q[1][0][1][2].endswith("get_redirect_slice") and q[1][0][1][3] == (owner,)
            if q[0] != "ref" or q[1][0][0] != "D":
                rep.undecided(key, "start of the slots not recognised", f.loc)
            else:
                rep.check(p == d and start and q[1][1] == (), key, "wake_by_ref computes its child's index from the wrong addresses", f.loc)
        elif ix[0] in ("op",) and "offset_from" in repr(ix):
            rep.violation(key, "wake_by_ref passes something other than its slot's position", f.loc)
        else:
            rep.undecided(key, "index not recognised", f.loc)


def child_wakers(F, rep):
    """the i-th waker points at slot i of its own allocation, each slot points back at the allocation, and each waker owns one reference"""
    k = 0
    seen = set()
    for n, fn, R in combinators(F, rep):
        if R.ok():
            continue
        W = WakeRoles(F, R.ty[R.one("wakers")])
        wt = R.ty[R.one("wakers")].n
        if W.missing() or wt in seen or not W.redirect:
            continue
        seen.add(wt)
        for f in makers(F, wt, 0):
            key = "wakers:%s" % short(wt)
            try:
                m = run_plain(F, rep, f, lambda loc: None, ("mem::forget", "ManuallyDrop::new", "Arc::into_raw", "Clone::clone"), seconds=60)
            except Incomplete as x:
                rep.undecided(key, str(x), f.loc)
                continue
            for val, st, env, where in m.rets:
                k += 1
                arc = val.get(W.inner_path)
                v = val.get(W.vec_path, TOP)
                if arc is None:
                    rep.undecided(key, "shared allocation not followed", f.loc)
                    continue
                r = env.read((("D", arc), W.redirect))
                if r[0] == "repeat":
                    rep.check(r[1] == ("rawof", arc), key + ":slots", "the slots do not point back at their own allocation", f.loc)
                    if not isinstance(r[2], str) and r[2] is not None:
                        rep.check(uncast(r[2]) == ("init", (("L", 0, 1), ())), key + ":slot-count", "there are not as many slots as wakers", f.loc)
                elif r[0] == "each":
                    rep.check(dict(r[2]).get(()) == ("rawof", arc), key + ":slots", "the slots do not point back at their own allocation", f.loc)
                else:
                    rep.undecided(key + ":slots", "slots not followed", f.loc)
                if v[0] != "each":
                    rep.undecided(key + ":each", "wakers not followed", f.loc)
                    continue
                t = dict(v[2]).get((), TOP)
                if v[3] is not None and v[3][:2] == ("op", "iter") and v[3][2][0] == "tree":
                    dd = dict(v[3][2][1])
                    rep.check(dd.get((("f", "start"),)) == ("i", 0) and uncast(dd.get((("f", "end"),), TOP)) == ("init", (("L", 0, 1), ())), key + ":count",
                              "there is not one waker per child", f.loc)
                good = t[0] == "sym" and t[2] == "Waker::from_raw" and t[3] and t[3][0][0] == "sym" and t[3][0][2] == "RawWaker::new"
                if not good:
                    rep.undecided(key + ":waker", "waker not followed", f.loc)
                    continue
                p = t[3][0][3][0]
                own = ("clone", arc)
                okp = p[0] == "ref" and p[1][0][0] == "D" and p[1][0][1][0] == "sym" and p[1][0][1][2].endswith("get_redirect_slice") \
                    and p[1][0][1][3] in ((("ref", (("D", own), ())),), (("ref", (("D", arc), ())),))
                if not okp:
                    rep.undecided(key + ":slot", "waker's slot not followed", f.loc)
                else:
                    rep.check(p[1][1] == (("ix", v[1]),), key + ":slot", "the i-th waker does not point at the i-th slot", f.loc)
                keep = [e for e in st if e[0] in ("mem::forget", "ManuallyDrop::new", "Arc::into_raw") and e[1] in (own, arc)]
                rep.check(len(keep) == 1 and keep[0][1] == own, key + ":owns", "a new waker does not own exactly one reference to the shared part", f.loc)
        for i in F.impls:
            if i["self_ty"].n != W.inner or not i.get("trait"):
                continue
            for it in i["items"]:
                g = F.fns.get(it["id"])
                if g is not None and g.argc == 1 and g.ty(0).k == "ref" and g.ty(0).t is not None and g.ty(0).t.k == "slice":
                    for val, st, env, where in plain_runs(F, rep, g):
                        want = ("ref", (("D", ("init", (("L", 0, 1), ()))), W.redirect))
                        rep.check(val.get((), TOP) == want, "wakers:%s:slice" % short(W.inner), "the slots handed out are not the allocation's own", g.loc)
    rep.floor("waker_collections", k, 2)



def c01(F, rep):
    """no lost wake-up: every path of poll registers the waker and takes the whole wake list in one lock region, clears list and flags, and polls
    every listed unfinished child; waking child i sets its flag, queues it once and wakes the parent unless a wake-up is outstanding;
    a new combinator has every child queued"""
    explore(F, rep, "C01")
    wake_side(F, rep)
    made_c01(F, rep)


def c02(F, rep):
    """outputs: exactly the finished children's outputs are stored, each in its own slot, counted once, handed out once in order or dropped once"""
    explore(F, rep, "C02")
    made_c02(F, rep)
    drop_c02(F, rep)


def c04(F, rep):
    """identity: the child polled, its waker, its rendering position and the index its output is judged under all belong to the same child"""
    explore(F, rep, "C04")
    made_c04(F, rep)
