"""helpers shared by the rules"""
from absint import Engine, Monitor, Incomplete, TOP, UNIT


class Trace(Monitor):
    """records calls (optionally only some) and returned trees; never merges histories: state = call list"""

    def __init__(self, keys=None, opaque=(), stores=False):
        self.keys = keys
        self.op = set(opaque)
        self.rets = []

    def on_call(self, eng, ev, env, st):
        if self.keys is None or ev.key in self.keys:
            st = st + ((ev.key, tuple(self.text(a, t) for a, t in zip(ev.args, ev.trees)) if len(ev.args) == len(ev.trees) else tuple(ev.args), ev.loc, ev.site),)
        return st

    @staticmethod
    def text(v, tree):
        """what a Cow made here holds"""
        if v[0] == "agg" and v[2].split("::")[-1] == "Cow":
            return tree.get((("v", v[4]), ("f", "0")), v)
        return v

    def opaque(self, eng, fn, ev):
        return ev is not None and ev.key in self.op

    def on_return(self, eng, val, env, st, where):
        self.rets.append((val, st, env))
        return st


def run_trace(F, rep, fn, keys=None, opaque=(), argvals=None, budget=60000, merge=False):
    m = Trace(keys, opaque)
    e = Engine(F, m, merge=merge)
    e.budget = budget
    e.run(fn, argvals)
    rep.engine(e)
    return m


def strv(v):
    """the string constant a value denotes, if it is one"""
    seen = 0
    while isinstance(v, tuple) and v and seen < 12:
        seen += 1
        if v[0] == "s":
            return v[1]
        if v[0] == "ref" and v[1][0][0] == "D":
            v = v[1][0][1]
            continue
        if v[0] == "sym" and len(v) > 3 and v[3] and v[2] in ("From::from", "Into::into", "Clone::clone",
                                                             "ToOwned::to_owned", "Deref::deref", "AsRef::as_ref",
                                                             "Borrow::borrow", "ToString::to_string", "Cow::into_owned"):
            v = v[3][0]
            continue
        if v[0] == "proj":
            return None
        return None
    return None


def contains(v, pred):
    if pred(v):
        return True
    if isinstance(v, tuple):
        return any(contains(x, pred) for x in v if isinstance(x, tuple))
    return False


def self_place(n=1):
    """the object argument n refers to"""
    return ("D", ("init", (("L", 0, n), ())))


def short(loc):
    return loc


class Rec(tuple):
    """one observed call: key, args (root values), trees, where, facts known then"""
    key = property(lambda s: s[0])
    args = property(lambda s: s[1])
    trees = property(lambda s: [dict(t) for t in s[2]])
    where = property(lambda s: s[3])
    site = property(lambda s: s[4])


class Calls(Monitor):
    """history of interesting calls and stores along each path; a call repeated at the same site with the same
    values is recorded once, so loops stay finite"""

    def __init__(self, keys=None, opaque=(), stores=False, results=None, skip=()):
        self.keys, self.op, self.stores, self.skip = keys, set(opaque), stores, set(skip)
        self.rets = []
        self.hook = results
        if results is not None:
            self.results = results

    def add(self, st, r):
        return st if r in st else st + (r,)

    def on_call(self, eng, ev, env, st):
        if (self.keys is None or ev.key in self.keys) and ev.key not in self.skip:
            ts = []
            for t in ev.trees:
                v = t.get((), TOP)
                if v[0] == "ref" and v[1][0][0] == "L":
                    t = dict(t)
                    for p, w in env.tree(v[1]).items():
                        t[("*",) + p] = w
                ts.append(tuple(sorted(t.items(), key=repr)))
            st = self.add(st, Rec((ev.key, tuple(ev.args), tuple(ts), str(ev.loc), ("@", ev.ctx.id, ev.block, ""))))
        return st

    def on_store(self, eng, loc, val, env, st, where):
        if self.stores and loc[0][0] != "L":
            st = self.add(st, Rec(("store", (loc, val), (), str(where), None)))
        return st

    def on_item(self, eng, it, item, env, st, where):
        if self.stores:
            st = self.add(st, Rec(("item", (it, item), (), str(where), None)))
        return st

    def on_end(self, eng, it, env, st, where):
        if self.stores:
            st = self.add(st, Rec(("end", (it,), (), str(where), None)))
        return st

    def opaque(self, eng, fn, ev):
        return ev is not None and ev.key in self.op

    def on_return(self, eng, val, env, st, where):
        self.rets.append((val, st, env))
        return st


def calls(F, rep, fn, keys=None, opaque=(), stores=False, results=None, argvals=None, env=None, seconds=60, merge=False, skip=()):
    m = Calls(keys, opaque, stores, results, skip)
    e = Engine(F, m, merge=merge)
    e.budget = 200000
    e.seconds = seconds
    e.run(fn, argvals, env)
    rep.engine(e)
    return m
