"""Path-sensitive abstract interpretation (property simulation) over the extracted MIR.

An abstract state is a program point in the *inlined* control-flow graph of a root function,
an abstract memory (symbolic values, never concrete runs) and the state of a rule automaton
(the `Monitor`).  Exploration is a fixpoint over the finite set of abstract states: loops are
iterated until no new state appears, nothing is unrolled to a bound and nothing is executed.
"""
import functools, re, time

BUDGET = 400000


class Incomplete(Exception):
    """the analysis met something it cannot decide (reported as an error, never as a pass)"""


TOP = ("top",)
UNIT = ("unit",)

# wrappers that add no identity of their own: a field access/constructor on them is transparent
TRANSPARENT = {
    "core::pin::Pin", "alloc::boxed::Box", "core::ptr::unique::Unique",
    "core::ptr::non_null::NonNull", "core::mem::manually_drop::ManuallyDrop",
    "core::panic::unwind_safe::AssertUnwindSafe",
}


@functools.lru_cache(maxsize=None)
def vdepth(v):
    if not isinstance(v, tuple):
        return 0
    return 1 + max([vdepth(x) for x in v] or [0])


@functools.lru_cache(maxsize=None)
def mentions(v, site):
    if v == site:
        return True
    if isinstance(v, tuple):
        return any(mentions(x, site) for x in v)
    return False


def watched(st, out):
    """the values a rule state holds"""
    if isinstance(st, (tuple, list, frozenset)):
        if st and isinstance(st, tuple) and isinstance(st[0], str):
            out.add(st)
        for x in st:
            watched(x, out)


def neg(v):
    if v == TOP:
        return TOP
    if v[0] == "i" and v[1] in (0, 1):
        return ("i", 1 - v[1])
    if v[0] == "op" and v[1] == "Not":
        return v[2]
    return ("op", "Not", v)


def lin(v):
    """v as (base, constant offset)"""
    if v[0] == "i":
        return ("i", 0), v[1]
    if v[0] == "op" and v[1] == "Add" and v[3][0] == "i":
        return v[2], v[3][1]
    return v, 0


def is_boolean(v):
    return v[0] == "op" and v[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Not")


def is_count(v):
    return v[0] == "op" and v[1] == "Len"


def has_cell(proj):
    return "cell" in proj


def strip_generics(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and (i == 0 or s[i - 1] != "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return re.sub(r"(::)+", "::", "".join(out)).strip(":")


@functools.lru_cache(maxsize=None)
def short_key(name):
    """'std::cell::RefCell::<T>::borrow_mut' -> 'RefCell::borrow_mut'"""
    if name.startswith("<"):
        # <T as Trait>::method  /  <impl X>::method
        m = re.match(r"^<(.*)>::([A-Za-z_0-9]+)$", name)
        if m:
            body, meth = m.groups()
            if " as " in body:
                ty, tr = body.rsplit(" as ", 1)
                return strip_generics(tr).split("::")[-1] + "::" + meth
    m = re.match(r"^.*<impl ([^>]*?(?:<.*>)?[^>]*?)>::([A-Za-z_0-9]+)$", name)
    if m:
        ty, meth = m.groups()
        if " for " in ty:
            ty = ty.split(" for ")[0]
        t = strip_generics(ty).strip()
        if t.startswith("["):
            t = "slice"
        t = t.lstrip("*").strip()
        if t.startswith("const ") or t.startswith("mut "):
            t = "ptr"
        return t.split("::")[-1] + "::" + meth
    return "::".join(strip_generics(name).split("::")[-2:])


class Env:
    __slots__ = ("m", "facts", "epoch", "tls")

    def __init__(self, m=None, facts=None, epoch=0, tls=()):
        self.m = m if m is not None else {}
        self.facts = facts if facts is not None else {}
        self.epoch = epoch
        self.tls = tls

    def copy(self):
        return Env({k: dict(v) for k, v in self.m.items()}, dict(self.facts), self.epoch, self.tls)

    def freeze(self):
        return (
            frozenset((k, frozenset(v.items())) for k, v in self.m.items() if v),
            frozenset(self.facts.items()),
            self.epoch,
            self.tls,
        )

    # --- memory -------------------------------------------------------
    def read(self, loc):
        root, proj = loc
        d = self.m.get(root)
        if d:
            if proj in d:
                return d[proj]
            for n in range(len(proj) - 1, -1, -1):
                p = proj[:n]
                if p in d:
                    v = d[p]
                    if v[0] == "agg":
                        break
                    return mkproj(v, proj[n:])
        if has_cell(proj) or root[0] == "S":
            return ("init", loc, self.epoch)
        return ("init", loc)

    def tree(self, loc):
        root, proj = loc
        d = self.m.get(root) or {}
        n = len(proj)
        out = {}
        for p, v in d.items():
            if p[:n] == proj:
                out[p[n:]] = v
        if () not in out:
            out[()] = self.read(loc)
        return out

    def kill(self, loc):
        root, proj = loc
        d = self.m.get(root)
        if not d:
            return
        n = len(proj)
        for p in [p for p in d if p[:n] == proj]:
            del d[p]

    def write_tree(self, loc, tree):
        self.kill(loc)
        root, proj = loc
        d = self.m.setdefault(root, {})
        for p, v in tree.items():
            d[proj + p] = v

    def write(self, loc, v):
        self.write_tree(loc, {(): v})

    def eq(self, v):
        f = self.facts.get(v)
        return f

    def map_values(self, fn):
        for r in list(self.m):
            nd = {}
            for p, v in self.m[r].items():
                nd[p] = fn(v)
            self.m[r] = nd


ORDERING = {"Less": 255, "Equal": 0, "Greater": 1}


def discr_value(v):
    """discriminant of an enum value: the index of its variant, but for Ordering (Less is -1 in one byte)"""
    if v[2] == "core::cmp::Ordering":
        return ORDERING.get(v[4], v[3])
    return v[3]


def mkproj(v, rest):
    if v[0] == "proj":
        return ("proj", v[1], v[2] + tuple(rest))
    if v == TOP:
        return TOP
    return ("proj", v, tuple(rest))


class Ctx:
    __slots__ = ("id", "fn", "parent", "block", "cont", "depth", "cyc", "fnids", "tymap")


class Event:
    __slots__ = ("kind", "key", "id", "name", "args", "site", "loc", "ctx", "fn", "info", "tyargs",
                 "generic", "trees", "ty", "val", "dest", "block", "rargs")

    def arg(self, i):
        return self.args[i] if i < len(self.args) else TOP


class Monitor:
    """a rule automaton; states must be hashable"""

    inline_first = ()  # calls for which the program's own implementation comes before the model
    private = ()       # roots of memory that outside code is taken not to touch
    watch = False      # keep what is known about values the rule's state holds

    def init(self, eng, env):
        return ()

    def on_call(self, eng, ev, env, st):
        return st

    def on_enter(self, eng, fn, args, env, st, ctx):
        return st

    def on_exit(self, eng, fn, env, st, ctx, val):
        return st

    def on_drop(self, eng, ev, env, st):
        return st

    def on_store(self, eng, loc, val, env, st, where):
        return st

    def on_release(self, eng, guard, env, st, where):
        return st

    def on_acquire(self, eng, guard, env, st, where):
        return st

    def on_return(self, eng, val, env, st, where):
        return st

    def on_item(self, eng, it, item, env, st, where):
        """a loop over iterator value `it` yields the element value `item`"""
        return st

    def on_next(self, eng, it, env, st, where):
        """a loop over iterator value `it` is about to draw another element"""
        return st

    def on_end(self, eng, it, env, st, where):
        """a loop over iterator value `it` is exhausted"""
        return st

    # containers and iterators are modelled by content (lib/precise.py) instead of by shape
    precise = False

    def on_yield(self, eng, env, st, where):
        return st

    # scenario hook: results(eng, ev, env, st) -> None (analyse the call as usual) or a list of
    # (result tree or None for an unknown value, state, whether &mut arguments are clobbered
    #  [, what else the call does to memory: a function of the environment])
    results = None
    # answer(eng, ev, env, st) -> what an unknown callable answers (a tree), or None
    answer = None
    # cast(eng, env, value, kind of cast, site) -> the value a numeric cast between floats and integers gives, or None
    cast = None
    # at_yield(eng, env, st, where) -> how a suspended coroutine goes on: [(env, st, what it is resumed with)], instead of on_yield
    at_yield = None
    # item(eng, ev, env, st) -> what an outside function passed as a callable answers: [(tree, st)], or None
    item = None
    # called where a suspended coroutine that is dropped has dropped everything it held; None: such paths are not followed
    on_cordrop = None

    def opaque(self, eng, fn, ev):
        """do not inline this local function"""
        return False


class Engine:
    def __init__(self, facts, monitor, max_depth=14, follow_drops=True, unroll_user=True, merge=False):
        self.merge = merge
        self.budget = BUDGET
        self.seconds = 120
        self.F = facts
        self.mon = monitor
        self.max_depth = max_depth
        self.ctxs = []
        self.base = 0            # contexts are numbered from here (an engine working on the memory of another one)
        self.ctx_index = {}
        self.reports = []
        self.report_keys = set()
        self.stats = dict(states=0, calls=0, inlined=0, paths=0, unknown_calls=set())
        self.follow_drops = follow_drops
        self.models = dict(MODELS)
        if monitor.precise:
            from precise import PRECISE
            self.models.update(PRECISE)
        self.at = None
        self.analysed = set()

    # ------------------------------------------------------------------ util
    def report(self, key, msg, where):
        if (key, where) not in self.report_keys:
            self.report_keys.add((key, where))
            self.reports.append((key, msg, where))

    def ctx_get(self, parent, block, fn, cont):
        k = (parent.id if parent else None, block, fn.id, cont)
        c = self.ctx_index.get(k)
        if c is None:
            c = Ctx()
            c.id = len(self.ctxs) + self.base
            c.fn = fn
            c.parent = parent
            c.block = block
            c.cont = cont
            c.depth = parent.depth + 1 if parent else 0
            c.fnids = (parent.fnids if parent else ()) + (fn.id,)
            c.cyc = (parent.cyc or parent.fn_cyc(block) if False else False)
            if parent:
                c.cyc = parent.cyc or (block in cyclic_blocks(parent.fn)) or cont[0] == "again"
            self.ctxs.append(c)
            self.ctx_index[k] = c
            self.analysed.add(fn.id)
        return c

    def where(self, ctx, block):
        b = ctx.fn.blocks[block]
        return "%s (%s:%s)" % (ctx.fn.name, ctx.fn.loc.rsplit(":", 1)[0], b["l"])

    def is_cyc(self, ctx, block):
        return ctx.cyc or block in cyclic_blocks(ctx.fn)

    # ------------------------------------------------------------------ places
    def place(self, env, ctx, p):
        loc = (("L", ctx.id, p[0]), ())
        for e in p[1]:
            if e == "*":
                loc = self.deref(env, env.read(loc))
            elif e == "?":
                continue
            elif e[0] == "f":
                if e[3] in TRANSPARENT:
                    continue
                loc = (loc[0], loc[1] + (("f", e[2]),))
            elif e[0] == "v":
                loc = (loc[0], loc[1] + (("v", e[2] or str(e[1])),))
            elif e[0] == "i":
                iv = env.read((("L", ctx.id, e[1]), ()))
                loc = (loc[0], loc[1] + (("ix", iv),))
            elif e[0] == "ci":
                loc = (loc[0], loc[1] + (("ix", ("ci", e[1], e[2]) if e[2] else ("i", e[1])),))
            elif e[0] == "sub":
                loc = (loc[0], loc[1] + (("sub", e[1], e[2]),))
        return loc

    def deref(self, env, v):
        if v[0] == "ref":
            return v[1]
        if v[0] == "static":
            return (("S", v[1]), ())
        if v[0] == "guard":
            return v[2]
        return (("D", v), ())

    def operand_tree(self, env, ctx, o):
        if "cp" in o or "mv" in o:
            loc = self.place(env, ctx, o.get("cp") or o.get("mv"))
            return env.tree(loc)
        return {(): self.const(env, ctx, o)}

    def operand(self, env, ctx, o):
        if "cp" in o or "mv" in o:
            return env.read(self.place(env, ctx, o.get("cp") or o.get("mv")))
        return self.const(env, ctx, o)

    def const(self, env, ctx, o):
        if "rt" in o:
            return ("i", 0)
        c = o["c"]
        if "fn" in c:
            return ("fn", c["fn"].get("rid") or c["fn"]["id"], c["fn"]["name"])
        if "static" in c:
            return ("static", c["static"])
        if "v" in c:
            return ("i", int(c["v"]))
        if "str" in c:
            return ("s", c["str"])
        if "promoted" in c:
            return self.promoted(env, ctx, c)
        if "def" in c:
            return ("cst", c["def"], c.get("p"))
        if c.get("p") == "()":
            return UNIT
        t = ctx.fn.crate.tys[c["ty"]]
        if t.k == "closure":
            return ("agg", "closure", t.n, 0, "")
        return ("cst", "", c.get("p"))

    def promoted(self, env, ctx, c):
        f = self.F.fns.get(c["def"]) or ctx.fn
        pr = f.body.get("promoted") or []
        if c["promoted"] >= len(pr):
            return ("cst", c["def"], c["promoted"])
        key = ("P", c["def"], c["promoted"])
        fake = FakeFn(f, pr[c["promoted"]], key)
        pc = self.ctx_get(None, 0, fake, ("promoted",))
        b = 0
        n = 0
        while n < 20:
            n += 1
            blk = fake.blocks[b]
            for s in blk["s"]:
                if s[0] == "=":
                    self.assign(env, pc, self.place(env, pc, s[1]), s[2], b)
            t = blk["t"]
            if t[0] == "goto":
                b = t[1]
            elif t[0] == "call" and t[4] is not None:
                env.write(self.place(env, pc, t[3]), ("cst", c["def"], "call%d" % b))
                b = t[4]
            elif t[0] in ("assert",):
                b = t[3]
            else:
                break
        return env.read((("L", pc.id, 0), ()))

    # ------------------------------------------------------------------ rvalues
    def assign(self, env, ctx, loc, r, block):
        k = r[0]
        if k == "use":
            env.write_tree(loc, self.operand_tree(env, ctx, r[1]))
        elif k in ("ref", "raw"):
            env.write(loc, ("ref", self.place(env, ctx, r[1])))
        elif k == "agg":
            a = r[1]
            if a.get("n") in TRANSPARENT and len(r[2]) >= 1:
                env.write_tree(loc, self.operand_tree(env, ctx, r[2][0]))
                return
            tree = {(): ("agg", a["k"], a.get("n", ""), a.get("vi", 0), a.get("v", ""))}
            names = a.get("f")
            pre = ()
            if a["k"] == "adt":
                if self.is_enum(a["n"]):
                    pre = (("v", a["v"]),)
            for i, o in enumerate(r[2]):
                if a["k"] == "array":
                    sub = (("ix", ("i", i)),)
                else:
                    nm = names[i] if names and i < len(names) else str(i)
                    sub = pre + (("f", nm),)
                for p, v in self.operand_tree(env, ctx, o).items():
                    tree[sub + p] = v
            env.write_tree(loc, tree)
        elif k == "bin":
            a = self.operand(env, ctx, r[2])
            b = self.operand(env, ctx, r[3])
            uns = self.unsigned(ctx, r[2]) or self.unsigned(ctx, r[3])
            if r[1].endswith("WithOverflow"):
                v = self.widen(env, ctx, block, self.binop(env, r[1][:-12], a, b, uns))
                env.write_tree(loc, {(): ("agg", "tuple", "", 0, ""), (("f", "0"),): v, (("f", "1"),): ("i", 0)})
                return
            v = self.binop(env, r[1], a, b, uns)
            if r[1] in ("Add", "Sub"):
                v = self.widen(env, ctx, block, v)
            env.write(loc, v)
        elif k == "un":
            a = self.operand(env, ctx, r[2])
            if r[1] == "Not":
                if a[0] == "i" and a[1] in (0, 1):
                    env.write(loc, ("i", 1 - a[1]))
                elif a[0] == "op" and a[1] == "Not":
                    env.write(loc, a[2])
                else:
                    env.write(loc, ("op", "Not", a) if a != TOP else TOP)
            elif r[1] == "PtrMetadata":
                env.write(loc, ("op", "Len", a) if a != TOP else TOP)
            else:
                env.write(loc, ("op", r[1], a) if a != TOP else TOP)
        elif k == "discr":
            l = self.place(env, ctx, r[1])
            v = env.read(l)
            if v[0] == "agg" and v[1] == "adt":
                env.write(loc, ("i", discr_value(v)))
            else:
                while v[0] == "optref":
                    v = v[1]
                if v[0] == "agg":
                    env.write(loc, ("i", discr_value(v)))
                else:
                    env.write(loc, ("discr", v) if v != TOP else TOP)
        elif k == "cast":
            v = self.operand_tree(env, ctx, r[1])
            base = v[()]
            if "IntToInt" in r[2] or "Transmute" in r[2] or "Ptr" in r[2] or "Unsize" in r[2] or "Coercion" in r[2]:
                if "IntToInt" in r[2] and base[0] != "i" and len(r) > 4 and self.narrows(ctx, r[4], r[3]):
                    env.write(loc, ("op", "trunc", base) if base != TOP else TOP)
                else:
                    env.write_tree(loc, v)
            else:
                w = self.mon.cast(self, env, base, r[2], (ctx.id, block)) if self.mon.cast is not None else None
                env.write(loc, w if w is not None else ("op", "cast", base) if base != TOP else TOP)
        elif k == "repeat":
            o = self.operand(env, ctx, r[1])
            env.write(loc, ("repeat", o, r[2]))
        elif k == "tls":
            env.write(loc, ("static", r[1]))
        else:
            env.write(loc, TOP)
        # bound growth
        d = env.m.get(loc[0])
        if d:
            for p in list(d):
                if p[: len(loc[1])] == loc[1] and vdepth(d[p]) > 40:
                    d[p] = TOP

    ENUM_STD = {"core::option::Option", "core::result::Result", "core::task::poll::Poll",
                "core::ops::control_flow::ControlFlow", "core::cmp::Ordering", "alloc::borrow::Cow"}

    def is_enum(self, n):
        a = self.F.adts.get(n)
        if a:
            return a["kind"] == "Enum"
        return n in self.ENUM_STD

    def unsigned(self, ctx, o):
        p = o.get("cp") or o.get("mv") if isinstance(o, dict) else None
        if p is None:
            return False
        ty = self.optype(ctx, p)
        return ty is not None and ty.s in ("usize", "u8", "u16", "u32", "u64", "u128")

    def widen(self, env, ctx, block, v):
        """arithmetic that feeds itself around a loop becomes one symbol per program point"""
        if v[0] == "op" and v[1] == "Add" and v[3][0] == "i" and self.is_cyc(ctx, block):
            site = ("@", ctx.id, block, "w")
            if abs(v[3][1]) >= 2 or mentions(v[2], site):
                self.purge(env, site)
                return ("sym", site, "widen", ())
        return v

    BITS = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64, "i128": 128, "u128": 128,
            "usize": 32, "isize": 32}

    def narrows(self, ctx, a, b):
        """an integer cast from type a to type b can lose information (usize counts as 32 bits: the target is wasm32)"""
        ty = ctx.fn.crate.tys
        a, b = self.BITS.get(ty[a].s), self.BITS.get(ty[b].s)
        return a is not None and b is not None and b < a

    def binop(self, env, op, a, b, uns=False):
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            r = {"Add": x + y, "Sub": x - y, "Mul": x * y, "Eq": int(x == y), "Ne": int(x != y),
                 "Lt": int(x < y), "Le": int(x <= y), "Gt": int(x > y), "Ge": int(x >= y),
                 "BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}.get(op)
            if y and op in ("Div", "Rem"):
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                r = q if op == "Div" else x - q * y
            elif op == "Shr" and x >= 0 and 0 <= y < 32:
                r = x >> y
            elif op == "Shl" and x >= 0 and 0 <= y < 32:
                r = x << y
            if r is not None:
                if abs(r) > 64:
                    return TOP
                return ("i", r)
        if a == TOP or b == TOP:
            return TOP
        op = {"AddUnchecked": "Add", "SubUnchecked": "Sub"}.get(op, op)
        if op == "Add" and a[0] == "i":
            a, b = b, a
        if op == "Sub" and b[0] == "i":
            op, b = "Add", ("i", -b[1])
        if op == "Sub" and a == b:
            return ("i", 0)
        if op == "Add" and b[0] == "i":
            x, k = lin(a)
            k += b[1]
            if k == 0:
                return x
            return TOP if abs(k) > 64 else ("op", "Add", x, ("i", k))
        if op in ("BitAnd", "BitOr"):
            for x, y in ((a, b), (b, a)):
                k = self.known(env, x)
                if k in (0, 1) and is_boolean(y):
                    if op == "BitAnd":
                        return y if k else ("i", 0)
                    return ("i", 1) if k else y
        if op in ("Eq", "Ne") and b[0] == "i":
            # comparison of a boolean with a literal
            if a[0] == "op" and a[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Not") and b[1] in (0, 1):
                t = (op == "Eq") == (b[1] == 1)
                return a if t else neg(a)
        if op == "Ne":
            return neg(self.binop(env, "Eq", a, b, uns))
        if op == "Gt":
            return self.binop(env, "Lt", b, a, uns)
        if op == "Ge":
            return neg(self.binop(env, "Lt", a, b, uns))
        if op == "Le":
            return neg(self.binop(env, "Lt", b, a, uns))
        if op in ("Eq", "Lt"):
            (x, k), (y, l) = lin(a), lin(b)
            if x == y:
                return ("i", int(k == l if op == "Eq" else k < l))
            if y == ("i", 0) and k:
                a, b = x, ("i", l - k)
            elif x == ("i", 0) and l:
                a, b = ("i", k - l), y
            if op == "Eq" and a[0] == "i" and b[0] != "i":
                a, b = b, a
            if op == "Eq" and a[0] != "i" and b[0] != "i" and repr(b) < repr(a):
                a, b = b, a
            if op == "Lt" and (uns or is_count(a) or is_count(b)):
                if b == ("i", 1):
                    return ("op", "Eq", a, ("i", 0))
                if a == ("i", 0):
                    return ("op", "Not", ("op", "Eq", b, ("i", 0)))
                if b == ("i", 0):
                    return ("i", 0)
            if uns and op == "Eq" and b[0] == "i" and b[1] < 0:
                return ("i", 0)
        return ("op", op, a, b)

    # ------------------------------------------------------------------ facts
    def known(self, env, v):
        """the integer v is known to equal, or None"""
        if v[0] == "i":
            return v[1]
        f = env.facts.get(v)
        if f is not None and f[0] == "eq":
            return f[1]
        if v[0] == "op" and v[1] == "Not":
            k = self.known(env, v[2])
            if k in (0, 1):
                return 1 - k
        if v[0] == "op" and v[1] == "Lt":
            ka, kb = self.known(env, v[2]), self.known(env, v[3])
            if ka is not None and kb is not None:
                return int(ka < kb)
        if v[0] == "op" and v[1] == "Add" and v[3][0] == "i":
            k = self.known(env, v[2])
            if k is not None:
                return k + v[3][1]
        if v[0] == "op" and v[1] == "Eq":
            a, b = v[2], v[3]
            if a == b and a != TOP:
                return 1
            ka, kb = self.known(env, a), self.known(env, b)
            if ka is not None and kb is not None:
                return int(ka == kb)
            for x, y in ((a, kb), (b, ka)):
                if y is not None:
                    g = env.facts.get(x)
                    if g is not None and g[0] == "ne" and y in g[1]:
                        return 0
        return None

    def excluded(self, env, v, n):
        if v[0] == "op" and v[1] == "Add" and v[3][0] == "i":
            return self.excluded(env, v[2], n - v[3][1])
        f = env.facts.get(v)
        return f is not None and f[0] == "ne" and n in f[1]

    def assume(self, env, v, n):
        """env with v == n, or None if contradictory"""
        k = self.known(env, v)
        if k is not None:
            return env if k == n else None
        if self.excluded(env, v, n):
            return None
        if v == TOP:
            return env
        env = env.copy()
        if v[0] == "op" and v[1] == "Not" and n in (0, 1):
            return self.assume(env, v[2], 1 - n)
        if v[0] == "op" and v[1] == "Eq" and n in (0, 1):
            x, y = v[2], v[3]
            kx, ky = self.known(env, x), self.known(env, y)
            if ky is not None and kx is None:
                return self.assume(env, x, ky) if n else self.assume_not(env, x, [ky])
            if kx is not None and ky is None:
                return self.assume(env, y, kx) if n else self.assume_not(env, y, [kx])
        if v[0] == "op" and v[1] == "Add" and v[3][0] == "i":
            return self.assume(env, v[2], n - v[3][1])
        env.facts[v] = ("eq", n)
        if v[0] == "op" and v[1] == "Eq" and n in (0, 1):
            a, b = v[2], v[3]
            for x, y in ((a, b), (b, a)):
                ky = self.known(env, y)
                if ky is not None and x != TOP:
                    if n == 1:
                        e2 = self.assume(env, x, ky)
                        if e2 is None:
                            return None
                        env = e2
                    else:
                        if self.known(env, x) == ky:
                            return None
                        f = env.facts.get(x)
                        if f is None or f[0] == "ne":
                            env.facts[x] = ("ne", (f[1] if f else frozenset()) | {ky})
        return env

    def assume_not(self, env, v, ns, nvalues=None):
        k = self.known(env, v)
        if k is not None:
            return env if k not in ns else None
        if v == TOP:
            return env
        if nvalues is not None:
            rest = [x for x in range(nvalues) if x not in ns and not self.excluded(env, v, x)]
            if not rest:
                return None
            if len(rest) == 1:
                return self.assume(env, v, rest[0])
        if v[0] == "op" and v[1] == "Add" and v[3][0] == "i":
            return self.assume_not(env, v[2], [x - v[3][1] for x in ns])
        if v[0] == "op" and v[1] in ("Not", "Eq", "Lt"):
            rest = [x for x in (0, 1) if x not in ns]
            return self.assume(env, v, rest[0]) if len(rest) == 1 else (None if not rest else env)
        env = env.copy()
        f = env.facts.get(v)
        env.facts[v] = ("ne", (f[1] if f else frozenset()) | frozenset(ns))
        return env

    # ------------------------------------------------------------------ fresh symbols
    def sym(self, env, ctx, block, name, args, tag=""):
        site = ("@", ctx.id, block, tag)
        if self.is_cyc(ctx, block):
            self.purge(env, site)
        args = tuple(a if vdepth(a) < 24 else TOP for a in args)
        return ("sym", site, name, args)

    def purge(self, env, site):
        def fix(v):
            return TOP if mentions(v, site) else v

        for r in list(env.m):
            if mentions(r, site):
                del env.m[r]
                continue
            d = env.m[r]
            nd = {}
            for p, v in d.items():
                if mentions(p, site):
                    continue
                nd[p] = fix(v)
            env.m[r] = nd
        for f in [f for f in env.facts if mentions(f, site)]:
            del env.facts[f]
        if mentions(env.tls, site):
            env.tls = tuple((k, TOP if mentions(v, site) else v) for k, v in env.tls)

    def havoc_cells(self, env, ctx, block):
        """user code may run: shared interior-mutable state may change"""
        site = ("@", ctx.id, block, "epoch")
        if self.is_cyc(ctx, block):
            self.purge(env, site)
        held = {v[2] for d in env.m.values() for v in d.values() if v[0] == "guard"}    # nobody else can write these now
        for r in list(env.m):
            d = env.m[r]
            if r in self.mon.private:
                continue
            if r[0] == "S":
                env.m[r] = {}
            else:
                mine = [g[1] for g in held if g[0] == r]
                for p in [p for p in d if has_cell(p)]:
                    if not any(p[:len(g)] == g and not has_cell(p[len(g):]) for g in mine):
                        del d[p]
        env.epoch = site

    def havoc(self, env, ctx, block, loc, tag):
        v = self.sym(env, ctx, block, "havoc", (), tag)
        env.write(loc, v)

    # ------------------------------------------------------------------ exploration
    def run(self, fn, argvals=None, env=None, st=None):
        root = self.ctx_get(None, 0, fn, ("root",))
        self.root = root
        env = env or Env()
        if argvals:
            for i, v in argvals.items():
                if isinstance(v, dict):
                    env.write_tree((("L", root.id, i), ()), v)
                else:
                    env.write((("L", root.id, i), ()), v)
        if st is None:
            st = self.mon.init(self, env)
        self.visited = {}
        self.work = [(root, 0, None, env, st)]
        t0 = time.time()
        while self.work:
            if time.time() - t0 > self.seconds:
                raise Incomplete("time budget exceeded in %s" % fn.name)
            ctx, block, phase, env, st = self.work.pop()
            self.step(ctx, block, phase, env, st)
        return self.reports

    def push(self, ctx, block, phase, env, st):
        if st is None:
            return
        self.work.append((ctx, block, phase, env, st))

    def enter_block(self, ctx, block, env):
        fn = ctx.fn
        live = liveness(fn)[block]
        for r in [r for r in env.m if r[0] == "L" and r[1] == ctx.id]:
            if r[2] > 0 and r[2] not in live:
                del env.m[r]

    def gc(self, env, st=None):
        """drop facts nobody can consult any more (keeps the state space finite and small)"""
        if not env.facts:
            return
        used = set()
        if self.mon.watch:
            watched(st, used)
        for r, d in env.m.items():
            for p, v in d.items():
                used |= terms(v)
                if p:
                    used |= terms(p)
            used |= terms(r)
        memo = {}

        def alive(v):
            if v in used:
                return True
            r = memo.get(v)
            if r is None:
                r = memo[v] = alive1(v)
            return r

        def alive1(v):
            k = v[0]
            if k in ("i", "s", "cst", "static", "fn", "unit", "null", "tree", "ctx0"):
                return True
            if k in ("sym", "top", "guard"):
                return False
            if k == "init":
                if len(v) > 2 and v[2] != env.epoch:
                    return False
                return alive_root(v[1][0]) and env.read(v[1]) == v
            if k in ("proj", "discr", "deref", "optref", "clone"):
                return alive(v[1])
            if k == "op":
                return all(alive(x) for x in v[2:] if isinstance(x, tuple) and x and isinstance(x[0], str))
            if k == "ref":
                return alive_root(v[1][0])
            return False

        def alive_root(r):
            if r[0] == "D":
                return alive(r[1])
            if r[0] == "L":
                return r in env.m or r[1] == 0
            return True

        for f in list(env.facts):
            if not alive(f):
                del env.facts[f]

    def arrive(self, ctx, block, ph, env, st):
        """the state to continue with, or None when it was explored before"""
        self.gc(env, st)
        if not self.merge:
            k = (ctx.id, block, ph, env.freeze(), st)
            if k in self.visited:
                return None
            self.visited[k] = True
            return env
        k = (ctx.id, block, ph, st)
        old = self.visited.get(k)
        if old is None:
            self.visited[k] = env.copy()
            return env
        j = self.join(old, env, ("@", ctx.id, block, "phi" + ph))
        if j is None:
            return None
        self.visited[k] = j
        return j.copy()

    def join(self, a, b, site):
        """least upper bound of two memories, or None when it is a"""
        changed = False
        m = {}
        for r, da in a.m.items():
            db = b.m.get(r)
            if db is None:
                if da:
                    changed = True
                continue
            d = {}
            for p, va in da.items():
                vb = db.get(p)
                if vb is None:
                    # only one side describes this place: keep payloads of an enum, forget the rest
                    if any(isinstance(e, tuple) and e[0] == "v" for e in p):
                        d[p] = va
                    else:
                        phi = ("sym", site + (r, p), "phi", ())
                        d[p] = phi
                        if va != phi:
                            changed = True
                elif va == vb:
                    d[p] = va
                else:
                    phi = ("sym", site + (r, p), "phi", ())
                    d[p] = phi
                    if va != phi:
                        changed = True
            for p, vb in db.items():
                if p not in da:
                    if any(isinstance(e, tuple) and e[0] == "v" for e in p):
                        d[p] = vb
                    else:
                        d[p] = ("sym", site + (r, p), "phi", ())
                    changed = True
            m[r] = d
        facts = {f: x for f, x in a.facts.items() if b.facts.get(f) == x}
        if len(facts) != len(a.facts):
            changed = True
        ep = a.epoch
        if a.epoch != b.epoch:
            ep = site
            if a.epoch != site:
                changed = True
        tls = a.tls
        if a.tls != b.tls:
            tls = tuple((k, va if va == vb else ("sym", site + ("tls", k), "phi", ())) for (k, va), (_, vb) in zip(a.tls, b.tls))
            if tls != a.tls:
                changed = True
        if not changed:
            return None
        return Env(m, facts, ep, tls)

    def step(self, ctx, block, phase, env, st):
        fn = ctx.fn
        while True:
            self.at = (ctx, block)
            if phase is None:
                b = fn.blocks[block]
                if b["cl"]:
                    return
                self.enter_block(ctx, block, env)
                if preds(fn)[block] > 1 or block == 0 or self.merge and self.is_cyc(ctx, block):
                    env = self.arrive(ctx, block, "", env, st)
                    if env is None:
                        return
                    self.stats["states"] += 1
                    if self.stats["states"] > self.budget:
                        raise Incomplete("state budget exceeded in %s" % self.root.fn.name)
                for s in b["s"]:
                    if s[0] == "=":
                        loc = self.place(env, ctx, s[1])
                        self.assign(env, ctx, loc, s[2], block)
                        if s[1][1]:
                            st = self.mon.on_store(self, loc, env.read(loc), env, st, self.where(ctx, block))
                            if st is None:
                                return
                    elif s[0] == "setd":
                        loc = self.place(env, ctx, s[1])
                        env.write((loc[0], loc[1]), ("agg", "adt", "", s[2], str(s[2])))
                    elif s[0] == "dead":
                        env.m.pop(("L", ctx.id, s[1]), None)
            elif phase[0] == "again":
                env = self.arrive(ctx, block, "again", env, st)
                if env is None:
                    return
            t = fn.blocks[block]["t"]
            k = t[0]
            if k == "goto":
                block = t[1]
                phase = None
                continue
            if k == "return":
                self.do_return(ctx, block, env, st)
                return
            if k == "cordrop" and self.mon.on_cordrop is not None:
                self.mon.on_cordrop(self, env, st, self.where(ctx, block))
                return
            if k in ("unreachable", "resume", "abort", "cordrop", "asm"):
                return
            if k == "assert":
                block = t[3]
                phase = None
                continue
            if k == "yield" and self.mon.at_yield is not None:
                for e2, st2, v in self.mon.at_yield(self, env, st, self.where(ctx, block)):
                    e2.write(self.place(e2, ctx, t[3]), v)
                    self.push(ctx, t[2], None, e2, st2)
                return
            if k == "yield":
                st = self.mon.on_yield(self, env, st, self.where(ctx, block))
                if st is None:
                    return
                if self.mon.on_cordrop is not None and t[4] is not None:
                    self.push(ctx, t[4], None, env.copy(), st)
                self.havoc_cells(env, ctx, block)
                env.write(self.place(env, ctx, t[3]), self.sym(env, ctx, block, "resume", ()))
                block = t[2]
                phase = None
                continue
            if k == "switch":
                v = self.operand(env, ctx, t[1])
                n = self.known(env, v)
                if n is not None:
                    tgt = t[3]
                    for val, bb in t[2]:
                        if int(val) == n:
                            tgt = bb
                    block = tgt
                    phase = None
                    continue
                nv = self.nvalues(ctx, t[1], v)
                for val, bb in t[2]:
                    if fn.blocks[bb]["t"][0] == "unreachable" and not fn.blocks[bb]["s"]:
                        continue
                    e2 = self.assume(env, v, int(val))
                    if e2 is not None:
                        self.push(ctx, bb, None, e2.copy(), st)
                ob = t[3]
                if not (fn.blocks[ob]["t"][0] == "unreachable" and not fn.blocks[ob]["s"]):
                    e2 = self.assume_not(env, v, [int(x[0]) for x in t[2]], nv)
                    if e2 is not None:
                        self.push(ctx, ob, None, e2.copy(), st)
                return
            if k == "drop":
                self.do_drop(ctx, block, t, phase, env, st)
                return
            if k == "call":
                self.do_call(ctx, block, t, phase, env, st)
                return
            raise Incomplete("terminator %s" % k)

    def nvalues(self, ctx, o, v):
        if "cp" in o or "mv" in o:
            p = o.get("cp") or o.get("mv")
            if not p[1]:
                ty = ctx.fn.ty(p[0])
                if ty.s == "bool":
                    return 2
        if v[0] == "discr":
            return None
        return None

    # ------------------------------------------------------------------ returns
    def do_return(self, ctx, block, env, st):
        tree = env.tree((("L", ctx.id, 0), ()))
        val = tree[()]
        for r in [r for r in env.m if r[0] == "L" and r[1] == ctx.id]:
            del env.m[r]
        st = self.mon.on_exit(self, ctx.fn, env, st, ctx, tree)
        if st is None:
            return
        cont = ctx.cont
        if cont[0] == "root":
            self.stats["paths"] += 1
            self.mon.on_return(self, tree, env, st, self.where(ctx, block))
            return
        p, pb = ctx.parent, ctx.block
        self.resume(p, pb, cont, tree, env, st)

    def resume(self, p, pb, cont, tree, env, st):
        t = p.fn.blocks[pb]["t"]
        k = cont[0]
        if k == "drop":
            self.push(p, pb, ("drop", cont[1]), env, st)
            return
        if k == "again":
            self.push(p, pb, ("again",), env, st)
            return
        if k == "tls":
            env.tls = env.tls[:-1]
            k = "ret"
        if k == "wrap":
            vi, vn, adt = cont[1:4]
            nt = {(): ("agg", "adt", adt, vi, vn)}
            for pp, v in tree.items():
                nt[(("v", vn), ("f", "0")) + pp] = v
            tree = nt
        elif k == "discard":
            tree = {(): cont[1]}
        elif k == "each":
            tree = {(): ("each", cont[1], tuple(sorted(tree.items(), key=repr)), cont[2])}
        elif k == "place":
            env.write_tree((("D", cont[1]), ()), tree)
            tree = {(): cont[1]}
        elif k == "into":
            env.write_tree(self.deref(env, cont[1]), tree)
            tree = {(): cont[1]}
        elif k == "acc":
            env.write_tree((cont[1], ()), tree)
            self.push(p, pb, ("again",), env, st)
            return
        elif k == "gmap":
            tree = {(): self.reguard(env, cont[1], tree[()])}
        elif k == "gfmap":
            from models import variant_fork, payload, some, wrap
            for vi, vn, e in variant_fork(self, env, tree, ("None", "Some")):
                if vn == "Some":
                    g = self.reguard(e, cont[1], payload(tree, "Some")[()])
                    self.finish_call(p, pb, t, wrap({(): g}, 0, "Ok", "core::result::Result"), e, st)
                else:
                    self.finish_call(p, pb, t, wrap({(): cont[1]}, 1, "Err", "core::result::Result"), e, st)
            return
        self.finish_call(p, pb, t, tree, env, st)

    def reguard(self, env, g, v):
        """the guard g narrowed to the place v points to"""
        if g[0] == "guard":
            return ("guard", g[1], self.deref(env, v), g[3])
        return ("gproj", g, v)

    def finish_call(self, ctx, block, t, tree, env, st):
        if t[4] is None:
            return
        loc = self.place(env, ctx, t[3])
        env.write_tree(loc, tree)
        if t[3][1]:
            st = self.mon.on_store(self, loc, env.read(loc), env, st, self.where(ctx, block))
            if st is None:
                return
        self.push(ctx, t[4], None, env, st)

    # ------------------------------------------------------------------ calls
    def inline(self, ctx, block, fn, argtrees, cont, env, st):
        c = self.ctx_get(ctx, block, fn, cont)
        for r in [r for r in env.m if r[0] == "L" and r[1] == c.id]:
            del env.m[r]
        for i, tr in enumerate(argtrees):
            env.write_tree((("L", c.id, i + 1), ()), tr)
        st = self.mon.on_enter(self, fn, argtrees, env, st, c)
        if st is None:
            return
        self.stats["inlined"] += 1
        self.push(c, 0, None, env, st)

    def can_inline(self, ctx, fn, ev):
        if fn is None or fn.coroutine:
            return False
        if fn.id in ctx.fnids or ctx.depth >= self.max_depth:
            return False
        return not self.mon.opaque(self, fn, ev)

    def find_closure(self, env, tree):
        """the closure body behind a callable value, with the tree of its captures"""
        v = tree[()]
        n = 0
        while v[0] == "ref" and n < 6:
            tree = env.tree(v[1])
            v = tree[()]
            n += 1
        if v[0] == "agg" and v[1] == "closure":
            return self.F.fns.get(v[2]), tree
        if v[0] == "fn":
            return ("fnitem", v), tree
        return None, tree

    def call_closure(self, ctx, block, ctree, args, cont, env, st, t):
        """run a callable value with (untupled) argument trees; False when it is not known code"""
        f, tree = self.find_closure(env, ctree)
        if isinstance(f, tuple):
            fid = f[1][1]
            g = self.F.fns.get(fid)
            if g is not None and self.can_inline(ctx, g, None):
                self.inline(ctx, block, g, args, cont, env, st)
                return True
            name = f[1][2]
            ev = self.event(ctx, block, short_key(name), fid, name, args, t, env)
            st = self.mon.on_call(self, ev, env, st)
            if st is None:
                return True
            if self.mon.item is not None:
                alts = self.mon.item(self, ev, env, st)
                if alts is not None:
                    for tree, st1 in alts:
                        self.resume(ctx, block, cont, tree, env.copy(), st1)
                    return True
            r = self.model_simple(ctx, block, ev, args, env)
            if r is None:
                r = {(): self.sym(env, ctx, block, ev.key, [a[()] for a in args], "fnitem")}
            self.resume(ctx, block, cont, r, env, st)
            return True
        if f is None or not self.can_inline(ctx, f, None):
            return False
        c = self.ctx_get(ctx, block, f, cont)
        sty = f.ty(1)
        if sty.k == "ref":
            tmp = (("L", c.id, -1), ())
            # captures live where they were; bind self to them
            v = ctree[()]
            if v[0] == "ref" and env.read(v[1])[0] == "agg":
                selft = {(): v}
            elif v[0] == "ref" and env.read(v[1])[0] == "ref":
                selft = {(): env.read(v[1])}
            else:
                src = self.home(env, tree)
                if src is not None:
                    selft = {(): ("ref", src)}
                else:
                    env.write_tree(tmp, tree)
                    selft = {(): ("ref", tmp)}
                    self.inline_keep(ctx, block, f, [selft] + args, cont, env, st, tmp, tree)
                    return True
        else:
            selft = tree
        self.inline(ctx, block, f, [selft] + args, cont, env, st)
        return True

    def home(self, env, tree):
        return None

    def inline_keep(self, ctx, block, fn, argtrees, cont, env, st, tmp, tree):
        c = self.ctx_get(ctx, block, fn, cont)
        for r in [r for r in env.m if r[0] == "L" and r[1] == c.id]:
            del env.m[r]
        env.write_tree(tmp, tree)
        for i, tr in enumerate(argtrees):
            env.write_tree((("L", c.id, i + 1), ()), tr)
        st = self.mon.on_enter(self, fn, argtrees, env, st, c)
        if st is None:
            return
        self.stats["inlined"] += 1
        self.push(c, 0, None, env, st)

    def event(self, ctx, block, key, id, name, argtrees, t, env, info=None):
        ev = Event()
        ev.kind = "call"
        ev.key = key
        ev.id = id
        ev.name = name
        ev.trees = argtrees
        ev.args = [a[()] for a in argtrees]
        ev.site = (ctx.id, block)
        ev.loc = self.where(ctx, block)
        ev.ctx = ctx
        ev.fn = ctx.fn
        ev.info = info
        ev.tyargs = ()
        ev.block = block
        if info:
            ev.tyargs = tuple(ctx.fn.crate.tys[a] if isinstance(a, int) else a for a in info.get("args", ()))
        return ev

    def do_call(self, ctx, block, t, phase, env, st):
        self.stats["calls"] += 1
        f = t[1]
        args = [self.operand_tree(env, ctx, a) for a in t[2]]
        if "c" in f and "fn" in f["c"]:
            info = f["c"]["fn"]
            cid = info.get("rid") or info["id"]
            name = info["name"]
        else:
            ct = self.operand_tree(env, ctx, f)
            if self.call_closure(ctx, block, ct, args, ("ret",), env, st, t):
                return
            info = None
            cid = "<indirect>"
            name = "<indirect>::call"
        key = short_key(name)
        ev = self.event(ctx, block, key, cid, name, args, t, env, info)

        # closure / fn-pointer invocation through the Fn traits
        if key in ("FnOnce::call_once", "FnMut::call_mut", "Fn::call"):
            tup = args[1]
            n = 0
            un = []
            argty = None
            if "cp" in t[2][1] or "mv" in t[2][1]:
                p = t[2][1].get("cp") or t[2][1].get("mv")
                argty = ctx.fn.ty(p[0]) if not p[1] else None
                if argty is not None and argty.k == "tuple":
                    base = self.place(env, ctx, p)
                    for i in range(len(argty.a)):
                        un.append(env.tree((base[0], base[1] + (("f", str(i)),))))
            if self.call_closure(ctx, block, args[0], un, ("ret",), env, st, t):
                return
            self.user_call(ctx, block, t, ev, env, st)
            return

        # the scoped thread local that carries the rendering context
        if cid.split("::")[-1] in ("with", "set") and "scoped" not in cid and self.is_scoped_tls(ctx, t, info):
            m = cid.split("::")[-1]
            st2 = self.mon.on_call(self, ev, env, st)
            if st2 is None:
                return
            st = st2
            if m == "set":
                env.tls = env.tls + (("ctx", args[1][()]),)
                if self.call_closure(ctx, block, args[2], [], ("tls",), env, st, t):
                    return
                raise Incomplete("context scope with unknown body in %s" % self.where(ctx, block))
            cur = env.tls[-1][1] if env.tls else ("ctx0",)
            if self.call_closure(ctx, block, args[1], [{(): cur}], ("ret",), env, st, t):
                return
            raise Incomplete("context access with unknown body in %s" % self.where(ctx, block))

        if self.mon.results is not None:
            alts = self.mon.results(self, ev, env, st)
            if alts is not None:
                for alt in alts:
                    tree, st1, havoc = alt[:3]
                    e2 = env.copy()
                    if len(alt) > 3:
                        alt[3](e2)
                    s2 = self.mon.on_call(self, ev, e2, st1)
                    if s2 is None:
                        continue
                    if havoc:
                        for i, a in enumerate(args):
                            self.havoc_arg(e2, ctx, block, t[2][i], a, i)
                    if tree is None:
                        tree = {(): self.sym(e2, ctx, block, ev.key, ev.args)}
                    self.finish_call(ctx, block, t, tree, e2, s2)
                return

        mkey = key
        m = self.models.get(mkey)
        if m is not None and getattr(m, "when", None) is not None and not m.when(self, ev, env):
            m = None
        if m is not None and mkey in self.mon.inline_first and cid in self.F.fns:
            m = None
        if m is not None:
            if phase is None:
                st = self.mon.on_call(self, ev, env, st)
                if st is None:
                    return
            r = m(self, ctx, block, t, ev, args, env, st, phase)
            if r is not NotImplemented:
                return

        fn = self.F.fns.get(cid)
        if fn is None and info and info.get("trait"):
            # trait method with a default body in the workspace, receiver statically unknown
            pass
        if fn is not None and info is not None and info.get("trait") and "rid" not in info and not self.F.sealed_default(info):
            fn = None
        if fn is not None and self.can_inline(ctx, fn, ev):
            self.inline(ctx, block, fn, args, ("ret",), env, st)
            return

        if phase is None:
            st = self.mon.on_call(self, ev, env, st)
            if st is None:
                return
        self.generic_call(ctx, block, t, ev, args, env, st, phase, local=fn is not None)

    def is_scoped_tls(self, ctx, t, info):
        if not t[2]:
            return False
        o = t[2][0]
        p = o.get("mv") or o.get("cp")
        ty = ctx.fn.ty(p[0]) if p and not p[1] else None
        if ty is not None and ty.k == "ref" and ty.t.k == "adt":
            last = ty.t.n.split("::")[-1]
            return last.isupper() and len(last) > 3
        return False

    def user_call(self, ctx, block, t, ev, env, st):
        ev.kind = "user"
        st = self.mon.on_call(self, ev, env, st)
        if st is None:
            return
        self.havoc_cells(env, ctx, block)
        for i, a in enumerate(ev.trees):
            self.havoc_arg(env, ctx, block, t[2][i], a, i)
        tree = self.mon.answer(self, ev, env, st) if self.mon.answer else None
        self.finish_call(ctx, block, t, tree or {(): self.sym(env, ctx, block, ev.key, ev.args)}, env, st)

    USER_KEYS = {"Future::poll", "Stream::poll_next", "Waker::wake", "Waker::wake_by_ref", "Wake::wake",
                 "Wake::wake_by_ref"}

    def generic_call(self, ctx, block, t, ev, args, env, st, phase, local=False):
        """a call to code outside the analysed program"""
        # callables passed in may run any number of times
        calls = [a for a in args if self.find_closure(env, a)[0] is not None
                 and not isinstance(self.find_closure(env, a)[0], tuple)]
        for i, a in enumerate(calls):
            f, tr = self.find_closure(env, a)
            if not self.can_inline(ctx, f, None):
                continue
            e2 = env.copy()
            un = [{(): self.sym(e2, ctx, block, "cbarg", ev.args, "cb%d_%d" % (i, j))} for j in range(f.argc - 1)]
            self.call_closure(ctx, block, a, un, ("again",), e2, st, t)
        if ev.key in self.USER_KEYS or (ev.info and ev.info.get("trait") and "rid" not in ev.info) or local:
            self.havoc_cells(env, ctx, block)
        for i, a in enumerate(args):
            self.havoc_arg(env, ctx, block, t[2][i], a, i)
        self.stats["unknown_calls"].add(ev.key)
        self.finish_call(ctx, block, t, {(): self.sym(env, ctx, block, ev.key, ev.args)}, env, st)

    def havoc_arg(self, env, ctx, block, o, tree, i):
        v = tree[()]
        if v[0] == "ref":
            p = o.get("mv") or o.get("cp")
            ty = self.optype(ctx, p) if p else None
            if ty is not None and ty.k == "adt" and ty.n == "core::pin::Pin" and ty.a:
                ty = ty.a[0]
            if ty is None or ((ty.k in ("ref", "ptr")) and ty.m):
                self.havoc(env, ctx, block, v[1], "h%d" % i)
        for p, w in tree.items():
            if p and w[0] == "ref" and tree[()][0] == "agg" and tree[()][1] in ("closure", "adt", "tuple"):
                pass

    def optype(self, ctx, p):
        ty = ctx.fn.ty(p[0])
        for e in p[1]:
            if e == "*":
                ty = ty.t if ty is not None and ty.k in ("ref", "ptr") else None
            elif isinstance(e, (list, tuple)) and e[0] == "f":
                ty = ctx.fn.crate.tys[e[4]]
            elif isinstance(e, (list, tuple)) and e[0] == "v":
                continue
            else:
                ty = None
            if ty is None:
                return None
        return ty

    def model_simple(self, ctx, block, ev, args, env):
        m = SIMPLE.get(ev.key)
        if m is None:
            return None
        return m(self, ctx, block, ev, args, env)

    # ------------------------------------------------------------------ drops
    def do_drop(self, ctx, block, t, phase, env, st):
        if phase is None or phase[0] != "drop":
            if not t[5]:
                self.push(ctx, t[3], None, env, st)
                return
            loc = self.place(env, ctx, t[1])
            ty = ctx.fn.crate.tys[t[2]]
            seq = tuple(self.drop_seq(env, loc, ty, 0))
        else:
            seq = phase[1]
        while seq:
            a = seq[0]
            seq = seq[1:]
            if a[0] == "release":
                st = self.mon.on_release(self, a[1], env, st, self.where(ctx, block))
                if st is None:
                    return
            elif a[0] == "maybe":
                self.push(ctx, block, ("drop", tuple(a[1]) + seq), env.copy(), st)
            elif a[0] == "run":
                tr = env.tree(a[1])
                if self.call_closure(ctx, block, pre(tr, (("f", "dropfn"),)), [pre(tr, (("f", "value"),))], ("drop", seq), env, st, t):
                    return
                raise Incomplete("scope guard with unknown body in %s" % self.where(ctx, block))
            elif a[0] == "call":
                fn = self.F.fns.get(a[1])
                if fn is not None and self.can_inline(ctx, fn, None):
                    self.inline(ctx, block, fn, [{(): ("ref", a[2])}], ("drop", seq), env, st)
                    return
                ev = self.event(ctx, block, "Drop::drop", a[1], a[1], [{(): ("ref", a[2])}], t, env)
                ev.kind = "drop"
                st = self.mon.on_drop(self, ev, env, st)
                if st is None:
                    return
            else:
                ev = self.event(ctx, block, "drop", a[0], a[2].s, [{(): ("ref", a[1])}], t, env)
                ev.kind = "drop"
                ev.ty = a[2]
                ev.val = env.read(a[1])
                st = self.mon.on_drop(self, ev, env, st)
                if st is None:
                    return
                if a[0] == "user":
                    self.havoc_cells(env, ctx, block)
        loc = self.place(env, ctx, t[1])
        if not t[1][1]:
            env.m.pop(("L", ctx.id, t[1][0]), None)
        self.push(ctx, t[3], None, env, st)

    NODROP = {"core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_uninit::MaybeUninit",
              "core::marker::PhantomData"}

    def drop_seq(self, env, loc, ty, depth):
        v = env.read(loc)
        if v[0] == "guard":
            return [("release", v)]
        if depth > 8:
            return []
        if ty.k == "tuple":
            out = []
            for i, a in enumerate(ty.a):
                out += self.drop_seq(env, (loc[0], loc[1] + (("f", str(i)),)), a, depth + 1)
            return out
        if ty.k == "closure":
            out = []
            tree = env.tree(loc)
            f = self.F.fns.get(ty.n)
            for i, a in enumerate(ty.a):
                nm = None
                for p in tree:
                    if p and p[0][0] == "f":
                        nm = nm
                out += [("user", loc, a)] if may_user_drop(self.F, a) else []
            return out
        if ty.k == "adt":
            n = ty.n
            if n in self.NODROP:
                return []
            if n in ("alloc::boxed::Box",):
                inner = ty.a[0] if ty.a else None
                if inner is None:
                    return []
                return self.drop_seq(env, self.deref(env, v), inner, depth + 1) + [("ext", loc, ty)]
            if n == "core::pin::Pin":
                return self.drop_seq(env, loc, ty.a[0], depth + 1)
            if n in ("core::option::Option",):
                inner = ty.a[0]
                il = (loc[0], loc[1] + (("v", "Some"), ("f", "0")))
                if v[0] == "agg" and v[1] == "adt":
                    if v[4] == "Some":
                        return self.drop_seq(env, il, inner, depth + 1)
                    return []
                k = self.known(env, ("discr", v))
                if k == 0:
                    return []
                s = self.drop_seq(env, il, inner, depth + 1)
                if k == 1 or not s:
                    return s
                return [("maybe", tuple(s))]
            if n == "scopeguard::ScopeGuard" and v[0] == "agg":
                return [("run", loc)]
            if n in ("core::cell::RefCell", "core::cell::Cell", "std::sync::poison::mutex::Mutex",
                     "core::cell::UnsafeCell"):
                return self.drop_seq(env, (loc[0], loc[1] + ("cell",)), ty.a[0], depth + 1)
            a = self.F.adts.get(n)
            if a is not None:
                out = []
                if "drop" in a:
                    out.append(("call", a["drop"], loc))
                gen = None
                if a["kind"] == "Struct":
                    for fl in a["variants"][0]["fields"]:
                        fty = a["crate"].tys[fl["ty"]]
                        fty = subst(self.F, a, fty, ty)
                        out += self.drop_seq(env, (loc[0], loc[1] + (("f", fl["name"]),)), fty, depth + 1)
                elif a["kind"] == "Enum":
                    for vi, var in enumerate(a["variants"]):
                        if v[0] == "agg" and v[1] == "adt" and v[4] != var["name"]:
                            continue
                        sub = []
                        for fl in var["fields"]:
                            fty = subst(self.F, a, a["crate"].tys[fl["ty"]], ty)
                            sub += self.drop_seq(env, (loc[0], loc[1] + (("v", var["name"]), ("f", fl["name"]))), fty, depth + 1)
                        if v[0] == "agg":
                            out += sub
                        elif sub:
                            out.append(("maybe", tuple(sub)))
                return out
            if may_user_drop(self.F, ty):
                return [("user", loc, ty)]
            return [("ext", loc, ty)]
        if ty.k in ("param", "dyn", "alias", "coroutine"):
            return [("user", loc, ty)]
        if ty.k in ("slice", "array"):
            return [("user", loc, ty)] if may_user_drop(self.F, ty.t) else []
        return []


def subst(F, adt, fty, ty):
    """the declared field type with the ADT's first type parameters replaced (shallow)"""
    if fty.k == "param":
        gens = adt.get("generics")
        if gens and fty.n in gens:
            i = gens.index(fty.n)
            if i < len(ty.a) and not isinstance(ty.a[i], str):
                return ty.a[i]
    return fty


@functools.lru_cache(maxsize=None)
def _mud(F, ty, depth):
    if depth > 6 or isinstance(ty, str):
        return False
    if ty.k in ("param", "dyn", "alias", "coroutine"):
        return True
    if ty.k in ("ref", "ptr", "prim", "fndef", "fnptr", "never"):
        return False
    if ty.k == "adt":
        if ty.n in Engine.NODROP:
            return False
        return any(_mud(F, a, depth + 1) for a in ty.a if not isinstance(a, str))
    return any(_mud(F, a, depth + 1) for a in ty.a if not isinstance(a, str)) or (ty.t is not None and _mud(F, ty.t, depth + 1))


def may_user_drop(F, ty):
    return _mud(F, ty, 0)


_TERMS = {}


def terms(v):
    """every term inside this one; remembered by identity (terms are shared between states)"""
    e = _TERMS.get(id(v))
    if e is None:
        if len(_TERMS) > 400000:
            _TERMS.clear()
        out = set()
        collect(v, out)
        e = _TERMS[id(v)] = (frozenset(out), v)
    return e[0]


def collect(v, out):
    if not isinstance(v, tuple) or v in out:
        return
    out.add(v)
    for x in v:
        collect(x, out)


class FakeFn:
    def __init__(self, f, body, key):
        self.crate = f.crate
        self.id = key
        self.name = f.name + "::promoted"
        self.loc = f.loc
        self.blocks = body["blocks"]
        self.locals = body["locals"]
        self.argc = 0
        self.coroutine = False
        self.body = body

    def ty(self, l):
        return self.crate.tys[self.locals[l]["t"]]


# ---------------------------------------------------------------------- cfg helpers
def _memo(fn):
    m = fn.__dict__.get("_memo")
    if m is None:
        m = fn._memo = {}
    return m


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    if k == "yield":
        return [t[2]] + ([t[4]] if t[4] is not None else [])
    return []


def preds(fn):
    c = _memo(fn).get("preds")
    if c is None:
        c = [0] * len(fn.blocks)
        for b in fn.blocks:
            for s in succs(b["t"]):
                c[s] += 1
        _memo(fn)["preds"] = c
    return c


def cyclic_blocks(fn):
    c = _memo(fn).get("cyc")
    if c is None:
        n = len(fn.blocks)
        g = [succs(b["t"]) for b in fn.blocks]
        # blocks that can reach themselves
        import sys
        sys.setrecursionlimit(10000)
        idx = [None] * n
        low = [0] * n
        onst = [False] * n
        stack = []
        out = set()
        cnt = [0]

        def sc(v):
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            stack.append(v)
            onst[v] = True
            for w in g[v]:
                if idx[w] is None:
                    sc(w)
                    low[v] = min(low[v], low[w])
                elif onst[w]:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = stack.pop()
                    onst[w] = False
                    comp.append(w)
                    if w == v:
                        break
                if len(comp) > 1 or v in g[v]:
                    out.update(comp)

        for v in range(n):
            if idx[v] is None:
                sc(v)
        c = out
        _memo(fn)["cyc"] = c
    return c


def place_uses(p, uses, addr=None):
    uses.add(p[0])
    for e in p[1]:
        if isinstance(e, (list, tuple)) and e[0] == "i":
            uses.add(e[1])


def op_uses(o, uses):
    if "cp" in o:
        place_uses(o["cp"], uses)
    elif "mv" in o:
        place_uses(o["mv"], uses)


def rv_uses(r, uses, addr):
    k = r[0]
    if k in ("use", "repeat", "cast"):
        op_uses(r[1], uses)
    elif k in ("ref", "raw"):
        place_uses(r[1], uses)
        if "*" not in r[1][1]:
            addr.add(r[1][0])
    elif k == "discr":
        place_uses(r[1], uses)
    elif k == "bin":
        op_uses(r[2], uses)
        op_uses(r[3], uses)
    elif k == "un":
        op_uses(r[2], uses)
    elif k == "agg":
        for o in r[2]:
            op_uses(o, uses)


def liveness(fn):
    c = _memo(fn).get("live")
    if c is not None:
        return c
    n = len(fn.blocks)
    addr = set()
    use = [set() for _ in range(n)]
    de = [set() for _ in range(n)]
    for i, b in enumerate(fn.blocks):
        for s in b["s"]:
            if s[0] == "=":
                u = set()
                rv_uses(s[2], u, addr)
                if s[1][1]:
                    place_uses(s[1], u)
                use[i] |= u - de[i]
                if not s[1][1]:
                    de[i].add(s[1][0])
            elif s[0] == "setd":
                u = set()
                place_uses(s[1], u)
                use[i] |= u - de[i]
        t = b["t"]
        u = set()
        if t[0] == "switch":
            op_uses(t[1], u)
        elif t[0] == "drop":
            place_uses(t[1], u)
        elif t[0] == "call":
            op_uses(t[1], u)
            for a in t[2]:
                op_uses(a, u)
            if t[3][1]:
                place_uses(t[3], u)
            use[i] |= u - de[i]
            u = set()
            if not t[3][1]:
                de[i].add(t[3][0])
        elif t[0] == "assert":
            op_uses(t[1], u)
        elif t[0] == "yield":
            op_uses(t[1], u)
        use[i] |= u - de[i]
    live = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s in succs(fn.blocks[i]["t"]):
                o |= live[s]
            new = use[i] | (o - de[i])
            if new != live[i]:
                live[i] = new
                changed = True
    # locals whose address is taken stay until their storage dies
    live = [x | addr for x in live]
    _memo(fn)["live"] = live
    return live


from models import MODELS, SIMPLE, pre  # noqa: E402
