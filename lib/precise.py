"""Models that follow the *content* of small containers (bit sets, index lists, slices), used by rules that reason
about which element of which container a loop is working on.  Enabled with Monitor.precise.

An element a loop draws is described as `the pos-th element of the container`, so `for &i in list`,
`for k in 0..list.len() { list[k] }`, `list.iter().for_each(..)` and a drained copy all yield the same value."""
from models import (TOP, UNIT, SOME, OPT, RES, NONE, val, pre, some, wrap, model, simple, SIMPLE, MODELS,
                    loop_item)
import models as _m

PRECISE = {}
EMPTY = ("empty",)


def P(*keys):
    def deco(f):
        for k in keys:
            PRECISE[k] = f
        return f
    return deco


def PS(*keys):
    def deco(f):
        def m(eng, ctx, block, t, ev, args, env, st, phase, f=f):
            r = f(eng, ctx, block, ev, args, env)
            if r is None:
                return NotImplemented
            eng.finish_call(ctx, block, t, r, env, st)
            return True
        for k in keys:
            PRECISE[k] = m
        return f
    return deco


def store(eng, loc, tree, env, st, where):
    env.write_tree(loc, tree)
    return eng.mon.on_store(eng, loc, env.read(loc), env, st, where)


def unit(eng, ctx, block, t, env, st):
    if st is not None:
        eng.finish_call(ctx, block, t, {(): UNIT}, env, st)
    return True


def seqval(env, loc):
    """the content of the container at a place, as one value"""
    t = env.tree(loc)
    if len(t) > 1:
        return ("tree", tuple(sorted(t.items(), key=repr)))
    return t[()]


RANGES = ("Range", "RangeTo", "RangeFrom", "RangeFull", "RangeInclusive", "RangeToInclusive")


def last_range(proj):
    if proj and isinstance(proj[-1], tuple) and proj[-1][0] == "ix" and isinstance(proj[-1][1], tuple) and proj[-1][1][0] == "range":
        return proj[-1][1]
    return None


def prefix(rg):
    """a range that starts at element 0"""
    return rg is not None and (rg[-1] in ("RangeTo", "RangeFull", "RangeToInclusive")
                               or (rg[-1] == "Range" and rg[1][:2] == ("i", 0)) or (rg[-1] == "Range" and ("i", 0) in rg[1:3]))


def at(loc, pos):
    """the pos-th element of the slice at loc"""
    rg = last_range(loc[1])
    if rg is not None and rg[-1] in ("RangeTo", "RangeFull"):
        return (loc[0], loc[1][:-1] + (("ix", pos),))
    return (loc[0], loc[1] + (("ix", pos),))


def elem(env, v, pos):
    """the pos-th element of a container value"""
    from absint import mkproj
    if v == TOP:
        return TOP
    if v[0] == "repeat":
        return v[1]
    if v[0] == "init" and last_range(v[1][1]) is not None:
        return env.read(at(v[1], pos))
    if v[0] == "tree":
        return TOP
    return mkproj(v, (("ix", pos),))


def item_tree(eng, env, it, item):
    return _item(eng, env, it, ("op", "pos", item), item)


def _item(eng, env, it, pos, item):
    if it[0] != "op":
        if it[0] == "ref":
            return {(): ("ref", at(it[1], pos))}
        return {(): item}
    k = it[1]
    if k == "iter":
        x = it[2]
        if x[0] == "ref":
            return {(): ("ref", at(x[1], pos))}
        if x[0] == "tree":
            d = dict(x[1])
            if d.get((), TOP)[0] == "agg" and "Range" in d[()][2]:
                if d.get((("f", "start"),)) == ("i", 0):
                    return {(): pos}
                return {(): item}
            return {(): item}
        return {(): elem(env, x, pos)}
    if k in ("take", "rev", "skip", "peekable", "take_while", "skip_while", "step_by"):
        if k in ("skip", "step_by", "take_while", "skip_while"):
            return _item(eng, env, it[2], ("op", "pos", item), item)
        return _item(eng, env, it[2], pos, item)
    if k in ("copied", "cloned"):
        a = _item(eng, env, it[2], pos, item)
        v = a[()]
        if v[0] == "ref":
            return env.tree(v[1])
        return a
    if k == "enumerate":
        out = {(): ("agg", "tuple", "", 0, ""), (("f", "0"),): pos}
        for p, w in _item(eng, env, it[2], pos, item).items():
            out[(("f", "1"),) + p] = w
        return out
    if k == "zip":
        out = {(): ("agg", "tuple", "", 0, "")}
        for i in (0, 1):
            for p, w in _item(eng, env, it[2 + i], pos, item).items():
                out[(("f", str(i)),) + p] = w
        return out
    return {(): item}


def length_of(env, v):
    if v == TOP:
        return TOP
    if v == EMPTY:
        return ("i", 0)
    if v[0] == "clone" or v[0] == "copied":
        return length_of(env, v[1])
    if v[0] == "proj" and v[1][0] in ("clone", "copied") and v[2] and all(isinstance(p, tuple) and p[0] in ("f", "v") for p in v[2]):
        b = v[1]
        while b[0] in ("clone", "copied"):
            b = b[1]
        if b[0] == "init":
            return length_of(env, ("init", (b[1][0], b[1][1] + v[2])))
    if v[0] == "pushed":
        n = length_of(env, v[1])
        return ("op", "Add", n, ("i", 1)) if n[0] != "i" else ("i", n[1] + 1)
    if v[0] == "init":
        rg = last_range(v[1][1])
        if rg is not None and rg[-1] == "RangeTo":
            return rg[1]
    if v[0] == "proj" and v[2] and last_range(v[2]) is not None and last_range(v[2])[-1] == "RangeTo":
        return last_range(v[2])[1]
    return ("op", "Len", v)


@PS("slice::len", "Vec::len", "VecDeque::len", "BitSlice::len", "BitVec::len", "array::len", "SmallVec::len")
def length(eng, ctx, block, ev, args, env):
    v = val(args[0])
    x = seqval(env, v[1]) if v[0] == "ref" else (("deref", v) if v != TOP else TOP)
    return {(): length_of(env, x)}


@PS("slice::is_empty", "Vec::is_empty", "VecDeque::is_empty", "BitSlice::is_empty", "BitVec::is_empty", "SmallVec::is_empty")
def is_empty(eng, ctx, block, ev, args, env):
    v = val(args[0])
    x = seqval(env, v[1]) if v[0] == "ref" else (("deref", v) if v != TOP else TOP)
    n = length_of(env, x)
    if n == TOP:
        return {(): TOP}
    return {(): eng.binop(env, "Eq", n, ("i", 0), True)}


@P("slice::fill", "BitSlice::fill", "BitVec::fill")
def fill(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    return unit(eng, ctx, block, t, env, store(eng, loc, {(): ("repeat", val(args[1]), None)}, env, st, ev.loc))


@P("slice::copy_from_slice", "slice::clone_from_slice")
def copy_from(eng, ctx, block, t, ev, args, env, st, phase):
    dst = eng.deref(env, val(args[0]))
    src = seqval(env, eng.deref(env, val(args[1])))
    rg = last_range(dst[1])
    if rg is not None:
        if not prefix(rg):
            src = eng.sym(env, ctx, block, "copy", (), "cp")
        dst = (dst[0], dst[1][:-1])
    return unit(eng, ctx, block, t, env, store(eng, dst, {(): ("copied", src) if src != TOP else TOP}, env, st, ev.loc))


@P("Vec::clone_from", "Clone::clone_from")
def clone_from(eng, ctx, block, t, ev, args, env, st, phase):
    dst = eng.deref(env, val(args[0]))
    src = seqval(env, eng.deref(env, val(args[1])))
    return unit(eng, ctx, block, t, env, store(eng, dst, {(): ("clone", src) if src != TOP else TOP}, env, st, ev.loc))


@PS("slice::to_vec", "slice::into_vec", "Vec::into_boxed_slice", "slice::to_owned")
def to_vec(eng, ctx, block, ev, args, env):
    v = val(args[0])
    x = seqval(env, v[1]) if v[0] == "ref" else (("deref", v) if v != TOP else TOP)
    return {(): ("clone", x) if x != TOP else TOP}


@P("Vec::extend_from_slice", "Extend::extend")
def extend(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    old = seqval(env, loc)
    a = val(args[1])
    if a[0] == "agg" and a[1] == "array":
        els = {p[0]: x for p, x in args[1].items() if len(p) == 1}
        n = sorted(els, key=repr)
        if old != TOP and len(n) == 1 and len(args[1]) == 2 and not eng.is_cyc(ctx, block):
            return unit(eng, ctx, block, t, env, store(eng, loc, {(): ("pushed", old, els[n[0]])}, env, st, ev.loc))
        return NotImplemented
    if a[0] == "op":
        x = a
        while x[0] == "op" and x[1] in ("copied", "cloned", "iter"):
            x = x[2]
        a = x
    src = seqval(env, a[1]) if a[0] == "ref" else a
    v = ("clone", src) if old == EMPTY and src != TOP else ("op", "extended", old, src)
    return unit(eng, ctx, block, t, env, store(eng, loc, {(): v}, env, st, ev.loc))


@P("Vec::clear", "BitVec::clear", "VecDeque::clear", "SmallVec::clear")
def clear(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    return unit(eng, ctx, block, t, env, store(eng, loc, {(): EMPTY}, env, st, ev.loc))


@P("Vec::truncate")
def truncate(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    if val(args[1]) != ("i", 0):
        return NotImplemented
    return unit(eng, ctx, block, t, env, store(eng, loc, {(): EMPTY}, env, st, ev.loc))


@P("Vec::push", "VecDeque::push_back", "SmallVec::push")
def push(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    old = seqval(env, loc)
    x = val(args[1])
    v = ("pushed", old, x) if old != TOP else TOP
    if eng.is_cyc(ctx, block):
        v = eng.sym(env, ctx, block, "pushes", (), "push")
    return unit(eng, ctx, block, t, env, store(eng, loc, {(): v}, env, st, ev.loc))


@P("Vec::drain")
def drain(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    r = val(args[1])
    full = "RangeFull" in repr(r) or (r[0] == "cst" and str(r[-1]).strip() == "..")
    old = seqval(env, loc)
    if not full:
        return NotImplemented
    st = store(eng, loc, {(): EMPTY}, env, st, ev.loc)
    if st is not None:
        eng.finish_call(ctx, block, t, {(): ("op", "iter", old)}, env, st)
    return True


@P("mem::take")
def mem_take(eng, ctx, block, t, ev, args, env, st, phase):
    ty = ev.tyargs[0] if ev.tyargs and not isinstance(ev.tyargs[0], str) else None
    if ty is None or ty.n is None or ty.n.split("::")[-1] not in ("Vec", "VecDeque", "BitVec", "SmallVec", "BTreeMap"):
        return MODELS["mem::take"](eng, ctx, block, t, ev, args, env, st, phase)
    loc = eng.deref(env, val(args[0]))
    old = seqval(env, loc)
    st = store(eng, loc, {(): EMPTY}, env, st, ev.loc)
    if st is not None:
        eng.finish_call(ctx, block, t, {(): old}, env, st)
    return True


@PS("BTreeMap::new", "Vec::new", "Vec::with_capacity", "VecDeque::new", "SmallVec::new", "SmallVec::with_capacity")
def vec_new(eng, ctx, block, ev, args, env):
    return {(): EMPTY}


@PS("BitVec::repeat", "vec::from_elem", "from_elem")
def repeat(eng, ctx, block, ev, args, env):
    return {(): ("repeat", val(args[0]), val(args[1]))}


@P("BitSlice::set", "BitVec::set", "BitSlice::set_unchecked")
def bit_set(eng, ctx, block, t, ev, args, env, st, phase):
    loc = at(eng.deref(env, val(args[0])), val(args[1]))
    return unit(eng, ctx, block, t, env, store(eng, loc, {(): val(args[2])}, env, st, ev.loc))


@P("BitSlice::replace", "BitVec::replace")
def bit_replace(eng, ctx, block, t, ev, args, env, st, phase):
    loc = at(eng.deref(env, val(args[0])), val(args[1]))
    old = env.read(loc)
    st = store(eng, loc, {(): val(args[2])}, env, st, ev.loc)
    if st is not None:
        eng.finish_call(ctx, block, t, {(): old}, env, st)
    return True


@P("slice::swap", "Vec::swap")
def sl_swap(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    a, b = at(loc, val(args[1])), at(loc, val(args[2]))
    ta, tb = env.tree(a), env.tree(b)
    st = store(eng, a, tb, env, st, ev.loc)
    if st is not None:
        st = store(eng, b, ta, env, st, ev.loc)
    return unit(eng, ctx, block, t, env, st)


@PS("Index::index", "IndexMut::index_mut")
def index(eng, ctx, block, ev, args, env):
    r = _m.index(eng, ctx, block, ev, args, env)
    if r is None:
        return None
    v = r[()]
    if v[0] == "ref" and len(v[1][1]) >= 2 and last_range(v[1][1]) is None:
        rg = last_range(v[1][1][:-1])
        if rg is not None and rg[-1] in ("RangeTo", "RangeFull"):
            return {(): ("ref", (v[1][0], v[1][1][:-2] + v[1][1][-1:]))}
    return r


@P("MaybeUninit::write")
def mu_write(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    st = store(eng, loc, args[1], env, st, ev.loc)
    if st is not None:
        eng.finish_call(ctx, block, t, {(): ("ref", loc)}, env, st)
    return True


@PS("MaybeUninit::new", "MaybeUninit::assume_init", "mem::transmute", "intrinsics::transmute", "Wrapping")
def mu_ident(eng, ctx, block, ev, args, env):
    return args[0]


@PS("MaybeUninit::as_ptr", "MaybeUninit::as_mut_ptr", "MaybeUninit::assume_init_ref", "MaybeUninit::assume_init_mut",
    "slice::as_ptr", "slice::as_mut_ptr", "Vec::as_slice", "Vec::as_mut_slice", "Vec::as_ptr", "Vec::as_mut_ptr", "slice::as_slice",
    "BitVec::as_bitslice", "BitVec::as_mut_bitslice", "slice::as_ref")
def same_place(eng, ctx, block, ev, args, env):
    return {(): val(args[0])}


@PS("ptr::read", "MaybeUninit::assume_init_read", "ptr::read_unaligned", "ptr::read_volatile")
def ptr_read(eng, ctx, block, ev, args, env):
    v = val(args[0])
    if v == TOP:
        return {(): TOP}
    return env.tree(eng.deref(env, v))


@P("ptr::write", "ptr::write_unaligned")
def ptr_write(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    return unit(eng, ctx, block, t, env, store(eng, loc, args[1], env, st, ev.loc))


@P("OnceCell::get_or_init", "OnceLock::get_or_init")
def once_get(eng, ctx, block, t, ev, args, env, st, phase):
    v = val(args[0])
    if phase is not None or v == TOP:
        return NotImplemented
    loc = eng.deref(env, v)
    cell = (loc[0], loc[1] + ("cell",))
    out = {(): ("ref", (cell[0], cell[1] + SOME))}
    for vi, vn, e in _m.variant_fork(eng, env, env.tree(cell), _m.ON):
        if vn == "Some":
            eng.finish_call(ctx, block, t, dict(out), e, st)
            continue
        e.write_tree(cell, some({(): TOP}))
        if not eng.call_closure(ctx, block, args[1], [], ("into", out[()]), e, st, t):
            e.write_tree(cell, some({(): eng.sym(e, ctx, block, "inserted", (), "ins")}))
            eng.finish_call(ctx, block, t, dict(out), e, st)
    return True


@PS("OnceCell::new", "OnceLock::new")
def once_new(eng, ctx, block, ev, args, env):
    return {(): ("agg", "cell", "", 0, ""), ("cell",): NONE[()]}


@PS("ptr::add", "ptr::offset", "ptr::wrapping_add")
def ptr_add(eng, ctx, block, ev, args, env):
    v = val(args[0])
    if v == TOP or val(args[1]) == TOP:
        return {(): TOP}
    if v[0] == "ref":
        return {(): ("ref", (v[1][0], v[1][1] + (("ix", val(args[1])),)))}
    return {(): ("op", "ptradd", v, val(args[1]))}


@P("array::from_fn")
def from_fn(eng, ctx, block, t, ev, args, env, st, phase):
    """every element is the closure's result for its index"""
    if phase is not None:
        return NotImplemented
    ix = eng.sym(env, ctx, block, "ix", (), "ix")
    if eng.call_closure(ctx, block, args[0], [{(): ix}], ("each", ix, None), env, st, t):
        return True
    return NotImplemented


@P("Iterator::map")
def it_map(eng, ctx, block, t, ev, args, env, st, phase):
    it = val(args[0])
    if it[0] != "op" and not (it[0] == "sym" and str(it[2]).startswith("BTreeMap::")) or eng.find_closure(env, args[1])[0] is None:
        return NotImplemented
    eng.finish_call(ctx, block, t, {(): ("op", "map", it, ("tree", tuple(sorted(args[1].items(), key=repr))))}, env, st)
    return True


@P("Iterator::collect")
def collect(eng, ctx, block, t, ev, args, env, st, phase):
    it = val(args[0])
    if phase is not None:
        return NotImplemented
    if it[0] == "agg" and "Range" in it[2]:
        it = ("op", "iter", ("tree", tuple(sorted(args[0].items(), key=repr))))
    if it[0] != "op":
        return NotImplemented
    if it[1] == "map":
        src = it[2]
        if src[0] == "agg":
            return NotImplemented
        item = eng.sym(env, ctx, block, "ix", (), "ix")
        tr = item_tree(eng, env, src, item)
        if tr[()] == ("op", "pos", item):
            tr = {(): item}
        if eng.call_closure(ctx, block, dict(it[3][1]), [tr], ("each", item, src), env, st, t):
            return True
        return NotImplemented
    item = eng.sym(env, ctx, block, "ix", (), "ix")
    tr = item_tree(eng, env, it, item)
    if tr[()] == ("op", "pos", item):
        tr = {(): item}
    if len(tr) > 1:
        return NotImplemented
    x = it
    while x[0] == "op" and x[1] in ("copied", "cloned", "iter"):
        if x[1] == "iter" and x[2][0] == "ref":
            v = seqval(env, x[2][1])
            eng.finish_call(ctx, block, t, {(): ("clone", v) if v != TOP else TOP}, env, st)
            return True
        x = x[2]
    eng.finish_call(ctx, block, t, {(): ("each", item, tuple(tr.items()), it)}, env, st)
    return True


def range_map(eng, ctx, block, t, ev, args, env, st, phase):
    return NotImplemented


_old_map = it_map


@P("Iterator::map")
def it_map2(eng, ctx, block, t, ev, args, env, st, phase):
    it = val(args[0])
    if it[0] == "agg" and "Range" in it[2] and eng.find_closure(env, args[1])[0] is not None:
        it = ("op", "iter", ("tree", tuple(sorted(args[0].items(), key=repr))))
        eng.finish_call(ctx, block, t, {(): ("op", "map", it, ("tree", tuple(sorted(args[1].items(), key=repr))))}, env, st)
        return True
    return _old_map(eng, ctx, block, t, ev, args, env, st, phase)


@P("Arc::new_cyclic", "Rc::new_cyclic")
def new_cyclic(eng, ctx, block, t, ev, args, env, st, phase):
    if phase is not None:
        return NotImplemented
    r = eng.sym(env, ctx, block, ev.key, ())
    root = ("T", ctx.id, block, "weak")
    env.write((root, ()), ("weak", r))
    if eng.call_closure(ctx, block, args[0], [{(): ("ref", (root, ()))}], ("place", r), env, st, t):
        return True
    return NotImplemented


@PS("Weak::as_ptr")
def weak_as_ptr(eng, ctx, block, ev, args, env):
    v = val(args[0])
    w = env.read(v[1]) if v[0] == "ref" else ("deref", v)
    if w[0] == "weak":
        return {(): ("rawof", w[1])}
    return {(): ("rawof", w)}


@PS("Arc::as_ptr")
def arc_as_ptr(eng, ctx, block, ev, args, env):
    v = val(args[0])
    w = env.read(v[1]) if v[0] == "ref" else ("deref", v)
    return {(): ("rawof", w)}


@PS("Arc::into_raw")
def arc_into_raw(eng, ctx, block, ev, args, env):
    return {(): ("rawof", val(args[0]))}


@P("BTreeMap::clear")
def map_clear(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    return unit(eng, ctx, block, t, env, store(eng, loc, {(): EMPTY}, env, st, ev.loc))


@P("BTreeMap::pop_first", "BTreeMap::pop_last")
def btree_pop(eng, ctx, block, t, ev, args, env, st, phase):
    """like drawing an element of the whole map, which also leaves the map"""
    it = ("op", "pop", val(args[0]))
    e0 = env.copy()
    s0 = eng.mon.on_end(eng, it, e0, st, eng.where(ctx, block))
    if s0 is not None:
        eng.finish_call(ctx, block, t, dict(_m.NONE), e0, s0)
    tr, s1 = _m.loop_item(eng, ctx, block, ev.key, it, env, st)
    if s1 is not None:
        eng.finish_call(ctx, block, t, _m.some(tr), env, s1)
    return True


@PS("Default::default")
def default(eng, ctx, block, ev, args, env):
    ty = ev.tyargs[0] if ev.tyargs and not isinstance(ev.tyargs[0], str) else None
    if ty is not None and ty.k == "adt" and ty.n.split("::")[-1] in ("Vec", "VecDeque", "SmallVec", "BTreeMap"):
        return {(): EMPTY}
    return None


@P("slice::first", "slice::first_mut", "slice::last", "slice::last_mut", "slice::get", "slice::get_mut", "Vec::get", "Vec::get_mut")
def end_elem(eng, ctx, block, t, ev, args, env, st, phase):
    """an element at an end: nothing exactly if there are no elements"""
    m = ev.key.split("::")[1]
    v = val(args[0])
    if m.startswith("get") and (len(args) < 2 or val(args[1]) != ("i", 0)):
        eng.finish_call(ctx, block, t, _m.sget(eng, ctx, block, ev, args, env), env, st)
        return True
    if v == TOP:
        return NotImplemented
    loc = eng.deref(env, v)
    n = length_of(env, seqval(env, loc))
    if last_range(loc[1]) is not None and last_range(loc[1])[-1] not in ("RangeTo", "RangeFull"):
        return NotImplemented
    e0 = eng.assume(env.copy(), n, 0)
    if e0 is not None:
        eng.finish_call(ctx, block, t, dict(_m.NONE), e0, st)
    e1 = eng.assume_not(env, n, [0])
    if e1 is not None:
        i = ("i", 0) if not m.startswith("last") else (("op", "Sub", n, ("i", 1)) if n[0] != "i" else ("i", n[1] - 1))
        eng.finish_call(ctx, block, t, _m.some({(): ("ref", at(loc, i))}), e1, st)
    return True


# ------------------------------------------------------------------ comparisons
def ordering_discr(v):
    from absint import discr_value
    return ("i", discr_value(v)) if v[0] == "agg" else ("discr", v)


def behind(eng, ev, args, env, n):
    """the values two arguments of a comparison refer to, through as many references as their type has"""
    ty = ev.tyargs[0] if ev.tyargs and not isinstance(ev.tyargs[0], str) else None
    k = n
    while ty is not None and ty.k == "ref":
        ty, k = ty.t, k + 1
    out = []
    for a in args[:2]:
        v = val(a)
        for _ in range(k):
            if v == TOP:
                break
            v = env.read(eng.deref(env, v))
        out.append(v)
    return out, ty


CMPS = {"eq": ("Eq", 0), "ne": ("Eq", 1), "lt": ("Lt", 0), "gt": ("Gt", 0), "le": ("Le", 0), "ge": ("Ge", 0)}


@PS("PartialEq::eq", "PartialEq::ne", "PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def compare(eng, ctx, block, ev, args, env):
    if ev.info is not None and ev.info.get("rid") in eng.F.fns:
        return None
    (a, b), ty = behind(eng, ev, args, env, 1)
    m = ev.key.split("::")[1]
    if a[0] == "agg" or b[0] == "agg":
        return _m.peq(eng, ctx, block, ev, args, env) if m in ("eq", "ne") else None
    if ty is None or not (ty.k in ("param", "uint", "int", "prim") or ty.s in ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize", "bool", "char")
                          or ty.k == "adt" and ty.n == "core::cmp::Ordering" and m in ("eq", "ne")):
        return None
    if a == TOP or b == TOP:
        return {(): TOP}
    if ty.k == "adt":
        a, b = ordering_discr(a), ordering_discr(b)
    op, flip = CMPS[m]
    v = eng.binop(env, op, a, b)
    if flip:
        v = ("i", 1 - v[1]) if v[0] == "i" else ("op", "Not", v)
    return {(): v}


@PS("Ordering::is_eq", "Ordering::is_ne", "Ordering::is_lt", "Ordering::is_gt", "Ordering::is_le", "Ordering::is_ge")
def ordering_is(eng, ctx, block, ev, args, env):
    m = ev.key.split("_")[1]
    if val(args[0]) == TOP:
        return None
    d = ordering_discr(val(args[0]))
    n, flip = {"eq": (0, 0), "ne": (0, 1), "lt": (255, 0), "ge": (255, 1), "gt": (1, 0), "le": (1, 1)}[m]
    v = eng.binop(env, "Eq", d, ("i", n), True)
    if flip:
        v = ("i", 1 - v[1]) if v[0] == "i" else ("op", "Not", v)
    return {(): v}


@P("Ordering::then", "Ordering::then_with")
def ordering_then(eng, ctx, block, t, ev, args, env, st, phase):
    v = val(args[0])
    if v == TOP or phase is not None:
        return NotImplemented
    d = ordering_discr(v)
    if ev.key.endswith("with") and eng.find_closure(env, args[1])[0] is None:
        return NotImplemented
    e1 = eng.assume_not(env.copy(), d, [0])
    if e1 is not None:
        eng.finish_call(ctx, block, t, args[0], e1, st)
    e0 = eng.assume(env.copy(), d, 0)
    if e0 is not None:
        if ev.key.endswith("with"):
            eng.call_closure(ctx, block, args[1], [], ("ret",), e0, st, t)
        else:
            eng.finish_call(ctx, block, t, args[1], e0, st)
    return True


@P("Vec::insert", "SmallVec::insert", "VecDeque::insert")
def vec_insert(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    old = seqval(env, loc)
    if val(args[1]) == length_of(env, old) and old != TOP:
        st = store(eng, loc, {(): ("pushed", old, val(args[2]))}, env, st, ev.loc)
    elif old != TOP and val(args[1])[0] == "i":
        st = store(eng, loc, {(): ("inserted", old, val(args[1]), val(args[2]))}, env, st, ev.loc)
    else:
        return NotImplemented
    return unit(eng, ctx, block, t, env, st)


@PS("boxed::box_assume_init_into_vec_unsafe")
def vec_literal(eng, ctx, block, ev, args, env):
    v = val(args[0])
    t = env.tree((("D", v), (("f", "value"),)))
    if t[()][0] == "agg" and t[()][1] == "array":
        return t
    return None


PF = "core::future::poll_fn::PollFn"


@PS("future::poll_fn")
def poll_fn(eng, ctx, block, ev, args, env):
    r = {(): ("agg", "adt", PF, 0, "PollFn")}
    r.update({(("f", "f"),) + p: v for p, v in args[0].items()})
    return r


@P("Future::poll")
def poll_poll_fn(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    if eng.call_closure(ctx, block, {(): ("ref", (loc[0], loc[1] + (("f", "f"),)))}, [args[1]], ("ret",), env, st, t):
        return True
    return NotImplemented


def is_poll_fn(eng, ev, env):
    v = ev.args[0]
    w = env.read(eng.deref(env, v)) if v != TOP else TOP
    return w[0] == "agg" and w[2] == PF


PRECISE["Future::poll"].when = is_poll_fn


@PS("scopeguard::guard")
def scope_guard(eng, ctx, block, ev, args, env):
    out = {(): ("agg", "adt", "scopeguard::ScopeGuard", 0, "ScopeGuard")}
    for i, n in enumerate(("value", "dropfn")):
        for p, v in args[i].items():
            out[(("f", n),) + p] = v
    return out


@PS("ScopeGuard::into_inner")
def scope_guard_off(eng, ctx, block, ev, args, env):
    return pre(args[0], (("f", "value"),)) if args[0][()][0] == "agg" else None
