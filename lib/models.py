"""Models of the std / web-sys functions the analysed code calls.

MODELS: key -> fn(eng, ctx, block, t, ev, args, env, st, phase); returns NotImplemented to fall through.
SIMPLE: key -> fn(eng, ctx, block, ev, args, env) -> result tree (pure transparent functions).
`args` are value trees: {relative projection: value}."""

TOP = ("top",)
UNIT = ("unit",)
SOME = (("v", "Some"), ("f", "0"))
OPT = "core::option::Option"
RES = "core::result::Result"

SIMPLE = {}
MODELS = {}


def simple(*keys):
    def deco(f):
        for k in keys:
            SIMPLE[k] = f

            def m(eng, ctx, block, t, ev, args, env, st, phase, f=f):
                r = f(eng, ctx, block, ev, args, env)
                if r is None:
                    return NotImplemented
                eng.finish_call(ctx, block, t, r, env, st)
                return True

            MODELS[k] = m
        return f

    return deco


def model(*keys):
    def deco(f):
        for k in keys:
            MODELS[k] = f
        return f

    return deco


def val(tree):
    return tree[()]


def pre(tree, prefix):
    n = len(prefix)
    out = {p[n:]: v for p, v in tree.items() if p[:n] == prefix}
    if () not in out:
        b = tree[()]
        if b == TOP:
            out[()] = TOP
        elif b[0] == "agg":
            out[()] = TOP
        else:
            from absint import mkproj
            out[()] = mkproj(b, prefix)
    return out


def wrap(tree, vi, vn, adt):
    out = {(): ("agg", "adt", adt, vi, vn)}
    for p, v in tree.items():
        out[(("v", vn), ("f", "0")) + p] = v
    return out


def some(tree):
    return wrap(tree, 1, "Some", OPT)


NONE = {(): ("agg", "adt", OPT, 0, "None")}


def is_local_guard(v):
    return v[0] == "guard"


# ---------------------------------------------------------------- transparent functions
@simple("Pin::new", "Pin::new_unchecked", "Pin::get_mut", "Pin::get_ref", "Pin::get_unchecked_mut",
        "Pin::into_inner", "Pin::into_ref", "Pin::static_ref", "Pin::static_mut", "Pin::into_inner_unchecked",
        "From::from", "Into::into", "IntoFuture::into_future", "convert::identity",
        "UnwrapThrowExt::unwrap_throw_id", "NonNull::from", "Box::new", "Box::pin", "Box::into_pin",
        "Borrow::borrow", "BorrowMut::borrow_mut", "AsRef::as_ref_id", "hint::must_use", "hint::black_box",
        "Box::leak", "ptr::cast", "ptr::cast_mut", "ptr::cast_const", "ManuallyDrop::new", "Some", "pin_new_unchecked_in_helper",
        "pin::pin_new_unchecked_in_helper", "ptr::from_ref", "ptr::from_mut", "AssertUnwindSafe", "ToOwned::to_owned")
def ident(eng, ctx, block, ev, args, env):
    if ev.key in ("From::from", "Into::into"):
        # only conversions that keep the value: string literals, boxes/pins, identity
        v = val(args[0])
        a = ev.tyargs
        names = [x.s if not isinstance(x, str) else x for x in a]
        if len(names) >= 2 and (names[0] == names[1] or v[0] == "s" or all(("Pin<" in n or "Box<" in n) for n in names[:2])):
            return args[0]
        if v[0] == "s":
            return args[0]
        return None
    if ev.key == "Borrow::borrow" and val(args[0])[0] != "ref":
        return None
    if ev.key == "ToOwned::to_owned":
        return clone(eng, ctx, block, ev, args, env)
    return args[0]


@simple("Deref::deref", "DerefMut::deref_mut", "Pin::as_mut", "Pin::as_ref", "Pin::as_deref_mut",
        "Arc::as_ref", "Pin::deref", "Pin::map_unchecked_mut_")
def deref(eng, ctx, block, ev, args, env):
    # &W<T> -> &T : step through one pointer-like wrapper
    v = val(args[0])
    if v[0] == "ref":
        inner = env.read(v[1])
    else:
        inner = ("deref", v) if v != TOP else TOP
    # a workspace Deref impl is inlined instead
    if ev.key in ("Deref::deref", "DerefMut::deref_mut") and ev.info is not None:
        fid = ev.info.get("rid")
        if fid in eng.F.fns:
            return None
        self_ty = ev.tyargs[0] if ev.tyargs else None
        if self_ty is not None and not isinstance(self_ty, str):
            n = self_ty.n or ""
            if self_ty.k == "adt" and n.split("::")[-1] in ("Vec", "String", "VecDeque", "SmallVec", "ArrayVec", "BitVec", "Cow", "OsString", "PathBuf"):
                return {(): v}  # the buffer view of the container: same place
            if self_ty.k == "adt" and n.split("::")[0] in ("web_sys", "js_sys", "wasm_bindgen"):
                return {(): v}  # upcast of a JS handle: same object
            if self_ty.k in ("param", "alias"):
                return None
    if inner == TOP:
        return {(): TOP}
    if inner[0] == "guard":
        return {(): ("ref", inner[2])}
    if inner[0] == "ref":
        return {(): inner}
    return {(): ("ref", (("D", inner), ()))}


@simple("AsRef::as_ref", "JsCast::unchecked_ref", "JsCast::unchecked_into", "JsCast::dyn_ref_id", "Closure::as_ref")
def asref(eng, ctx, block, ev, args, env):
    if ev.info is not None and ev.info.get("rid") in eng.F.fns:
        return None
    return {(): val(args[0])} if ev.key != "JsCast::unchecked_into" else args[0]


@simple("Clone::clone")
def clone(eng, ctx, block, ev, args, env):
    """clone of a place: a value equal to the original"""
    v = val(args[0])
    if ev.info is not None and ev.info.get("rid") in eng.F.fns and not ev.fn.name.endswith("::clone"):
        pass
    if v[0] == "ref":
        t = env.tree(v[1])
        if t[()][0] in ("agg", "i", "s", "ref", "static", "fn"):
            return t
        return {(): ("clone", t[()])} if t[()] != TOP else {(): TOP}
    if v == TOP:
        return {(): TOP}
    return {(): ("clone", ("deref", v))}


@simple("Option::as_ref", "Option::as_mut", "Option::as_pin_mut", "Option::as_pin_ref")
def opt_as(eng, ctx, block, ev, args, env):
    v = val(args[0])
    if v[0] != "ref":
        base = ("deref", v)
        loc = (("D", v), ())
    else:
        loc = v[1]
    inner = env.read(loc)
    il = (loc[0], loc[1] + SOME)
    if inner[0] == "agg" and inner[4] == "None":
        return dict(NONE)
    k = eng.known(env, ("discr", inner)) if inner[0] != "agg" else 1
    r = ("ref", il)
    if "deref" in ev.key:
        iv = env.read(il)
        r = ("ref", eng.deref(env, iv))
    if k == 1:
        return some({(): r})
    if k == 0:
        return dict(NONE)
    # discriminant of the result is the discriminant of the place
    return {(): ("optref", inner), SOME: r}


@model("Option::as_deref", "Option::as_deref_mut")
def opt_as_deref(eng, ctx, block, t, ev, args, env, st, phase):
    """as_deref of a type whose own Deref is part of the program"""
    v = val(args[0])

    def plain():
        eng.finish_call(ctx, block, t, opt_as(eng, ctx, block, ev, args, env), env, st)
        return True
    if v[0] != "ref":
        return plain()
    il = (v[1][0], v[1][1] + SOME)
    iv = env.read(il)
    inner = env.read(v[1])
    if iv[0] != "agg" or iv[1] != "adt" or iv[2] not in eng.F.adts:
        return plain()
    if inner[0] != "agg" and eng.known(env, ("discr", inner)) != 1:
        return plain()
    tr, meth = ("DerefMut", "deref_mut") if "mut" in ev.key else ("Deref", "deref")
    for i in eng.F.trait_impls(tr):
        if i["self_ty"].k == "adt" and i["self_ty"].n == iv[2]:
            fn = eng.F.impl_fn(i, meth)
            if fn is not None and eng.can_inline(ctx, fn, None):
                eng.inline(ctx, block, fn, [{(): ("ref", il)}], ("wrap", 1, "Some", OPT), env, st)
                return True
    return plain()


@simple("Option::cloned", "Option::copied")
def opt_cloned(eng, ctx, block, ev, args, env):
    a = args[0]
    v = val(a)
    if v[0] == "agg" and v[4] == "None":
        return a
    iv = pre(a, SOME)
    x = iv[()]
    if x[0] == "ref":
        t = env.tree(x[1])
        if t[()][0] not in ("agg", "i", "s", "ref"):
            t = {(): ("clone", t[()])} if t[()] != TOP else {(): TOP}
    else:
        t = {(): ("clone", ("deref", x)) if x != TOP else TOP}
    out = {(): v if v[0] == "agg" else (("optref", v) if v != TOP else TOP)}
    for p, w in t.items():
        out[SOME + p] = w
    return out


def variant_fork(eng, env, tree, names):
    """[(variant index, payload tree, env)] for an Option/Result-like value tree"""
    v = tree[()]
    if v[0] == "agg" and v[1] == "adt":
        return [(v[3], v[4], env)]
    out = []
    dv = discr_of(v)
    for i, n in enumerate(names):
        e2 = eng.assume(env, dv, i) if dv != TOP else env
        if e2 is not None:
            out.append((i, n, e2.copy()))
    return out


def discr_of(v):
    if v == TOP:
        return TOP
    if v[0] == "optref":
        return discr_of(v[1])
    return ("discr", v)


ON = ("None", "Some")
RN = ("Ok", "Err")


def names_for(key):
    return ON if key.startswith("Option") else RN


@model("Option::unwrap", "Option::expect", "Option::unwrap_unchecked", "Result::unwrap", "Result::expect",
       "Result::unwrap_unchecked", "UnwrapThrowExt::unwrap_throw", "UnwrapThrowExt::expect_throw")
def unwrap(eng, ctx, block, t, ev, args, env, st, phase):
    nm = "Some" if ev.key.startswith("Option") else "Ok"
    if ev.key.startswith("UnwrapThrowExt"):
        s0 = ev.tyargs[0] if ev.tyargs else None
        nm = "Some" if s0 is not None and not isinstance(s0, str) and "Option" in (s0.n or "") else "Ok"
    names = ON if nm == "Some" else RN
    for vi, vn, e in variant_fork(eng, env, args[0], names):
        if vn == nm:
            eng.finish_call(ctx, block, t, pre(args[0], (("v", nm), ("f", "0"))), e, st)
    return True


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err", "Poll::is_ready", "Poll::is_pending")
def is_some(eng, ctx, block, t, ev, args, env, st, phase):
    v = val(args[0])
    tree = env.tree(v[1]) if v[0] == "ref" else {(): ("deref", v)}
    one = {"Option::is_some": 1, "Option::is_none": 0, "Result::is_ok": 0, "Result::is_err": 1,
           "Poll::is_ready": 0, "Poll::is_pending": 1}[ev.key]
    names = {"O": ON, "R": RN, "P": ("Ready", "Pending")}[ev.key[0]]
    for vi, vn, e in variant_fork(eng, env, tree, names):
        eng.finish_call(ctx, block, t, {(): ("i", int(vi == one))}, e, st)
    return True


@model("Option::take", "mem::take", "Cell::take_")
def opt_take(eng, ctx, block, t, ev, args, env, st, phase):
    v = val(args[0])
    loc = eng.deref(env, v)
    old = env.tree(loc)
    if ev.key == "Option::take":
        env.write_tree(loc, dict(NONE))
    else:
        env.write_tree(loc, {(): eng.sym(env, ctx, block, "default", (), "dflt")})
        if ev.tyargs and not isinstance(ev.tyargs[0], str) and ev.tyargs[0].n == OPT:
            env.write_tree(loc, dict(NONE))
    st = eng.mon.on_store(eng, loc, env.read(loc), env, st, ev.loc)
    if st is None:
        return True
    eng.finish_call(ctx, block, t, old, env, st)
    return True


@model("mem::replace", "Option::replace", "ptr::replace")
def mem_replace(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    old = env.tree(loc)
    env.write_tree(loc, args[1] if ev.key != "Option::replace" else some(args[1]))
    st = eng.mon.on_store(eng, loc, env.read(loc), env, st, ev.loc)
    if st is None:
        return True
    eng.finish_call(ctx, block, t, old, env, st)
    return True


@model("mem::swap", "ptr::swap")
def mem_swap(eng, ctx, block, t, ev, args, env, st, phase):
    a = eng.deref(env, val(args[0]))
    b = eng.deref(env, val(args[1]))
    ta, tb = env.tree(a), env.tree(b)
    env.write_tree(a, tb)
    env.write_tree(b, ta)
    for l in (a, b):
        st = eng.mon.on_store(eng, l, env.read(l), env, st, ev.loc)
        if st is None:
            return True
    eng.finish_call(ctx, block, t, {(): UNIT}, env, st)
    return True


@model("Option::insert", "Option::get_or_insert", "MaybeUninit::write_")
def opt_insert(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    if ev.key == "Option::insert":
        env.write_tree(loc, some(args[1]))
        st = eng.mon.on_store(eng, loc, env.read(loc), env, st, ev.loc)
        if st is None:
            return True
        eng.finish_call(ctx, block, t, {(): ("ref", (loc[0], loc[1] + SOME))}, env, st)
        return True
    if ev.key == "Option::get_or_insert":
        for vi, vn, e in variant_fork(eng, env, env.tree(loc), ON):
            s2 = st
            if vn == "None":
                e.write_tree(loc, some(args[1]))
                s2 = eng.mon.on_store(eng, loc, e.read(loc), e, st, ev.loc)
                if s2 is None:
                    continue
            eng.finish_call(ctx, block, t, {(): ("ref", (loc[0], loc[1] + SOME))}, e, s2)
        return True
    return NotImplemented


@model("Pin::set")
def pin_set(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    v = env.read(loc)  # &mut Pin<P>: the pointee of the pointer inside
    if v != TOP:
        loc = eng.deref(env, v)
    env.write_tree(loc, args[1])
    st = eng.mon.on_store(eng, loc, env.read(loc), env, st, ev.loc)
    if st is None:
        return True
    eng.finish_call(ctx, block, t, {(): UNIT}, env, st)
    return True


# ---------------------------------------------------------------- closures called at most once
def payload(tree, vn):
    return pre(tree, (("v", vn), ("f", "0")))


@model("Option::map", "Option::and_then", "Result::map", "Result::map_err", "Option::map_or", "Option::map_or_else",
       "Option::unwrap_or_else", "Option::or_else", "Option::unwrap_or", "Option::or", "Option::is_some_and",
       "Option::is_none_or", "Option::unwrap_or_default", "Result::ok", "Result::err", "Option::ok_or", "Option::filter",
       "Result::and_then", "Poll::map", "Option::inspect", "Result::unwrap_or_else", "Option::flatten", "Option::get_or_insert_with",
       "Option::ok_or_else", "Result::unwrap_or", "Option::xor", "Option::and", "Option::zip")
def opt_hof(eng, ctx, block, t, ev, args, env, st, phase):
    k = ev.key
    # does the engine know the callables involved?
    def known(tr):
        return eng.find_closure(env, tr)[0] is not None

    slot = None
    if k == "Option::get_or_insert_with":
        slot = eng.deref(env, val(args[0]))
        args = [env.tree(slot)] + list(args[1:])
    names = ("Ready", "Pending") if k.startswith("Poll") else names_for(k)
    tree = args[0]
    if phase is not None:
        return NotImplemented
    for vi, vn, e in variant_fork(eng, env, tree, names):
        def fin(tr):
            eng.finish_call(ctx, block, t, tr, e, st)

        def call(f, a, cont):
            if not eng.call_closure(ctx, block, f, a, cont, e, st, t):
                # unknown callable: user code
                ev2 = eng.event(ctx, block, "FnOnce::call_once", "<closure>", "<closure>", [f] + a, t, e)
                ev2.kind = "user"
                st2 = eng.mon.on_call(eng, ev2, e, st)
                if st2 is None:
                    return
                eng.havoc_cells(e, ctx, block)
                eng.resume(ctx, block, cont, {(): eng.sym(e, ctx, block, k, [val(x) for x in args], "cb")}, e, st2)

        pos = vn in ("Some", "Ok", "Ready")
        pl = payload(tree, vn) if vn in ("Some", "Ok", "Err", "Ready") else None
        if slot is not None:
            inner = ("ref", (slot[0], slot[1] + SOME))
            if pos:
                fin({(): inner})
            else:
                e.write_tree(slot, {(): ("agg", "adt", OPT, 1, "Some")})
                call(args[1], [], ("into", inner))
        elif k in ("Option::map",):
            call(args[1], [pl], ("wrap", 1, "Some", OPT)) if pos else fin(dict(NONE))
        elif k == "Poll::map":
            call(args[1], [pl], ("wrap", 0, "Ready", "core::task::poll::Poll")) if pos else fin({(): ("agg", "adt", "core::task::poll::Poll", 1, "Pending")})
        elif k == "Option::and_then":
            call(args[1], [pl], ("ret",)) if pos else fin(dict(NONE))
        elif k == "Result::map":
            call(args[1], [pl], ("wrap", 0, "Ok", RES)) if pos else fin(wrap(pl, 1, "Err", RES))
        elif k == "Result::and_then":
            call(args[1], [pl], ("ret",)) if pos else fin(wrap(pl, 1, "Err", RES))
        elif k == "Result::map_err":
            fin(wrap(pl, 0, "Ok", RES)) if pos else call(args[1], [pl], ("wrap", 1, "Err", RES))
        elif k == "Option::map_or":
            call(args[2], [pl], ("ret",)) if pos else fin(args[1])
        elif k == "Option::map_or_else":
            call(args[2], [pl], ("ret",)) if pos else call(args[1], [], ("ret",))
        elif k == "Option::unwrap_or_else":
            fin(pl) if pos else call(args[1], [], ("ret",))
        elif k == "Result::unwrap_or_else":
            fin(pl) if pos else call(args[1], [pl], ("ret",))
        elif k == "Option::or_else":
            fin(some(pl)) if pos else call(args[1], [], ("ret",))
        elif k in ("Option::unwrap_or", "Result::unwrap_or"):
            fin(pl if pos else args[1])
        elif k == "Option::or":
            fin(some(pl) if pos else args[1])
        elif k == "Option::and":
            fin(args[1] if pos else dict(NONE))
        elif k == "Option::unwrap_or_default":
            fin(pl if pos else {(): eng.sym(e, ctx, block, "default", (), "d")})
        elif k == "Option::is_some_and":
            call(args[1], [pl], ("ret",)) if pos else fin({(): ("i", 0)})
        elif k == "Option::is_none_or":
            call(args[1], [pl], ("ret",)) if pos else fin({(): ("i", 1)})
        elif k == "Result::ok":
            fin(some(pl)) if pos else fin(dict(NONE))
        elif k == "Result::err":
            fin(dict(NONE)) if pos else fin(some(pl))
        elif k in ("Option::ok_or",):
            fin(wrap(pl, 0, "Ok", RES)) if pos else fin(wrap(args[1], 1, "Err", RES))
        elif k == "Option::ok_or_else":
            fin(wrap(pl, 0, "Ok", RES)) if pos else call(args[1], [], ("wrap", 1, "Err", RES))
        elif k == "Option::flatten":
            fin(pl) if pos else fin(dict(NONE))
        elif k == "Option::filter":
            fin({(): eng.sym(e, ctx, block, "filter", (val(tree),))}) if pos else fin(dict(NONE))
        elif k == "Option::inspect":
            fin(tree)
        else:
            fin({(): eng.sym(e, ctx, block, k, [val(x) for x in args])})
    return True


@model("bool::then", "bool::then_some")
def bool_then(eng, ctx, block, t, ev, args, env, st, phase):
    v = val(args[0])
    e0 = eng.assume(env, v, 0)
    if e0 is not None:
        e0 = e0.copy()
        eng.finish_call(ctx, block, t, dict(NONE), e0, st)
    e1 = eng.assume(env, v, 1)
    if e1 is not None:
        e1 = e1.copy()
        if ev.key == "bool::then_some":
            eng.finish_call(ctx, block, t, some(args[1]), e1, st)
        elif not eng.call_closure(ctx, block, args[1], [], ("wrap", 1, "Some", OPT), e1, st, t):
            return NotImplemented
    return True


@model("LocalKey::with", "LocalKey::with_borrow", "LocalKey::with_borrow_mut")
def tls_with(eng, ctx, block, t, ev, args, env, st, phase):
    v = val(args[0])
    key = env.read(v[1]) if v[0] == "ref" else ("deref", v)
    if key[0] == "cst":
        name = key[1]
    elif key[0] == "static":
        name = key[1]
    else:
        name = repr(key)
    a = {(): ("ref", (("S", name), ()))}
    if ev.key != "LocalKey::with":
        a = {(): ("ref", (("S", name), ("cell",)))}
    if eng.call_closure(ctx, block, args[1], [a], ("ret",), env, st, t):
        return True
    return NotImplemented


# ---------------------------------------------------------------- cells, locks, guards
@simple("Cell::get", "Cell::as_ptr_")
def cell_get(eng, ctx, block, ev, args, env):
    loc = eng.deref(env, val(args[0]))
    return env.tree((loc[0], loc[1] + ("cell",)))


@model("Cell::set", "Cell::replace", "Cell::take", "RefCell::replace", "RefCell::take", "Cell::update_")
def cell_set(eng, ctx, block, t, ev, args, env, st, phase):
    loc = eng.deref(env, val(args[0]))
    loc = (loc[0], loc[1] + ("cell",))
    old = env.tree(loc)
    if ev.key.endswith("take"):
        new = {(): eng.sym(env, ctx, block, "default", (), "dflt")}
        if ev.tyargs and not isinstance(ev.tyargs[0], str) and ev.tyargs[0].n == OPT:
            new = dict(NONE)
        elif ev.tyargs and not isinstance(ev.tyargs[0], str) and (ev.tyargs[0].k in ("bool", "uint", "int") or ev.tyargs[0].s in
                                                                  ("bool", "usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize")):
            new = {(): ("i", 0)}
    else:
        new = args[1]
    env.write_tree(loc, new)
    st = eng.mon.on_store(eng, loc, env.read(loc), env, st, ev.loc)
    if st is None:
        return True
    eng.finish_call(ctx, block, t, {(): UNIT} if ev.key == "Cell::set" else old, env, st)
    return True


def mkguard(eng, ctx, block, env, kind, loc):
    site = ("@", ctx.id, block, "g")
    if eng.is_cyc(ctx, block):
        eng.purge(env, site)
    return ("guard", kind, (loc[0], loc[1] + ("cell",)), site)


@model("RefCell::borrow", "RefCell::borrow_mut", "Mutex::lock", "RwLock::read", "RwLock::write")
def borrow(eng, ctx, block, t, ev, args, env, st, phase):
    v = val(args[0])
    loc = eng.deref(env, v)
    kind = {"RefCell::borrow": "shared", "RefCell::borrow_mut": "mut", "Mutex::lock": "lock"}.get(ev.key, "lock")
    g = mkguard(eng, ctx, block, env, kind, loc)
    st = eng.mon.on_acquire(eng, g, env, st, ev.loc)
    if st is None:
        return True
    tr = {(): g}
    if kind == "lock":
        # lock() returns Result unless it is parking_lot's
        if ev.id.startswith("std"):
            tr = wrap(tr, 0, "Ok", RES)
    eng.finish_call(ctx, block, t, tr, env, st)
    return True


@model("RefCell::try_borrow", "RefCell::try_borrow_mut", "Mutex::try_lock")
def try_borrow(eng, ctx, block, t, ev, args, env, st, phase):
    v = val(args[0])
    loc = eng.deref(env, v)
    kind = {"RefCell::try_borrow": "shared", "RefCell::try_borrow_mut": "mut"}.get(ev.key, "lock")
    e2 = env.copy()
    g = mkguard(eng, ctx, block, e2, kind, loc)
    st2 = eng.mon.on_acquire(eng, g, e2, st, ev.loc)
    if st2 is not None:
        if ev.key == "Mutex::try_lock" and not ev.id.startswith("std"):
            eng.finish_call(ctx, block, t, some({(): g}), e2, st2)
        else:
            eng.finish_call(ctx, block, t, wrap({(): g}, 0, "Ok", RES), e2, st2)
    err = {(): ("agg", "adt", RES, 1, "Err")}
    if ev.key == "Mutex::try_lock" and not ev.id.startswith("std"):
        err = dict(NONE)
    eng.finish_call(ctx, block, t, err, env.copy(), st)
    return True


@model("RefMut::map", "Ref::map", "MutexGuard::map")
def guard_map(eng, ctx, block, t, ev, args, env, st, phase):
    g = val(args[0])
    inner = {(): ("ref", g[2])} if g[0] == "guard" else {(): ("gderef", g)}
    cont = ("gmap", g)
    if eng.call_closure(ctx, block, args[1], [inner], cont, env, st, t):
        return True
    eng.finish_call(ctx, block, t, {(): ("gmapped", g, val(args[1])) if g[0] != "guard" else ("guard", g[1], (("D", ("gmapped", val(args[1]))), ()), g[3])}, env, st)
    return True


@model("RefMut::filter_map", "Ref::filter_map")
def guard_filter_map(eng, ctx, block, t, ev, args, env, st, phase):
    g = val(args[0])
    inner = {(): ("ref", g[2])} if g[0] == "guard" else {(): ("gderef", g)}
    if eng.call_closure(ctx, block, args[1], [inner], ("gfmap", g), env, st, t):
        return True
    return NotImplemented


@model("mem::drop")
def mem_drop(eng, ctx, block, t, ev, args, env, st, phase):
    v = val(args[0])
    if v[0] == "guard":
        st = eng.mon.on_release(eng, v, env, st, ev.loc)
        if st is None:
            return True
        eng.finish_call(ctx, block, t, {(): UNIT}, env, st)
        return True
    # drop(value): same as dropping the argument place
    o = t[2][0]
    p = o.get("mv") or o.get("cp")
    if p is None:
        eng.finish_call(ctx, block, t, {(): UNIT}, env, st)
        return True
    if phase is not None and phase[0] == "drop":
        seq = phase[1]
    else:
        ty = eng.optype(ctx, p)
        if ty is None:
            return NotImplemented
        seq = tuple(eng.drop_seq(env, eng.place(env, ctx, p), ty, 0))
    fake = ["drop", p, None, t[4], None, True]
    eng.do_drop(ctx, block, fake, ("drop", seq), env, st)
    return True


@simple("mem::forget", "mem::needs_drop_")
def forget(eng, ctx, block, ev, args, env):
    return {(): UNIT}


# ---------------------------------------------------------------- iterators
@simple("IntoIterator::into_iter")
def into_iter(eng, ctx, block, ev, args, env):
    if ev.info is not None and ev.info.get("rid") in eng.F.fns:
        return None
    v = val(args[0])
    if v[0] == "op" and v[1] in ITER_OPS:
        return args[0]
    t0 = ev.tyargs[0] if ev.tyargs else None
    if t0 is not None and not isinstance(t0, str) and "iter" in (t0.n or ""):
        return args[0]
    if v == TOP:
        return {(): TOP}
    if v[0] == "agg":
        return {(): ("op", "iter", ("tree", tuple(sorted(((p, x) for p, x in args[0].items()), key=repr))))}
    return {(): ("op", "iter", v)}


ITER_OPS = {"iter", "take", "zip", "rev", "skip", "enumerate", "peekable", "copied", "cloned", "map", "filter", "chain", "iter_mut", "skip_while", "take_while", "step_by"}


@simple("slice::iter", "Vec::iter", "slice::iter_mut", "VecDeque::iter", "BitSlice::iter", "Iterator::by_ref_")
def it_iter(eng, ctx, block, ev, args, env):
    v = val(args[0])
    return {(): ("op", "iter", v) if v != TOP else TOP}


@simple("Iterator::take", "Iterator::zip", "Iterator::rev", "Iterator::skip", "Iterator::enumerate", "Iterator::peekable",
        "Iterator::copied", "Iterator::cloned", "Iterator::chain", "Iterator::step_by")
def it_op(eng, ctx, block, ev, args, env):
    vs = [val(a) for a in args]
    if any(v == TOP for v in vs):
        return {(): TOP}
    return {(): ("op", ev.key.split("::")[1]) + tuple(vs)}


@model("Iterator::next", "DoubleEndedIterator::next_back", "Iterator::last", "Peekable::next_if")
def it_next(eng, ctx, block, t, ev, args, env, st, phase):
    fid = ev.info.get("rid") if ev.info else None
    if fid in eng.F.fns:
        return NotImplemented
    v = val(args[0])
    it = env.read(v[1]) if v[0] == "ref" else v
    # next() on a known iterator: an element of it or the end
    e0 = env.copy()
    s0 = eng.mon.on_end(eng, it, e0, st, eng.where(ctx, block))
    if s0 is not None:
        eng.finish_call(ctx, block, t, dict(NONE), e0, s0)
    tr, s1 = loop_item(eng, ctx, block, "next" if ev.key == "Iterator::next" else ev.key, it, env, st)
    if s1 is not None:
        eng.finish_call(ctx, block, t, some(tr), env, s1)
    return True


def loop_item(eng, ctx, block, key, it, env, st):
    """a fresh element of the iterator; the rule is told"""
    st = eng.mon.on_next(eng, it, env, st, eng.where(ctx, block))
    if st is None:
        return None, None
    item = eng.sym(env, ctx, block, key, (it,))
    if eng.mon.precise:
        from precise import item_tree
        tr = item_tree(eng, env, it, item)
    else:
        tr = iter_item(env, it, item)
    return tr, eng.mon.on_item(eng, it, item, env, st, eng.where(ctx, block))


def iter_item(env, it, item):
    """refine the shape of an element of a known iterator"""
    if it[0] == "op" and it[1] == "enumerate":
        return {(): ("agg", "tuple", "", 0, ""), (("f", "0"),): ("op", "index", item), (("f", "1"),): ("op", "elem", item)}
    return {(): item}


@model("Iterator::for_each")
def it_for_each(eng, ctx, block, t, ev, args, env, st, phase):
    f, tr = eng.find_closure(env, args[1])
    if f is None:
        return NotImplemented
    it = val(args[0])
    if ev.info is not None and it[0] == "ref":
        it = env.read(it[1]) if env.read(it[1])[0] == "op" else it
    e0 = env.copy()
    s0 = eng.mon.on_end(eng, it, e0, st, eng.where(ctx, block))
    if s0 is not None:
        eng.finish_call(ctx, block, t, {(): UNIT}, e0, s0)
    tr, st = loop_item(eng, ctx, block, "next", it, env, st)
    if st is None:
        return True
    if not eng.call_closure(ctx, block, args[1], [tr], ("again",), env, st, t):
        return NotImplemented
    return True


@model("Iterator::fold")
def it_fold(eng, ctx, block, t, ev, args, env, st, phase):
    f, tr = eng.find_closure(env, args[2])
    if f is None:
        return NotImplemented
    it = val(args[0])
    root = ("T", ctx.id, block)
    if phase is None:
        env.write_tree((root, ()), args[1])
    e0 = env.copy()
    s0 = eng.mon.on_end(eng, it, e0, st, eng.where(ctx, block))
    if s0 is not None:
        eng.finish_call(ctx, block, t, e0.tree((root, ())), e0, s0)
    acc = args[1]
    if phase is not None:
        acc = {(): eng.sym(env, ctx, block, "fold", (), "acc")}
    tr, st = loop_item(eng, ctx, block, "next", it, env, st)
    if st is None:
        return True
    if not eng.call_closure(ctx, block, args[2], [acc, tr], ("acc", root), env, st, t):
        return NotImplemented
    return True


@model("Entry::or_insert_with", "Entry::or_insert", "Entry::or_default", "Entry::or_insert_with_key")
def entry_or_insert(eng, ctx, block, t, ev, args, env, st, phase):
    """a map entry: what is there, or the given value"""
    if phase is not None:
        return NotImplemented
    r = eng.sym(env, ctx, block, ev.key, (val(args[0]),))
    e0 = env.copy()
    eng.finish_call(ctx, block, t, {(): r}, e0, st)
    if ev.key == "Entry::or_insert_with" and eng.find_closure(env, args[1])[0] is not None:
        if eng.call_closure(ctx, block, args[1], [], ("into", r), env, st, t):
            return True
    if ev.key == "Entry::or_insert":
        env.write_tree(eng.deref(env, r), args[1])
    eng.finish_call(ctx, block, t, {(): r}, env, st)
    return True


@simple("slice::len", "Vec::len", "VecDeque::len", "BitSlice::len", "BitVec::len")
def length(eng, ctx, block, ev, args, env):
    v = val(args[0])
    if v[0] == "ref":
        x = env.read(v[1])
        return {(): ("op", "Len", x) if x != TOP else TOP}
    return {(): TOP if v == TOP else ("op", "Len", ("deref", v))}


@simple("slice::is_empty", "Vec::is_empty", "VecDeque::is_empty")
def is_empty(eng, ctx, block, ev, args, env):
    v = val(args[0])
    x = env.read(v[1]) if v[0] == "ref" else (("deref", v) if v != TOP else TOP)
    return {(): ("op", "Eq", ("op", "Len", x), ("i", 0)) if x != TOP else TOP}


@simple("Index::index", "IndexMut::index_mut")
def index(eng, ctx, block, ev, args, env):
    v = val(args[0])
    if ev.info is not None and ev.info.get("rid") in eng.F.fns:
        return None
    a = args[1]
    loc = eng.deref(env, v)
    i = val(a)
    if i[0] == "agg":
        i = ("range",) + tuple(x for p, x in sorted(a.items(), key=repr) if p) + (i[2].split("::")[-1],)
    if i == TOP:
        return {(): ("ref", (loc[0], loc[1] + (("ix", TOP),)))}
    return {(): ("ref", (loc[0], loc[1] + (("ix", i),)))}


@simple("slice::get", "slice::get_mut", "Vec::get", "Vec::get_mut", "slice::get_unchecked", "slice::get_unchecked_mut")
def sget(eng, ctx, block, ev, args, env):
    v = val(args[0])
    i = val(args[1])
    loc = eng.deref(env, v)
    r = ("ref", (loc[0], loc[1] + (("ix", i),)))
    if "unchecked" in ev.key:
        return {(): r}
    return {(): eng.sym(env, ctx, block, "get", (v, i)), SOME: r}


@simple("Context::from_waker")
def ctx_from(eng, ctx, block, ev, args, env):
    return {(): ("agg", "adt", "core::task::wake::Context", 0, "Context"), (("f", "waker"),): val(args[0])}


@simple("Context::waker")
def ctx_waker(eng, ctx, block, ev, args, env):
    v = val(args[0])
    loc = eng.deref(env, v)
    return {(): env.read((loc[0], loc[1] + (("f", "waker"),)))}


@simple("MaybeUninit::uninit")
def mu_uninit(eng, ctx, block, ev, args, env):
    return {(): ("uninit",)}


@simple("RefCell::new", "Cell::new", "Mutex::new", "UnsafeCell::new")
def cell_new(eng, ctx, block, ev, args, env):
    out = {(): ("agg", "cell", "", 0, "")}
    for p, v in args[0].items():
        out[("cell",) + p] = v
    return out


@simple("RefCell::into_inner", "Cell::into_inner", "RefCell::get_mut", "Mutex::get_mut_")
def cell_into(eng, ctx, block, ev, args, env):
    if ev.key.endswith("get_mut"):
        loc = eng.deref(env, val(args[0]))
        return {(): ("ref", (loc[0], loc[1] + ("cell",)))}
    return pre(args[0], ("cell",))


@simple("Option::default_")
def opt_default(eng, ctx, block, ev, args, env):
    return dict(NONE)


@simple("Rc::new", "Arc::new")
def rc_new(eng, ctx, block, ev, args, env):
    r = eng.sym(env, ctx, block, ev.key, ())
    env.write_tree((("D", r), ()), args[0])
    return {(): r}


@simple("Try::branch")
def try_branch(eng, ctx, block, ev, args, env):
    return None


@model("Try::branch")
def try_branch_m(eng, ctx, block, t, ev, args, env, st, phase):
    s0 = ev.tyargs[0] if ev.tyargs else None
    if s0 is None or isinstance(s0, str) or s0.n not in (OPT, RES):
        return NotImplemented
    names = ON if s0.n == OPT else RN
    CF = "core::ops::control_flow::ControlFlow"
    for vi, vn, e in variant_fork(eng, env, args[0], names):
        if vn in ("Some", "Ok"):
            out = {(): ("agg", "adt", CF, 0, "Continue")}
            for p, v in payload(args[0], vn).items():
                out[(("v", "Continue"), ("f", "0")) + p] = v
        else:
            out = {(): ("agg", "adt", CF, 1, "Break")}
            res = dict(NONE) if vn == "None" else wrap(payload(args[0], "Err"), 1, "Err", RES)
            for p, v in res.items():
                out[(("v", "Break"), ("f", "0")) + p] = v
        eng.finish_call(ctx, block, t, out, e, st)
    return True


@simple("FromResidual::from_residual")
def from_residual(eng, ctx, block, ev, args, env):
    return args[0]


@simple("Option::eq_", "ptr::is_null_")
def _n(eng, ctx, block, ev, args, env):
    return None


STD_SUMS = ("core::option::Option", "core::result::Result", "core::task::poll::Poll", "core::ops::control_flow::ControlFlow",
            "core::cmp::Ordering")


def struct_eq(eng, env, la, lb):
    """equality of two values of standard sum types or tuples, field by field; None when it depends on something not known"""
    a, b = env.read(la), env.read(lb)
    if a == TOP or b == TOP:
        return None
    if a[0] != "agg" and b[0] != "agg":
        return eng.binop(env, "Eq", a, b)
    for x, y, l in ((a, b, la), (b, a, lb)):
        if x[0] == "agg" and y[0] != "agg":
            if x[1] != "adt" or x[2] not in STD_SUMS:
                return None
            if len(env.tree(l)) == 1 and x[4] in ("None", "Pending", "Less", "Equal", "Greater"):
                return eng.binop(env, "Eq", ("discr", y), ("i", x[3])) if x[2] != "core::cmp::Ordering" else None
            return None
    if a[1] != b[1] or a[1] not in ("adt", "tuple") or (a[1] == "adt" and (a[2] != b[2] or a[2] not in STD_SUMS)):
        return None
    if a[1] == "adt" and a[3] != b[3]:
        return ("i", 0)
    n = 2 if a[1] == "adt" else 1
    ks = {p[:n] for p in list(env.tree(la)) + list(env.tree(lb)) if len(p) >= n}
    out = ("i", 1)
    for k in sorted(ks, key=repr):
        v = struct_eq(eng, env, (la[0], la[1] + k), (lb[0], lb[1] + k))
        if v is None:
            return None
        out = v if out == ("i", 1) else out if v == ("i", 1) else eng.binop(env, "BitAnd", out, v)
    return out


@simple("PartialEq::eq", "PartialEq::ne", "ptr::eq", "Rc::ptr_eq", "Arc::ptr_eq")
def peq(eng, ctx, block, ev, args, env):
    if ev.info is not None and ev.info.get("rid") in eng.F.fns:
        return None
    a, b = val(args[0]), val(args[1])
    if ev.key.startswith("PartialEq"):
        la, lb = (eng.deref(env, x) if x != TOP else None for x in (a, b))
        a = env.read(la) if la else TOP
        b = env.read(lb) if lb else TOP
        if a[0] == "agg" or b[0] == "agg":
            v = struct_eq(eng, env, la, lb) if la and lb else None
            if v is None:
                return None
            if ev.key == "PartialEq::ne":
                v = ("i", 1 - v[1]) if v[0] == "i" else ("op", "Not", v)
            return {(): v}
    if a == TOP or b == TOP:
        return {(): TOP}
    v = eng.binop(env, "Eq", a, b)
    if ev.key == "PartialEq::ne":
        v = ("i", 1 - v[1]) if v[0] == "i" else ("op", "Not", v)
    return {(): v}


@simple("ptr::is_null", "const_ptr::is_null", "mut_ptr::is_null")
def is_null(eng, ctx, block, ev, args, env):
    v = val(args[0])
    if v == ("null",):
        return {(): ("i", 1)}
    if v[0] == "ref":
        return {(): ("i", 0)}
    return {(): ("op", "Eq", v, ("null",)) if v != TOP else TOP}


@simple("ptr::null", "ptr::null_mut")
def null(eng, ctx, block, ev, args, env):
    return {(): ("null",)}


@simple("ptr::addr_eq_")
def _n2(eng, ctx, block, ev, args, env):
    return None


@model("Rc::get_mut", "Arc::get_mut")
def rc_get_mut(eng, ctx, block, t, ev, args, env, st, phase):
    v = val(args[0])
    inner = env.read(v[1]) if v[0] == "ref" else ("deref", v)
    if inner == TOP:
        return NotImplemented
    if inner[0] != "ref":
        inner = ("ref", (("D", inner), ()))
    eng.finish_call(ctx, block, t, some({(): inner}), env.copy(), st)
    eng.finish_call(ctx, block, t, dict(NONE), env.copy(), st)
    return True
