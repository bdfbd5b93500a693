//! Fact extractor: runs as RUSTC_WORKSPACE_WRAPPER, compiles the crate as rustc would and
//! dumps the type-checked program (ADTs, impls, MIR bodies with resolved callees) as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_middle::util::Providers;
use rustc_session::Session;
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::OnceLock;

mod json;
use json::J;

thread_local! {
    static BODIES: RefCell<HashMap<String, J>> = RefCell::new(HashMap::new());
    static TYS: RefCell<(HashMap<String, usize>, Vec<J>)> = RefCell::new((HashMap::new(), Vec::new()));
}
type ElabFn = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;
static ORIG: OnceLock<ElabFn> = OnceLock::new();

fn elab<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let id = did(tcx, def.to_def_id());
    let proms = {
        let (_, p) = tcx.mir_promoted(def);
        let p = p.borrow();
        J::a(p.iter().map(|b| dump_body(tcx, def, b, "const", J::a(vec![]))).collect())
    };
    if tcx.is_coroutine(def.to_def_id()) {
        let j = {
            let (b, _) = tcx.mir_promoted(def);
            let b = b.borrow();
            dump_body(tcx, def, &b, "promoted", proms)
        };
        BODIES.with(|m| m.borrow_mut().insert(id, j));
        return ORIG.get().unwrap()(tcx, def);
    }
    let r = ORIG.get().unwrap()(tcx, def);
    let j = {
        let b = r.borrow();
        dump_body(tcx, def, &b, "elaborated", proms)
    };
    BODIES.with(|m| m.borrow_mut().insert(id, j));
    r
}

fn override_q(_s: &Session, p: &mut Providers) {
    let _ = ORIG.set(p.queries.mir_drops_elaborated_and_const_checked);
    p.queries.mir_drops_elaborated_and_const_checked = elab;
}

fn did(tcx: TyCtxt<'_>, d: DefId) -> String {
    let k = tcx.crate_name(d.krate).to_string();
    format!("{}{}", k, tcx.def_path(d).to_string_no_crate_verbose())
}
fn pretty(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(tcx.def_path_str(d)))
}
fn loc(tcx: TyCtxt<'_>, sp: Span) -> J {
    // position where the code was expanded into (call site), root of macro
    let sm = tcx.sess.source_map();
    let s2 = sp.source_callsite();
    let l = sm.lookup_char_pos(s2.lo());
    J::s(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
}
fn line(tcx: TyCtxt<'_>, sp: Span) -> J {
    let sm = tcx.sess.source_map();
    J::n(sm.lookup_char_pos(sp.source_callsite().lo()).line as i128)
}

fn ty_ix<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> usize {
    let key = ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(format!("{:?}", t)));
    if let Some(i) = TYS.with(|x| x.borrow().0.get(&key).copied()) {
        return i;
    }
    // children first
    let args = |a: ty::GenericArgsRef<'tcx>| {
        J::a(
            a.iter()
                .filter_map(|g| {
                    if let Some(t) = g.as_type() {
                        Some(J::n(ty_ix(tcx, t) as i128))
                    } else if let Some(c) = g.as_const() {
                        Some(J::s(format!("{:?}", c)))
                    } else {
                        None
                    }
                })
                .collect(),
        )
    };
    let sub = |t: Ty<'tcx>| J::n(ty_ix(tcx, t) as i128);
    let disp = ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(t.to_string()));
    let mut o = vec![("s", J::s(disp))];
    match t.kind() {
        ty::Adt(d, a) => {
            o.push(("k", J::s("adt")));
            o.push(("n", J::s(did(tcx, d.did()))));
            o.push(("a", args(a)));
        }
        ty::Ref(_, t, m) => {
            o.push(("k", J::s("ref")));
            o.push(("m", J::b(m.is_mut())));
            o.push(("t", sub(*t)));
        }
        ty::RawPtr(t, m) => {
            o.push(("k", J::s("ptr")));
            o.push(("m", J::b(m.is_mut())));
            o.push(("t", sub(*t)));
        }
        ty::Slice(t) => {
            o.push(("k", J::s("slice")));
            o.push(("t", sub(*t)));
        }
        ty::Array(t, n) => {
            o.push(("k", J::s("array")));
            o.push(("t", sub(*t)));
            o.push(("len", J::s(format!("{:?}", n))));
        }
        ty::Tuple(ts) => {
            o.push(("k", J::s("tuple")));
            o.push(("a", J::a(ts.iter().map(sub).collect())));
        }
        ty::Param(p) => {
            o.push(("k", J::s("param")));
            o.push(("n", J::s(p.name.to_string())));
        }
        ty::Closure(d, a) => {
            o.push(("k", J::s("closure")));
            o.push(("n", J::s(did(tcx, *d))));
            let up = a.as_closure().tupled_upvars_ty();
            if let ty::Tuple(ts) = up.kind() {
                o.push(("a", J::a(ts.iter().map(sub).collect())));
            }
        }
        ty::Coroutine(d, a) => {
            o.push(("k", J::s("coroutine")));
            o.push(("n", J::s(did(tcx, *d))));
            let up = a.as_coroutine().tupled_upvars_ty();
            if let ty::Tuple(ts) = up.kind() {
                o.push(("a", J::a(ts.iter().map(sub).collect())));
            }
        }
        ty::FnDef(d, a) => {
            o.push(("k", J::s("fndef")));
            o.push(("n", J::s(did(tcx, *d))));
            o.push(("a", args(a.skip_binder())));
        }
        ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
        ty::Dynamic(preds, _) => {
            o.push(("k", J::s("dyn")));
            if let Some(p) = preds.principal_def_id() {
                o.push(("n", J::s(did(tcx, p))));
            }
        }
        ty::Alias(_, a) => {
            o.push(("k", J::s("alias")));
            o.push(("n", J::s(format!("{:?}", a.kind))));
            o.push(("a", args(a.args)));
        }
        ty::Never => o.push(("k", J::s("never"))),
        _ => o.push(("k", J::s("prim"))),
    }
    let v = J::o(o);
    TYS.with(|x| {
        let mut x = x.borrow_mut();
        if let Some(i) = x.0.get(&key) {
            return *i;
        }
        let i = x.1.len();
        x.1.push(v);
        x.0.insert(key, i);
        i
    })
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    def: LocalDefId,
    env: ty::TypingEnv<'tcx>,
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => proj.push(J::s("*")),
                ProjectionElem::Field(i, fty) => {
                    let mut name = format!("{}", i.index());
                    let mut owner = String::new();
                    match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            owner = did(tcx, d.did());
                            if let Some(f) = d.variant(v).fields.get(i) {
                                name = f.name.to_string();
                            }
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            owner = did(tcx, *d);
                            if let Some(l) = d.as_local() {
                                let caps = tcx.closure_captures(l);
                                if let Some(c) = caps.get(i.index()) {
                                    name = format!("^{}", c.to_symbol());
                                }
                            }
                        }
                        _ => {}
                    }
                    proj.push(J::a(vec![
                        J::s("f"),
                        J::n(i.index() as i128),
                        J::s(name),
                        J::s(owner),
                        J::n(ty_ix(tcx, fty) as i128),
                    ]));
                }
                ProjectionElem::Index(l) => {
                    proj.push(J::a(vec![J::s("i"), J::n(l.index() as i128)]))
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => proj.push(J::a(vec![
                    J::s("ci"),
                    J::n(offset as i128),
                    J::b(from_end),
                ])),
                ProjectionElem::Subslice { from, to, from_end } => proj.push(J::a(vec![
                    J::s("sub"),
                    J::n(from as i128),
                    J::n(to as i128),
                    J::b(from_end),
                ])),
                ProjectionElem::Downcast(n, v) => proj.push(J::a(vec![
                    J::s("v"),
                    J::n(v.index() as i128),
                    J::s(n.map(|s| s.to_string()).unwrap_or_default()),
                ])),
                _ => proj.push(J::s("?")),
            }
            pt = pt.projection_ty(tcx, e);
        }
        J::a(vec![J::n(p.local.index() as i128), J::a(proj)])
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("ty", J::n(ty_ix(tcx, t) as i128))];
        match t.kind() {
            ty::FnDef(d, a) => {
                o.push(("fn", self.callee(*d, a.skip_binder())));
            }
            _ => {
                if let mir::Const::Unevaluated(u, _) = c.const_ {
                    o.push(("def", J::s(did(tcx, u.def))));
                    if let Some(p) = u.promoted {
                        o.push(("promoted", J::n(p.index() as i128)));
                    }
                }
                if let Some(sc) = c.const_.try_eval_scalar_int(tcx, self.env) {
                    o.push(("v", J::s(format!("{}", sc.to_bits_unchecked()))));
                }
                if let mir::Const::Val(mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) = c.const_ {
                    if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) =
                        tcx.global_alloc(p.provenance.alloc_id())
                    {
                        o.push(("static", J::s(did(tcx, d))));
                    }
                }
                if let mir::Const::Val(v, t) = c.const_ {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                o.push(("str", J::s(String::from_utf8_lossy(b).to_string())));
                            }
                        }
                    }
                }
                o.push(("p", J::s(ty::print::with_no_trimmed_paths!(format!("{}", c.const_)))));
            }
        }
        J::o(vec![("c", J::o(o))])
    }

    fn callee(&self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("id", J::s(did(tcx, d))),
            ("name", J::s(pretty(tcx, d))),
            (
                "args",
                J::a(
                    a.iter()
                        .map(|g| match g.as_type() {
                            Some(t) => J::n(ty_ix(tcx, t) as i128),
                            None => J::s(format!("{:?}", g)),
                        })
                        .collect(),
                ),
            ),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(did(tcx, tr))));
            o.push(("tname", J::s(pretty(tcx, tr))));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let a2 = tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, a2) {
                match inst.def {
                    ty::InstanceKind::Item(rd) => {
                        o.push(("rid", J::s(did(tcx, rd))));
                        o.push(("rname", J::s(pretty(tcx, rd))));
                    }
                    ty::InstanceKind::Virtual(..) => o.push(("virt", J::b(true))),
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => {
                        o.push(("rid", J::s(did(tcx, closure))));
                        o.push(("once", J::b(true)));
                    }
                    k => {
                        o.push(("shim", J::s(format!("{:?}", k).chars().take(60).collect::<String>())))
                    }
                }
                o.push((
                    "rargs",
                    J::a(
                        inst.args
                            .iter()
                            .map(|g| match g.as_type() {
                                Some(t) => J::n(ty_ix(tcx, t) as i128),
                                None => J::s(format!("{:?}", g)),
                            })
                            .collect(),
                    ),
                ));
            }
        }
        J::o(o)
    }

    fn operand(&self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::o(vec![("cp", self.place(p))]),
            Operand::Move(p) => J::o(vec![("mv", self.place(p))]),
            Operand::Constant(c) => self.constant(c),
            _ => J::o(vec![("rt", J::b(true))]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        let t = |x: &str| J::s(x);
        match r {
            Rvalue::Use(o, _) => J::a(vec![t("use"), self.operand(o)]),
            Rvalue::Repeat(o, n) => {
                J::a(vec![t("repeat"), self.operand(o), J::s(format!("{:?}", n))])
            }
            Rvalue::Ref(_, k, p) => J::a(vec![
                t("ref"),
                self.place(p),
                J::s(match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    _ => "mut",
                }),
            ]),
            Rvalue::Reborrow(_, m, p) => J::a(vec![
                t("ref"),
                self.place(p),
                J::s(if m.is_mut() { "mut" } else { "shared" }),
            ]),
            Rvalue::ThreadLocalRef(d) => J::a(vec![t("tls"), J::s(did(tcx, *d))]),
            Rvalue::RawPtr(k, p) => {
                J::a(vec![t("raw"), self.place(p), J::s(format!("{:?}", k))])
            }
            Rvalue::Cast(k, o, ty) => J::a(vec![
                t("cast"),
                self.operand(o),
                J::s(format!("{:?}", k).chars().take(80).collect::<String>()),
                J::n(ty_ix(tcx, *ty) as i128),
                J::n(ty_ix(tcx, o.ty(self.body, tcx)) as i128),
            ]),
            Rvalue::BinaryOp(op, b) => J::a(vec![
                t("bin"),
                J::s(format!("{:?}", op)),
                self.operand(&b.0),
                self.operand(&b.1),
            ]),
            Rvalue::UnaryOp(op, a) => {
                J::a(vec![t("un"), J::s(format!("{:?}", op)), self.operand(a)])
            }
            Rvalue::Discriminant(p) => J::a(vec![t("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![];
                match &**k {
                    AggregateKind::Array(_) => o.push(("k", J::s("array"))),
                    AggregateKind::Tuple => o.push(("k", J::s("tuple"))),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        o.push(("k", J::s("adt")));
                        o.push(("n", J::s(did(tcx, *d))));
                        let ad = tcx.adt_def(*d);
                        let var = ad.variant(*v);
                        o.push(("v", J::s(var.name.to_string())));
                        o.push(("vi", J::n(v.index() as i128)));
                        o.push((
                            "f",
                            J::a(var.fields.iter().map(|f| J::s(f.name.to_string())).collect()),
                        ));
                        o.push((
                            "a",
                            J::a(
                                args.iter()
                                    .filter_map(|g| g.as_type())
                                    .map(|t| J::n(ty_ix(tcx, t) as i128))
                                    .collect(),
                            ),
                        ));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("k", J::s("closure")));
                        o.push(("n", J::s(did(tcx, *d))));
                    }
                    AggregateKind::Coroutine(d, _) => {
                        o.push(("k", J::s("coroutine")));
                        o.push(("n", J::s(did(tcx, *d))));
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        o.push(("k", J::s("coroutine_closure")));
                        o.push(("n", J::s(did(tcx, *d))));
                    }
                    AggregateKind::RawPtr(..) => o.push(("k", J::s("rawptr"))),
                }
                if let AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) = &**k {
                    if let Some(l) = d.as_local() {
                        let caps = tcx.closure_captures(l);
                        o.push((
                            "f",
                            J::a(caps.iter().map(|c| J::s(format!("^{}", c.to_symbol()))).collect()),
                        ));
                    }
                }
                J::a(vec![
                    t("agg"),
                    J::o(o),
                    J::a(ops.iter().map(|x| self.operand(x)).collect()),
                ])
            }
            Rvalue::CopyForDeref(p) => {
                J::a(vec![t("use"), J::o(vec![("cp", self.place(p))])])
            }
            Rvalue::WrapUnsafeBinder(o, _) => J::a(vec![t("use"), self.operand(o)]),
        }
    }

    fn unw(u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => J::n(b.index() as i128),
            _ => J::Null,
        }
    }
    fn bb(b: BasicBlock) -> J {
        J::n(b.index() as i128)
    }

    fn term(&self, t: &Terminator<'tcx>) -> J {
        let tcx = self.tcx;
        let k = |x: &str| J::s(x);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::a(vec![k("goto"), Self::bb(*target)]),
            TerminatorKind::FalseEdge { real_target, .. } => {
                J::a(vec![k("goto"), Self::bb(*real_target)])
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                J::a(vec![k("goto"), Self::bb(*real_target)])
            }
            TerminatorKind::SwitchInt { discr, targets } => J::a(vec![
                k("switch"),
                self.operand(discr),
                J::a(
                    targets
                        .iter()
                        .map(|(v, b)| J::a(vec![J::s(v.to_string()), Self::bb(b)]))
                        .collect(),
                ),
                Self::bb(targets.otherwise()),
            ]),
            TerminatorKind::UnwindResume => J::a(vec![k("resume")]),
            TerminatorKind::UnwindTerminate(_) => J::a(vec![k("abort")]),
            TerminatorKind::Return => J::a(vec![k("return")]),
            TerminatorKind::CoroutineDrop => J::a(vec![k("cordrop")]),
            TerminatorKind::Unreachable => J::a(vec![k("unreachable")]),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = place.ty(self.body, tcx).ty;
                let needs = ty.needs_drop(tcx, self.env);
                J::a(vec![
                    k("drop"),
                    self.place(place),
                    J::n(ty_ix(tcx, ty) as i128),
                    Self::bb(*target),
                    Self::unw(unwind),
                    J::b(needs),
                ])
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => J::a(vec![
                k("call"),
                self.operand(func),
                J::a(args.iter().map(|a| self.operand(&a.node)).collect()),
                self.place(destination),
                target.map(Self::bb).unwrap_or(J::Null),
                Self::unw(unwind),
                loc(tcx, t.source_info.span),
            ]),
            TerminatorKind::TailCall { func, args, .. } => J::a(vec![
                k("call"),
                self.operand(func),
                J::a(args.iter().map(|a| self.operand(&a.node)).collect()),
                J::a(vec![J::n(0), J::a(vec![])]),
                J::Null,
                J::Null,
                loc(tcx, t.source_info.span),
            ]),
            TerminatorKind::Assert { cond, expected, target, unwind, msg } => J::a(vec![
                k("assert"),
                self.operand(cond),
                J::b(*expected),
                Self::bb(*target),
                Self::unw(unwind),
                J::s(format!("{:?}", msg).chars().take(60).collect::<String>()),
            ]),
            TerminatorKind::Yield { value, resume, resume_arg, drop } => J::a(vec![
                k("yield"),
                self.operand(value),
                Self::bb(*resume),
                self.place(resume_arg),
                drop.map(Self::bb).unwrap_or(J::Null),
            ]),
            TerminatorKind::InlineAsm { .. } => J::a(vec![k("asm")]),
        }
    }
}

fn dump_body<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId, body: &Body<'tcx>, phase: &str, proms: J) -> J {
    let env = if phase == "promoted" {
        ty::TypingEnv::post_analysis(tcx, def)
    } else {
        ty::TypingEnv::post_analysis(tcx, def)
    };
    let cx = Cx { tcx, body, def, env };
    let _ = cx.def;
    let mut names: HashMap<usize, String> = HashMap::new();
    for v in &body.var_debug_info {
        if let VarDebugInfoContents::Place(p) = &v.value {
            if p.projection.is_empty() {
                names.entry(p.local.index()).or_insert(v.name.to_string());
            }
        }
    }
    let locals = body
        .local_decls
        .iter_enumerated()
        .map(|(l, d)| {
            let mut o = vec![("t", J::n(ty_ix(tcx, d.ty) as i128))];
            if let Some(n) = names.get(&l.index()) {
                o.push(("n", J::s(n.clone())));
            }
            o.push(("nd", J::b(d.ty.needs_drop(tcx, env))));
            J::o(o)
        })
        .collect();
    let blocks = body
        .basic_blocks
        .iter()
        .map(|b| {
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(a) => st.push(J::a(vec![
                        J::s("="),
                        cx.place(&a.0),
                        cx.rvalue(&a.1),
                        line(tcx, s.source_info.span),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::a(vec![
                            J::s("setd"),
                            cx.place(place),
                            J::n(variant_index.index() as i128),
                            line(tcx, s.source_info.span),
                        ]))
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::a(vec![J::s("dead"), J::n(l.index() as i128)]))
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::a(vec![J::s("live"), J::n(l.index() as i128)]))
                    }
                    _ => {}
                }
            }
            J::o(vec![
                ("s", J::a(st)),
                ("t", cx.term(b.terminator())),
                ("l", line(tcx, b.terminator().source_info.span)),
                ("cl", J::b(b.is_cleanup)),
            ])
        })
        .collect();
    J::o(vec![
        ("phase", J::s(phase)),
        ("argc", J::n(body.arg_count as i128)),
        ("locals", J::a(locals)),
        ("blocks", J::a(blocks)),
        ("promoted", proms),
    ])
}

fn dump_crate(tcx: TyCtxt<'_>) -> J {
    let mut fns = vec![];
    let mut cbodies = vec![];
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| did(tcx, k.to_def_id()));
    for def in keys {
        let d = def.to_def_id();
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
            let _ = tcx.mir_drops_elaborated_and_const_checked(def);
            let id = did(tcx, d);
            if let Some(body) = BODIES.with(|m| m.borrow_mut().remove(&id)) {
                cbodies.push(J::o(vec![
                    ("id", J::s(id)),
                    ("name", J::s(pretty(tcx, d))),
                    ("kind", J::s("Const".to_string())),
                    ("loc", loc(tcx, tcx.def_span(d))),
                    ("body", body),
                ]));
            }
            continue;
        }
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody) {
            continue;
        }
        // make sure it was computed
        let _ = tcx.mir_drops_elaborated_and_const_checked(def);
        let id = did(tcx, d);
        let body = BODIES.with(|m| m.borrow_mut().remove(&id));
        let Some(body) = body else { continue };
        let mut o = vec![
            ("id", J::s(id)),
            ("name", J::s(pretty(tcx, d))),
            ("kind", J::s(format!("{:?}", kind))),
            ("loc", loc(tcx, tcx.def_span(d))),
            ("expn", J::b(tcx.def_span(d).from_expansion())),
        ];
        o.push((
            "generics",
            J::a(
                ty::GenericArgs::identity_for_item(tcx, d)
                    .iter()
                    .map(|g| J::s(format!("{:?}", g)))
                    .collect(),
            ),
        ));
        if tcx.is_coroutine(d) {
            o.push(("coroutine", J::b(true)));
        }
        let parent = tcx.parent(d);
        o.push(("parent", J::s(did(tcx, parent))));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("vis", J::s(format!("{:?}", tcx.visibility(d)))));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_normalization().skip_binder();
            o.push((
                "inputs",
                J::a(sig.inputs().iter().map(|t| J::n(ty_ix(tcx, *t) as i128)).collect()),
            ));
            o.push(("output", J::n(ty_ix(tcx, sig.output()) as i128)));
            o.push(("unsafe", J::b(!sig.safety().is_safe())));
            if let Some(ai) = tcx.opt_associated_item(d) {
                if let Some(t) = ai.trait_item_def_id() {
                    o.push(("impl_of", J::s(did(tcx, t))));
                }
            }
            if let DefKind::Impl { .. } = tcx.def_kind(parent) {
                let st = tcx.type_of(parent).instantiate_identity().skip_normalization();
                o.push(("self", J::n(ty_ix(tcx, st) as i128)));
            } else if tcx.def_kind(parent) == DefKind::Trait {
                o.push(("in_trait", J::s(did(tcx, parent))));
            }
            let ev = tcx.effective_visibilities(());
            o.push(("reach", J::b(ev.is_reachable(def))));
        }
        o.push(("body", body));
        fns.push(J::o(o));
    }
    let mut adts = vec![];
    let mut impls = vec![];
    let mut consts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ad = tcx.adt_def(d);
                let vs = ad
                    .variants()
                    .iter()
                    .map(|v| {
                        J::o(vec![
                            ("name", J::s(v.name.to_string())),
                            (
                                "fields",
                                J::a(
                                    v.fields
                                        .iter()
                                        .map(|f| {
                                            let t = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                                            J::o(vec![
                                                ("name", J::s(f.name.to_string())),
                                                ("ty", J::n(ty_ix(tcx, t) as i128)),
                                                ("vis", J::s(format!("{:?}", f.vis))),
                                            ])
                                        })
                                        .collect(),
                                ),
                            ),
                        ])
                    })
                    .collect();
                let mut o = vec![
                    ("id", J::s(did(tcx, d))),
                    ("name", J::s(pretty(tcx, d))),
                    ("vis", J::s(format!("{:?}", tcx.visibility(d)))),
                    ("reach", J::b(tcx.effective_visibilities(()).is_reachable(id))),
                    ("kind", J::s(format!("{:?}", tcx.def_kind(d)))),
                    ("loc", loc(tcx, tcx.def_span(d))),
                    ("variants", J::a(vs)),
                ];
                if let Some(dt) = tcx.adt_destructor(d) {
                    o.push(("drop", J::s(did(tcx, dt.did))));
                }
                adts.push(J::o(o));
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(d).instantiate_identity().skip_normalization();
                let mut o = vec![
                    ("id", J::s(did(tcx, d))),
                    ("self", J::n(ty_ix(tcx, st) as i128)),
                    ("loc", loc(tcx, tcx.def_span(d))),
                ];
                if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                    let tr = tr.instantiate_identity().skip_normalization();
                    o.push(("trait", J::s(did(tcx, tr.def_id))));
                    o.push((
                        "targs",
                        J::a(
                            tr.args
                                .iter()
                                .filter_map(|g| g.as_type())
                                .map(|t| J::n(ty_ix(tcx, t) as i128))
                                .collect(),
                        ),
                    ));
                    o.push(("polarity", J::s(format!("{:?}", tcx.impl_polarity(d)))));
                }
                let preds = tcx.param_env(d);
                o.push((
                    "preds",
                    J::a(
                        preds
                            .caller_bounds()
                            .map(|p| {
                                J::s(ty::print::with_no_trimmed_paths!(
                                    ty::print::with_crate_prefix!(format!("{:?}", p))
                                ))
                            })
                            .collect(),
                    ),
                ));
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    let mut e = vec![
                        ("id", J::s(did(tcx, it.def_id))),
                        ("kind", J::s(format!("{:?}", it.tag()))),
                    ];
                    if let Some(t) = it.trait_item_def_id() {
                        e.push(("of", J::s(did(tcx, t))));
                    }
                    if matches!(tcx.def_kind(it.def_id), DefKind::AssocTy) {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_normalization();
                        e.push(("ty", J::n(ty_ix(tcx, t) as i128)));
                    }
                    if matches!(tcx.def_kind(it.def_id), DefKind::AssocConst { .. }) {
                        if let Ok(v) = tcx.const_eval_poly(it.def_id) {
                            if let Some(s) = v.try_to_scalar_int() {
                                e.push(("v", J::s(format!("{}", s.to_bits_unchecked()))));
                            }
                        }
                    }
                    items.push(J::o(e));
                }
                o.push(("items", J::a(items)));
                impls.push(J::o(o));
            }
            DefKind::Const { .. } | DefKind::Static { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_normalization();
                consts.push(J::o(vec![
                    ("id", J::s(did(tcx, d))),
                    ("ty", J::n(ty_ix(tcx, t) as i128)),
                ]));
            }
            _ => {}
        }
    }
    let tys = TYS.with(|x| std::mem::take(&mut x.borrow_mut().1));
    J::o(vec![
        ("crate", J::s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
        ("fns", J::a(fns)),
        ("cbodies", J::a(cbodies)),
        ("adts", J::a(adts)),
        ("impls", J::a(impls)),
        ("consts", J::a(consts)),
        ("tys", J::a(tys)),
    ])
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.override_queries = Some(override_q);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let j = dump_crate(tcx);
        let kind = if tcx.sess.opts.test { "-test" } else { "" };
        let p = format!("{}/{}{}.json", self.out, name, kind);
        std::fs::write(&p, j.to_string()).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper invocation: vp-driver /path/to/rustc args...
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("VP_OUT").unwrap_or_default();
    let probe = out.is_empty()
        || args.iter().any(|a| a == "-vV" || a.starts_with("--print"))
        || !args.iter().any(|a| a == "--crate-name")
        || args.iter().any(|a| a == "___" || a == "build_script_build");
    if probe {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop))
    } else {
        rustc_driver::catch_with_exit_code(|| {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        })
    }
}
