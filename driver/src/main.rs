// mirfacts: a rustc driver which writes, as JSON, the resolved program of the crate it
// compiles: every body at the `mir_promoted` stage (before borrowck, drop elaboration and the
// coroutine transform), with resolved callees, named fields and decoded constants, plus the
// ADTs and trait impls.  The Python rules in /verif/rules decide the properties from it.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::fmt::Write as _;

mod json;
use json::J;

struct Cb {
    bodies: Vec<(LocalDefId, Body<'static>, Vec<Body<'static>>)>,
    out: String,
}

// remote-ffi's library is also called `ced_remote`: keep the two crates apart
fn crate_name(tcx: TyCtxt<'_>, d: DefId) -> String {
    let n = tcx.crate_name(d.krate).to_string();
    if d.is_local() && std::env::var("CARGO_PKG_NAME").as_deref() == Ok("remote-ffi") {
        return "ced_ffi".into();
    }
    n
}

fn crate_key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", crate_name(tcx, d), tcx.def_path(d).to_string_no_crate_verbose())
}

// canonical type text: defining paths, never re-exports, no lifetimes
fn cty<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    let list = |it: &mut dyn Iterator<Item = Ty<'tcx>>| -> String {
        it.map(|x| cty(tcx, x)).collect::<Vec<_>>().join(", ")
    };
    let gen = |args: ty::GenericArgsRef<'tcx>| -> String {
        let v: Vec<String> = args
            .iter()
            .filter_map(|a| match a.kind() {
                ty::GenericArgKind::Type(t) => Some(cty(tcx, t)),
                ty::GenericArgKind::Const(c) => Some(format!("{}", c)),
                _ => None,
            })
            .collect();
        if v.is_empty() {
            String::new()
        } else {
            format!("<{}>", v.join(", "))
        }
    };
    match t.kind() {
        ty::Adt(d, a) => format!("{}{}", crate_key(tcx, d.did()), gen(*a)),
        ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, cty(tcx, *t)),
        ty::RawPtr(t, m) => {
            format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, cty(tcx, *t))
        }
        ty::Slice(t) => format!("[{}]", cty(tcx, *t)),
        ty::Array(t, n) => format!("[{}; {}]", cty(tcx, *t), n),
        ty::Tuple(ts) => format!("({})", list(&mut ts.iter())),
        ty::FnDef(d, _) => format!("fn:{}", crate_key(tcx, *d)),
        ty::FnPtr(..) => {
            let sig = t.fn_sig(tcx).skip_binder();
            format!(
                "fnptr({}) -> {}",
                list(&mut sig.inputs().iter().copied()),
                cty(tcx, sig.output())
            )
        }
        ty::Closure(d, _) | ty::CoroutineClosure(d, _) => format!("closure:{}", crate_key(tcx, *d)),
        ty::Coroutine(d, _) => format!("coroutine:{}", crate_key(tcx, *d)),
        ty::Dynamic(p, _) => match p.principal_def_id() {
            Some(d) => format!("dyn {}", crate_key(tcx, d)),
            None => "dyn ?".into(),
        },
        _ => with_no_trimmed_paths!(t.to_string()),
    }
}

fn pretty(tcx: TyCtxt<'_>, d: DefId) -> String {
    let s = with_no_trimmed_paths!(tcx.def_path_str(d));
    if d.is_local() {
        format!("{}::{}", crate_name(tcx, d), s)
    } else {
        s
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    did: DefId,
    env: ty::TypingEnv<'tcx>,
}

fn adt_def_name(tcx: TyCtxt<'_>, d: DefId) -> String {
    crate_key(tcx, d)
}

impl<'tcx> Dump<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp0 = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp0.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        let mut exp = String::new();
        if sp.from_expansion() {
            let ed = sp.ctxt().outer_expn_data();
            exp = match ed.kind {
                rustc_span::ExpnKind::Macro(_, n) => format!("{}!", n),
                rustc_span::ExpnKind::Desugaring(k) => format!("{:?}", k),
                _ => "x".into(),
            };
        }
        J::A(vec![J::s(f), J::I(loc.line as i128), J::s(exp)])
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut out = vec![J::I(p.local.as_usize() as i128)];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            let j = match el {
                ProjectionElem::Deref => J::A(vec![J::s("d"), J::s(kind_of(pty.ty))]),
                ProjectionElem::Field(f, _) => {
                    let (owner, name) = self.field_name(pty, f);
                    J::A(vec![J::s("f"), J::I(f.as_usize() as i128), J::s(name), J::s(owner)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![
                    J::s("ci"),
                    J::I(offset as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(d, _) => d.variant(v).name.to_string(),
                        _ => format!("{}", v.as_usize()),
                    };
                    J::A(vec![J::s("v"), J::s(name), J::I(v.as_usize() as i128)])
                }
                _ => J::A(vec![J::s("o")]),
            };
            out.push(j);
            pty = pty.projection_ty(tcx, el);
        }
        J::A(out)
    }

    fn field_name(&self, pty: PlaceTy<'tcx>, f: rustc_abi::FieldIdx) -> (String, String) {
        let tcx = self.tcx;
        match pty.ty.kind() {
            ty::Adt(d, _) => {
                let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                let v = d.variant(vi);
                let n = v.fields[f].name.to_string();
                let o = if d.is_enum() {
                    format!("{}::{}", adt_def_name(tcx, d.did()), v.name)
                } else {
                    adt_def_name(tcx, d.did())
                };
                (o, n)
            }
            ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                let names = tcx.closure_saved_names_of_captured_variables(*d);
                let n = names
                    .get(f)
                    .map(|s| s.to_string())
                    .unwrap_or_else(|| format!("{}", f.as_usize()));
                (format!("upvar:{}", crate_key(tcx, *d)), n)
            }
            ty::Tuple(_) => ("tuple".into(), format!("{}", f.as_usize())),
            _ => ("?".into(), format!("{}", f.as_usize())),
        }
    }

    fn callee(&self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("id", J::s(crate_key(tcx, did))),
            ("path", J::s(pretty(tcx, did))),
            ("name", J::s(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default())),
            (
                "substs",
                J::A(args
                    .iter()
                    .filter_map(|a| match a.kind() {
                        ty::GenericArgKind::Type(t) => Some(J::s(cty(tcx, t))),
                        ty::GenericArgKind::Const(c) => {
                            Some(J::s(with_no_trimmed_paths!(c.to_string())))
                        }
                        _ => None,
                    })
                    .collect()),
            ),
        ];
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait", J::s(pretty(tcx, tr))));
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            if let DefKind::Ctor(of, _) = tcx.def_kind(did) {
                // constructor function: parent variant/struct
                let parent = tcx.parent(did);
                let (adt, var) = match of {
                    rustc_hir::def::CtorOf::Struct => (parent, None),
                    rustc_hir::def::CtorOf::Variant => {
                        (tcx.parent(parent), Some(tcx.item_name(parent).to_string()))
                    }
                };
                o.push(("ctor", J::s(crate_key(tcx, adt))));
                o.push(("variant", var.map(J::s).unwrap_or(J::N)));
            } else if !args.has_escaping_bound_vars() {
                let eargs = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, did, eargs) {
                    let rid = inst.def_id();
                    if rid != did {
                        o.push((
                            "rsubsts",
                            J::A(inst
                                .args
                                .iter()
                                .filter_map(|a| match a.kind() {
                                    ty::GenericArgKind::Type(t) => Some(J::s(cty(tcx, t))),
                                    ty::GenericArgKind::Const(c) => {
                                        Some(J::s(with_no_trimmed_paths!(c.to_string())))
                                    }
                                    _ => None,
                                })
                                .collect()),
                        ));
                        o.push(("rid", J::s(crate_key(tcx, rid))));
                        o.push(("rpath", J::s(pretty(tcx, rid))));
                    }
                    match inst.def {
                        ty::InstanceKind::Virtual(..) => o.push(("virtual", J::B(true))),
                        ty::InstanceKind::Item(_) => {}
                        ref k => o.push(("shim", J::s(format!("{:?}", k).chars().take(40).collect::<String>()))),
                    }
                    o.push(("res", J::B(true)));
                }
            }
        }
        J::O(o)
    }

    fn constant(&self, c: &ConstOperand<'tcx>, parent: &str) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("k", J::s("const")), ("ty", J::s(cty(tcx, t)))];
        match t.kind() {
            ty::FnDef(d, a) => {
                o.push(("fn", self.callee(*d, a.no_bound_vars().unwrap_or(tcx.mk_args(&[])))));
                return J::O(o);
            }
            ty::Closure(d, _) => {
                o.push(("closure", J::s(crate_key(tcx, *d))));
                return J::O(o);
            }
            _ => {}
        }
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                o.push(("promoted", J::s(format!("{}::promoted[{}]", parent, p.as_usize()))));
                return J::O(o);
            }
            o.push(("item", J::s(pretty(tcx, uv.def))));
            o.push((
                "isubsts",
                J::A(uv
                    .args
                    .iter()
                    .filter_map(|a| match a.kind() {
                        ty::GenericArgKind::Type(t) => Some(J::s(cty(tcx, t))),
                        _ => None,
                    })
                    .collect()),
            ));
        }
        if let Const::Ty(_, ct) = c.const_ {
            o.push(("tyconst", J::s(with_no_trimmed_paths!(ct.to_string()))));
        }
        if !c.const_.has_param() && !t.has_param() {
            if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                self.const_value(&mut o, v, t);
            }
        }
        J::O(o)
    }

    fn const_value(&self, o: &mut Vec<(&'static str, J)>, v: ConstValue, t: Ty<'tcx>) {
        let tcx = self.tcx;
        let inner = t.peel_refs();
        if let Some(si) = v.try_to_scalar_int() {
            let bits = si.to_bits(si.size());
            match t.kind() {
                ty::Bool => o.push(("bool", J::B(bits != 0))),
                ty::Int(_) => o.push(("int", J::I(si.to_int(si.size())))),
                ty::Uint(_) => o.push(("int", J::I(bits as i128))),
                ty::Char => o.push(("char", J::s(
                    char::from_u32(bits as u32).map(|c| c.to_string()).unwrap_or_default(),
                ))),
                ty::Float(_) => o.push(("float", J::s(format!("{}", bits)))),
                _ => o.push(("bits", J::I(bits as i128))),
            }
            return;
        }
        if inner.is_str() || matches!(inner.kind(), ty::Slice(_)) {
            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                self.push_bytes(o, b);
                return;
            }
        }
        if let ty::Array(et, n) = inner.kind() {
            if et.is_integral() {
                if let (ConstValue::Scalar(interpret::Scalar::Ptr(p, _)), Some(n)) =
                    (v, n.try_to_target_usize(tcx))
                {
                    let (prov, off) = p.prov_and_relative_offset();
                    let al = tcx.global_alloc(prov.alloc_id());
                    if let interpret::GlobalAlloc::Memory(m) = al {
                        let s = off.bytes() as usize;
                        let l = n as usize;
                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(s..s + l);
                        self.push_bytes(o, b);
                        return;
                    }
                }
            }
        }
        if let ConstValue::ZeroSized = v {
            o.push(("zst", J::B(true)));
        }
        // destructure ADT/tuple constants (unit-like variants, Some(const), ...)
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) && !t.has_param() {
            let d = tcx.try_destructure_mir_constant_for_user_output(v, t);
            if let Some(d) = d {
                if let (ty::Adt(adt, _), Some(vi)) = (t.kind(), d.variant) {
                    o.push(("adt", J::s(crate_key(tcx, adt.did()))));
                    if adt.is_enum() {
                        o.push(("variant", J::s(adt.variant(vi).name.to_string())));
                    }
                }
                let fs = d
                    .fields
                    .iter()
                    .map(|(fv, ft)| {
                        let mut fo = vec![("k", J::s("const")), ("ty", J::s(cty(tcx, *ft)))];
                        self.const_value(&mut fo, *fv, *ft);
                        J::O(fo)
                    })
                    .collect();
                o.push(("fields", J::A(fs)));
            }
        }
    }

    fn push_bytes(&self, o: &mut Vec<(&'static str, J)>, b: &[u8]) {
        match std::str::from_utf8(b) {
            Ok(s) => o.push(("str", J::s(s.to_string()))),
            Err(_) => {
                o.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
            }
        }
    }

    fn operand(&self, body: &Body<'tcx>, op: &Operand<'tcx>, parent: &str) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", J::s("copy")), ("p", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("k", J::s("move")), ("p", self.place(body, p))]),
            Operand::Constant(c) => self.constant(c, parent),
            Operand::RuntimeChecks(_) => J::O(vec![("k", J::s("rtcheck"))]),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, rv: &Rvalue<'tcx>, parent: &str) -> J {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(op, _) => J::O(vec![("r", J::s("use")), ("o", self.operand(body, op, parent))]),
            Rvalue::Repeat(op, n) => J::O(vec![
                ("r", J::s("repeat")),
                ("o", self.operand(body, op, parent)),
                ("n", J::s(format!("{}", n))),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("r", J::s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(body, p)),
            ]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![
                ("r", J::s("ref")),
                ("mut", J::B(m.is_mut())),
                ("p", self.place(body, p)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![
                ("r", J::s("ref")),
                ("mut", J::B(true)),
                ("raw", J::B(true)),
                ("p", self.place(body, p)),
            ]),
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("r", J::s("use")),
                ("o", J::O(vec![("k", J::s("copy")), ("p", self.place(body, p))])),
            ]),
            Rvalue::ThreadLocalRef(d) => J::O(vec![
                ("r", J::s("tls")),
                ("id", J::s(pretty(tcx, *d))),
            ]),
            Rvalue::Cast(k, op, t) => J::O(vec![
                ("r", J::s("cast")),
                ("kind", J::s(format!("{:?}", k))),
                ("ty", J::s(cty(tcx, *t))),
                ("o", self.operand(body, op, parent)),
            ]),
            Rvalue::BinaryOp(b, ab) => J::O(vec![
                ("r", J::s("bin")),
                ("op", J::s(format!("{:?}", b))),
                ("a", self.operand(body, &ab.0, parent)),
                ("b", self.operand(body, &ab.1, parent)),
            ]),
            Rvalue::UnaryOp(u, op) => J::O(vec![
                ("r", J::s("un")),
                ("op", J::s(format!("{:?}", u))),
                ("o", self.operand(body, op, parent)),
            ]),
            Rvalue::Discriminant(p) => {
                let pt = p.ty(body, tcx).ty;
                let mut vars = Vec::new();
                if let ty::Adt(d, _) = pt.kind() {
                    if d.is_enum() {
                        for (vi, dis) in d.discriminants(tcx) {
                            vars.push(J::A(vec![
                                J::I(dis.val as i128),
                                J::s(d.variant(vi).name.to_string()),
                            ]));
                        }
                    }
                }
                J::O(vec![
                    ("r", J::s("discr")),
                    ("p", self.place(body, p)),
                    ("vars", J::A(vars)),
                    ("ty", J::s(cty(tcx, pt))),
                ])
            }
            Rvalue::Aggregate(k, fs) => {
                let mut o = vec![("r", J::s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("ak", J::s("array"))),
                    AggregateKind::Tuple => o.push(("ak", J::s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, af) => {
                        let ad = tcx.adt_def(*d);
                        o.push(("ak", J::s("adt")));
                        o.push(("adt", J::s(crate_key(tcx, *d))));
                        let v = ad.variant(*vi);
                        if ad.is_enum() {
                            o.push(("variant", J::s(v.name.to_string())));
                        }
                        let names: Vec<J> = match af {
                            Some(f) => vec![J::s(v.fields[*f].name.to_string())],
                            None => v.fields.iter().map(|f| J::s(f.name.to_string())).collect(),
                        };
                        o.push(("fields", J::A(names)));
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        o.push(("ak", J::s("closure")));
                        o.push(("def", J::s(crate_key(tcx, *d))));
                        o.push(("fields", self.upvar_names(*d)));
                    }
                    AggregateKind::Coroutine(d, _) => {
                        o.push(("ak", J::s("coroutine")));
                        o.push(("def", J::s(crate_key(tcx, *d))));
                        o.push(("fields", self.upvar_names(*d)));
                    }
                    AggregateKind::RawPtr(..) => o.push(("ak", J::s("rawptr"))),
                }
                o.push(("ops", J::A(fs.iter().map(|f| self.operand(body, f, parent)).collect())));
                J::O(o)
            }
            Rvalue::WrapUnsafeBinder(op, _) => {
                J::O(vec![("r", J::s("use")), ("o", self.operand(body, op, parent))])
            }
        }
    }

    fn upvar_names(&self, d: DefId) -> J {
        J::A(self
            .tcx
            .closure_saved_names_of_captured_variables(d)
            .iter()
            .map(|s| J::s(s.to_string()))
            .collect())
    }

    fn body(&self, key: &str, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut names: Vec<String> = vec![String::new(); body.local_decls.len()];
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vdi.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = vdi.name.to_string();
                }
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                J::A(vec![
                    J::s(cty(tcx, d.ty)),
                    J::s(names[l.as_usize()].clone()),
                    J::B(d.mutability.is_mut()),
                ])
            })
            .collect();
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        st.push(J::O(vec![
                            ("s", J::s("=")),
                            ("p", self.place(body, &b.0)),
                            ("rv", self.rvalue(body, &b.1, key)),
                            ("sp", self.span(s.source_info.span)),
                        ]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::O(vec![
                        ("s", J::s("dead")),
                        ("l", J::I(l.as_usize() as i128)),
                    ])),
                    StatementKind::StorageLive(l) => st.push(J::O(vec![
                        ("s", J::s("live")),
                        ("l", J::I(l.as_usize() as i128)),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::O(vec![
                            ("s", J::s("setd")),
                            ("p", self.place(body, place)),
                            ("v", J::I(variant_index.as_usize() as i128)),
                        ]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bbid = |b: BasicBlock| J::I(b.as_usize() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::O(vec![("t", J::s("goto")), ("to", bbid(*target))])
                }
                TerminatorKind::SwitchInt { discr, targets } => J::O(vec![
                    ("t", J::s("switch")),
                    ("o", self.operand(body, discr, key)),
                    (
                        "ts",
                        J::A(targets
                            .iter()
                            .map(|(v, b)| J::A(vec![J::I(v as i128), bbid(b)]))
                            .collect()),
                    ),
                    ("else", bbid(targets.otherwise())),
                    ("ty", J::s(cty(tcx, discr.ty(body, tcx)))),
                    ("sp", sp),
                ]),
                TerminatorKind::Return => J::O(vec![("t", J::s("return")), ("sp", sp)]),
                TerminatorKind::Unreachable => J::O(vec![("t", J::s("unreachable"))]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::O(vec![("t", J::s("resume"))])
                }
                TerminatorKind::Drop { place, target, .. } => J::O(vec![
                    ("t", J::s("drop")),
                    ("p", self.place(body, place)),
                    ("ty", J::s(cty(tcx, place.ty(body, tcx).ty))),
                    ("to", bbid(*target)),
                    ("sp", sp),
                ]),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    J::O(vec![
                        ("t", J::s("call")),
                        ("f", self.operand(body, func, key)),
                        (
                            "args",
                            J::A(args.iter().map(|a| self.operand(body, &a.node, key)).collect()),
                        ),
                        (
                            "atys",
                            J::A(args.iter().map(|a| J::s(cty(tcx, a.node.ty(body, tcx)))).collect()),
                        ),
                        ("dest", self.place(body, destination)),
                        ("dty", J::s(cty(tcx, destination.ty(body, tcx).ty))),
                        ("to", target.map(bbid).unwrap_or(J::N)),
                        ("sp", sp),
                        ("fsp", self.span(*fn_span)),
                    ])
                }
                TerminatorKind::TailCall { .. } => J::O(vec![("t", J::s("tailcall"))]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.operand(body, len, key), self.operand(body, index, key)],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow:{:?}", op),
                            vec![self.operand(body, a, key), self.operand(body, b, key)],
                        ),
                        AssertKind::OverflowNeg(a) => {
                            ("overflow:Neg".into(), vec![self.operand(body, a, key)])
                        }
                        AssertKind::DivisionByZero(a) => {
                            ("div0".into(), vec![self.operand(body, a, key)])
                        }
                        AssertKind::RemainderByZero(a) => {
                            ("rem0".into(), vec![self.operand(body, a, key)])
                        }
                        _ => ("other".into(), vec![]),
                    };
                    J::O(vec![
                        ("t", J::s("assert")),
                        ("cond", self.operand(body, cond, key)),
                        ("exp", J::B(*expected)),
                        ("kind", J::s(mk)),
                        ("ops", J::A(ops)),
                        ("to", bbid(*target)),
                        ("sp", sp),
                    ])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => J::O(vec![
                    ("t", J::s("yield")),
                    ("o", self.operand(body, value, key)),
                    ("to", bbid(*resume)),
                    ("arg", self.place(body, resume_arg)),
                    ("sp", sp),
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::O(vec![("t", J::s("goto")), ("to", bbid(*real_target))])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::O(vec![("t", J::s("goto")), ("to", bbid(*real_target))])
                }
                TerminatorKind::CoroutineDrop => J::O(vec![("t", J::s("codrop"))]),
                TerminatorKind::InlineAsm { .. } => J::O(vec![("t", J::s("asm"))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("c", J::B(bb.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("args", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            ("ret", J::s(cty(tcx, body.local_decls[RETURN_PLACE].ty))),
        ])
    }
}

fn kind_of(t: Ty<'_>) -> &'static str {
    match t.kind() {
        ty::Ref(_, _, m) => {
            if m.is_mut() {
                "mut"
            } else {
                "ref"
            }
        }
        ty::RawPtr(..) => "raw",
        ty::Adt(d, _) if d.is_box() => "box",
        _ => "other",
    }
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        for def in tcx.hir_body_owners() {
            if tcx.is_trivial_const(def) {
                continue;
            }
            let kind = tcx.def_kind(def);
            if !matches!(
                kind,
                DefKind::Fn
                    | DefKind::AssocFn
                    | DefKind::Closure
                    | DefKind::SyntheticCoroutineBody
                    | DefKind::Static { .. }
                    | DefKind::Const { .. }
                    | DefKind::AssocConst { .. }
            ) {
                continue;
            }
            let (b, p) = tcx.mir_promoted(def);
            if b.is_stolen() {
                continue;
            }
            let body: Body<'tcx> = b.borrow().clone();
            let prom: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
            // lifetime erased: the bodies are only used while this tcx is alive
            let body: Body<'static> = unsafe { std::mem::transmute(body) };
            let prom: Vec<Body<'static>> = unsafe { std::mem::transmute(prom) };
            self.bodies.push((def, body, prom));
        }
        Compilation::Continue
    }

    fn after_analysis<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let krate = std::env::var("CARGO_PKG_NAME").unwrap_or_default();
        let ctype = format!("{:?}", tcx.crate_types());
        let mut fns = Vec::new();
        let bodies = std::mem::take(&mut self.bodies);
        for (def, body, prom) in &bodies {
            let did = def.to_def_id();
            let body: &Body<'tcx> = unsafe { std::mem::transmute(body) };
            let prom: &Vec<Body<'tcx>> = unsafe { std::mem::transmute(prom) };
            let d = Dump { tcx, did, env: ty::TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(did)) };
            let key = crate_key(tcx, did);
            let mut o = vec![
                ("id", J::s(key.clone())),
                ("path", J::s(pretty(tcx, did))),
                ("kind", J::s(format!("{:?}", tcx.def_kind(did)))),
                ("span", d.span(tcx.def_span(did))),
            ];
            if let Some(n) = tcx.opt_item_name(did) {
                o.push(("name", J::s(n.to_string())));
            }
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                let mut gs = Vec::new();
                for i in 0..tcx.generics_of(did).count() {
                    let p = tcx.generics_of(did).param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gs.push(J::s(p.name.to_string()));
                    }
                }
                o.push(("generics", J::A(gs)));
                o.push(("vis", J::s(format!("{:?}", tcx.visibility(did)))));
                if let Some(im) = tcx.impl_of_assoc(did) {
                    o.push(("impl_self", J::s(cty(tcx, tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        o.push(("impl_trait", J::s(with_no_trimmed_paths!(tr.instantiate_identity().skip_norm_wip().to_string()))));
                        o.push(("trait", J::s(pretty(tcx, tr.skip_binder().def_id))));
                    }
                } else if let Some(tr) = tcx.trait_of_assoc(did) {
                    o.push(("trait_default", J::s(pretty(tcx, tr))));
                }
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("abi", J::s(format!("{:?}", sig.abi()))));
            }
            if tcx.is_typeck_child(did) {
                o.push(("parent", J::s(crate_key(tcx, tcx.parent(did)))));
                o.push(("upvars", d.upvar_names(did)));
                o.push(("ctys", J::A(match tcx.type_of(did).instantiate_identity().skip_norm_wip().kind() {
                    ty::Closure(_, a) => a.as_closure().upvar_tys().iter().map(|t| J::s(cty(tcx, t))).collect(),
                    ty::Coroutine(_, a) => a.as_coroutine().upvar_tys().iter().map(|t| J::s(cty(tcx, t))).collect(),
                    _ => vec![],
                })));
                o.push(("coroutine", J::B(tcx.is_coroutine(did))));
            }
            let J::O(mut b) = d.body(&key, body) else { unreachable!() };
            o.append(&mut b);
            fns.push(J::O(o));
            for (i, pb) in prom.iter().enumerate() {
                let pk = format!("{}::promoted[{}]", key, i);
                let J::O(mut b) = d.body(&pk, pb) else { unreachable!() };
                let mut o = vec![("id", J::s(pk.clone())), ("path", J::s(pk)), ("kind", J::s("Promoted"))];
                o.append(&mut b);
                fns.push(J::O(o));
            }
        }
        let mut adts = Vec::new();
        let mut impls = Vec::new();
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(did);
                    let vs = ad
                        .variants()
                        .iter()
                        .map(|v| {
                            J::O(vec![
                                ("name", J::s(v.name.to_string())),
                                (
                                    "fields",
                                    J::A(v
                                        .fields
                                        .iter()
                                        .map(|f| {
                                            J::A(vec![
                                                J::s(f.name.to_string()),
                                                J::s(cty(tcx, tcx
                                                    .type_of(f.did)
                                                    .instantiate_identity().skip_norm_wip())),
                                                J::s(format!("{:?}", f.vis)),
                                            ])
                                        })
                                        .collect()),
                                ),
                            ])
                        })
                        .collect();
                    adts.push(J::O(vec![
                        ("path", J::s(crate_key(tcx, did))),
                        ("kind", J::s(format!("{:?}", tcx.def_kind(did)))),
                        ("repr_c", J::B(ad.repr().c())),
                        ("variants", J::A(vs)),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let mut o = vec![(
                        "self",
                        J::s(cty(tcx, tcx.type_of(did).instantiate_identity().skip_norm_wip())),
                    )];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::s(pretty(tcx, tr.def_id))));
                        o.push(("trait_ref", J::s(with_no_trimmed_paths!(tr.to_string()))));
                        o.push((
                            "unsafe",
                            J::B(tcx.impl_trait_header(did).safety.is_unsafe()),
                        ));
                        o.push(("negative", J::B(matches!(tcx.impl_polarity(did), ty::ImplPolarity::Negative))));
                    }
                    let d = Dump { tcx, did, env: ty::TypingEnv::post_analysis(tcx, did) };
                    let mut items = Vec::new();
                    for it in tcx.associated_items(did).in_definition_order() {
                        let mut io = vec![
                            ("name", J::s(it.opt_name().map(|n| n.to_string()).unwrap_or_default())),
                            ("id", J::s(crate_key(tcx, it.def_id))),
                        ];
                        match it.kind {
                            ty::AssocKind::Type { .. } => {
                                io.push(("type", J::s(cty(tcx, tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip()))));
                            }
                            ty::AssocKind::Const { .. } => {
                                let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                                io.push(("ctype", J::s(cty(tcx, t))));
                                if !t.has_param() {
                                    if let Ok(v) = tcx.const_eval_poly(it.def_id) {
                                        let mut co = vec![];
                                        d.const_value(&mut co, v, t);
                                        io.push(("value", J::O(co)));
                                    }
                                }
                            }
                            ty::AssocKind::Fn { .. } => io.push(("fn", J::B(true))),
                        }
                        items.push(J::O(io));
                    }
                    o.push(("items", J::A(items)));
                    o.push(("span", d.span(tcx.def_span(did))));
                    impls.push(J::O(o));
                }
                _ => {}
            }
        }
        let root = J::O(vec![
            ("crate", J::s(krate.clone())),
            ("types", J::s(ctype.clone())),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
        ]);
        let mut s = String::new();
        root.write(&mut s);
        let kind = if ctype.contains("Executable") { "bin" } else { "lib" };
        let mut path = String::new();
        let _ = write!(path, "{}/{}.{}.json", self.out, krate, kind);
        let tmp = format!("{}.tmp{}", path, std::process::id());
        std::fs::write(&tmp, s).expect("write facts");
        std::fs::rename(&tmp, &path).expect("rename facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let plain = out.is_empty()
        || name.is_empty()
        || name == "build_script_build"
        || name == "___";
    struct Nop;
    impl Callbacks for Nop {}
    if plain {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    } else {
        let mut cb = Cb { bodies: Vec::new(), out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    }
}
