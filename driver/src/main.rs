// MIR dumper: a rustc wrapper (RUSTC_WORKSPACE_WRAPPER) that writes the type-checked MIR
// (phase: mir_promoted, i.e. before drop elaboration) of the crate under analysis as JSON.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON writing
struct J {
    s: String,
}
fn esc(x: &str) -> String {
    let mut o = String::with_capacity(x.len() + 2);
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn obj(v: Vec<(&str, String)>) -> String {
    format!(
        "{{{}}}",
        v.into_iter()
            .map(|(k, v)| format!("{}:{}", esc(k), v))
            .collect::<Vec<_>>()
            .join(",")
    )
}

// ---------------------------------------------------------------- dumping
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    te: TypingEnv<'tcx>,
    owner: DefId,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_visible_paths!(
        rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d))
    )
}

impl<'tcx> Cx<'tcx> {
    fn ty(&self, t: Ty<'tcx>) -> String {
        esc(&self.tys(t))
    }
    fn tys(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_no_queries!(format!("{}", t))
            )
        )
    }
    fn closure_of(&self, t: Ty<'tcx>) -> Option<String> {
        match t.peel_refs().kind() {
            ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                Some(path(self.tcx, *d))
            }
            _ => None,
        }
    }
    fn loc(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}", l.line)
    }
    fn file(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_remapped_unconditionally());
        f
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, fty) => {
                    let mut name = format!("{}", f.index());
                    match pt.ty.kind() {
                        ty::Adt(ad, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if ad.is_enum() || ad.is_struct() || ad.is_union() {
                                name = ad.variant(vi).fields[f].name.to_string();
                            }
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            if let Some(l) = d.as_local() {
                                let names = self.tcx.closure_saved_names_of_captured_variables(*d);
                                if f.index() < names.len() {
                                    name = format!("^{}", names[f]);
                                }
                            }
                        }
                        _ => {}
                    }
                    obj(vec![("f", esc(&name)), ("i", format!("{}", f.index())), ("t", self.ty(fty))])
                }
                ProjectionElem::Index(l) => obj(vec![("x", format!("{}", l.index()))]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => obj(vec![
                    ("ci", format!("{}", offset)),
                    ("fe", format!("{}", from_end)),
                    ("ml", format!("{}", min_length)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => obj(vec![
                    ("ss", format!("[{},{}]", from, to)),
                    ("fe", format!("{}", from_end)),
                ]),
                ProjectionElem::Downcast(sym, vi) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(ad, _) => ad.variant(vi).name.to_string(),
                        _ => format!("{}", vi.index()),
                    };
                    obj(vec![("v", esc(&n)), ("vi", format!("{}", vi.index()))])
                }
                _ => "\"?\"".to_string(),
            };
            v.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        obj(vec![
            ("l", format!("{}", p.local.index())),
            ("p", arr(v)),
            ("t", self.ty(pt.ty)),
        ])
    }
    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: Option<u64>) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let total = a.len() as u64;
                let end = match len {
                    Some(l) => off + l,
                    None => total,
                };
                if end > total {
                    return None;
                }
                Some(
                    a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize)
                        .to_vec(),
                )
            }
            _ => None,
        }
    }
    fn constant(&self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let mut f = vec![("k", esc("const")), ("t", self.ty(t))];
        if let ty::FnDef(d, args) = t.kind() {
            f.push(("fn", self.fnref(*d, args.no_bound_vars().unwrap())));
            return obj(f);
        }
        if let Some(cl) = self.closure_of(t) {
            f.push(("closure", esc(&cl)));
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                f.push(("promoted", format!("{}", p.index())));
                return obj(f);
            }
            f.push(("cpath", esc(&path(self.tcx, u.def))));
        }
        match c.const_.eval(self.tcx, self.te, c.span) {
            Ok(v) => match v {
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let bits = i.to_bits_unchecked();
                    let val = match t.kind() {
                        ty::Int(_) => format!("{}", i.to_int(i.size())),
                        ty::Bool => format!("{}", bits != 0),
                        ty::Float(ty::FloatTy::F64) => {
                            esc(&format!("{:?}", f64::from_bits(bits as u64)))
                        }
                        ty::Float(ty::FloatTy::F32) => {
                            esc(&format!("{:?}", f32::from_bits(bits as u32)))
                        }
                        ty::Char => esc(&char::from_u32(bits as u32).unwrap_or('?').to_string()),
                        _ => format!("{}", bits),
                    };
                    f.push(("val", val));
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    let id = prov.alloc_id();
                    match self.tcx.try_get_global_alloc(id) {
                        Some(GlobalAlloc::Static(d)) => f.push(("static", esc(&path(self.tcx, d)))),
                        Some(GlobalAlloc::Function { instance }) => {
                            f.push(("fnptr", esc(&path(self.tcx, instance.def_id()))))
                        }
                        Some(GlobalAlloc::Memory(_)) => {
                            if let Some(b) = self.alloc_bytes(id, off.bytes(), None) {
                                f.push(("bytes", arr(b.iter().map(|x| format!("{}", x)).collect())));
                            }
                        }
                        _ => {}
                    }
                }
                ConstValue::Slice { alloc_id, meta } => {
                    if let Some(b) = self.alloc_bytes(alloc_id, 0, None) {
                        let b = &b[..(meta as usize).min(b.len())];
                        match t.peel_refs().kind() {
                            ty::Str => {
                                f.push(("str", esc(&String::from_utf8_lossy(b))));
                            }
                            _ => f.push(("bytes", arr(b.iter().map(|x| format!("{}", x)).collect()))),
                        }
                    }
                }
                ConstValue::ZeroSized => f.push(("zst", "true".into())),
                ConstValue::Indirect { alloc_id, offset } => {
                    if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), None) {
                        f.push(("ind", arr(b.iter().map(|x| format!("{}", x)).collect())));
                    }
                }
            },
            Err(_) => f.push(("err", "true".into())),
        }
        obj(f)
    }
    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut f = vec![("path", esc(&path(tcx, d)))];
        let mut resolved = None;
        let mut virt = false;
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.te, d, args) {
            match inst.def {
                ty::InstanceKind::Virtual(..) => virt = true,
                _ => {}
            }
            resolved = Some(inst.def_id());
        }
        if let Some(r) = resolved {
            f.push(("res", esc(&path(tcx, r))));
            f.push(("local", format!("{}", r.is_local())));
        }
        if virt {
            f.push(("virt", "true".into()));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            f.push(("trait", esc(&path(tcx, tr))));
        }
        let mut ga = vec![];
        let mut cl = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                ga.push(self.ty(t));
                if let Some(c) = self.closure_of(t) {
                    cl.push(esc(&c));
                }
                if let ty::FnDef(fd, fa) = t.kind() {
                    cl.push(esc(&path(tcx, *fd)));
                }
            } else {
                ga.push(esc("_"));
            }
        }
        f.push(("args", arr(ga)));
        if !cl.is_empty() {
            f.push(("closures", arr(cl)));
        }
        obj(f)
    }
    fn operand(&self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => obj(vec![("k", esc("copy")), ("pl", self.place(body, p))]),
            Operand::Move(p) => obj(vec![("k", esc("move")), ("pl", self.place(body, p))]),
            Operand::Constant(c) => self.constant(c),
            _ => obj(vec![("k", esc("rt"))]),
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => obj(vec![("k", esc("use")), ("o", self.operand(body, o))]),
            Rvalue::Repeat(o, n) => obj(vec![
                ("k", esc("repeat")),
                ("o", self.operand(body, o)),
                ("n", esc(&format!("{}", n))),
            ]),
            Rvalue::Ref(_, bk, p) => obj(vec![
                ("k", esc("ref")),
                ("m", esc(match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shared",
                    _ => "fake",
                })),
                ("pl", self.place(body, p)),
            ]),
            Rvalue::RawPtr(k, p) => obj(vec![("k", esc("raw")), ("pl", self.place(body, p))]),
            Rvalue::Cast(ck, o, t) => obj(vec![
                ("k", esc("cast")),
                ("ck", esc(&format!("{:?}", ck))),
                ("o", self.operand(body, o)),
                ("t", self.ty(*t)),
            ]),
            Rvalue::BinaryOp(op, b) => obj(vec![
                ("k", esc("bin")),
                ("op", esc(&format!("{:?}", op))),
                ("a", self.operand(body, &b.0)),
                ("b", self.operand(body, &b.1)),
            ]),
            Rvalue::UnaryOp(op, o) => obj(vec![
                ("k", esc("un")),
                ("op", esc(&format!("{:?}", op))),
                ("o", self.operand(body, o)),
            ]),
            Rvalue::Discriminant(p) => {
                let pt = p.ty(body, self.tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(ad, _) = pt.kind() {
                    if ad.is_enum() {
                        for (vi, d) in ad.discriminants(self.tcx) {
                            vs.push(arr(vec![
                                format!("{}", d.val),
                                esc(ad.variant(vi).name.as_str()),
                            ]));
                        }
                    }
                }
                obj(vec![("k", esc("discr")), ("pl", self.place(body, p)), ("vs", arr(vs))])
            }
            Rvalue::Aggregate(ak, fs) => {
                let ops = arr(fs.iter().map(|o| self.operand(body, o)).collect());
                let mut f = vec![("k", esc("agg")), ("fs", ops)];
                match &**ak {
                    AggregateKind::Array(t) => f.push(("ak", esc("array"))),
                    AggregateKind::Tuple => f.push(("ak", esc("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, af) => {
                        let ad = self.tcx.adt_def(*d);
                        f.push(("ak", esc("adt")));
                        f.push(("adt", esc(&path(self.tcx, *d))));
                        f.push(("enum", format!("{}", ad.is_enum())));
                        f.push(("v", esc(ad.variant(*vi).name.as_str())));
                        f.push((
                            "fn",
                            arr(ad.variant(*vi).fields.iter().map(|x| esc(x.name.as_str())).collect()),
                        ));
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        f.push(("ak", esc("closure")));
                        f.push(("def", esc(&path(self.tcx, *d))));
                        let names = self.tcx.closure_saved_names_of_captured_variables(*d);
                        f.push(("fn", arr(names.iter().map(|n| esc(&format!("^{}", n))).collect())));
                    }
                    AggregateKind::RawPtr(..) => f.push(("ak", esc("rawptr"))),
                }
                obj(f)
            }
            Rvalue::CopyForDeref(p) => obj(vec![
                ("k", esc("use")),
                ("o", obj(vec![("k", esc("copy")), ("pl", self.place(body, p))])),
            ]),
            _ => obj(vec![("k", esc("other")), ("d", esc(&format!("{:?}", r)))]),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => format!("{}", b.index()),
            _ => "null".into(),
        }
    }
    fn term(&self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let mut f: Vec<(&str, String)> = vec![
            ("line", self.loc(t.source_info.span)),
        ];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                f.push(("k", esc("goto")));
                f.push(("to", format!("{}", target.index())));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                f.push(("k", esc("switch")));
                f.push(("o", self.operand(body, discr)));
                f.push((
                    "ts",
                    arr(targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", v, b.index()))
                        .collect()),
                ));
                f.push(("else", format!("{}", targets.otherwise().index())));
            }
            TerminatorKind::Return => f.push(("k", esc("return"))),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                f.push(("k", esc("resume")))
            }
            TerminatorKind::Unreachable => f.push(("k", esc("unreachable"))),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                f.push(("k", esc("drop")));
                f.push(("pl", self.place(body, place)));
                f.push(("to", format!("{}", target.index())));
                f.push(("uw", self.unwind(unwind)));
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                f.push(("k", esc("call")));
                f.push(("fn", self.operand(body, func)));
                f.push(("args", arr(args.iter().map(|a| self.operand(body, &a.node)).collect())));
                f.push(("dst", self.place(body, destination)));
                f.push((
                    "to",
                    match target {
                        Some(b) => format!("{}", b.index()),
                        None => "null".into(),
                    },
                ));
                f.push(("uw", self.unwind(unwind)));
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                f.push(("k", esc("assert")));
                f.push(("o", self.operand(body, cond)));
                f.push(("exp", format!("{}", expected)));
                let (kind, ops): (String, Vec<String>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => (
                        "bounds".into(),
                        vec![self.operand(body, len), self.operand(body, index)],
                    ),
                    AssertKind::Overflow(op, a, b) => (
                        format!("overflow:{:?}", op),
                        vec![self.operand(body, a), self.operand(body, b)],
                    ),
                    AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(body, a)]),
                    AssertKind::DivisionByZero(a) => ("divzero".into(), vec![self.operand(body, a)]),
                    AssertKind::RemainderByZero(a) => ("remzero".into(), vec![self.operand(body, a)]),
                    _ => ("other".into(), vec![]),
                };
                f.push(("msg", esc(&kind)));
                f.push(("ops", arr(ops)));
                f.push(("to", format!("{}", target.index())));
                f.push(("uw", self.unwind(unwind)));
            }
            TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                f.push(("k", esc("yield")));
                f.push(("o", self.operand(body, value)));
                f.push(("to", format!("{}", resume.index())));
                f.push(("dst", self.place(body, resume_arg)));
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                f.push(("k", esc("goto")));
                f.push(("to", format!("{}", real_target.index())));
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                f.push(("k", esc("goto")));
                f.push(("to", format!("{}", real_target.index())));
            }
            _ => f.push(("k", esc("other"))),
        }
        obj(f)
    }
    fn body(&self, body: &Body<'tcx>) -> Vec<(&'static str, String)> {
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vdi.value {
                if p.projection.is_empty() {
                    names[p.local.index()] = Some(vdi.name.to_string());
                }
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let mut f = vec![("t", self.ty(d.ty))];
                if let Some(n) = &names[l.index()] {
                    f.push(("n", esc(n)));
                }
                if let Some(c) = self.closure_of(d.ty) {
                    f.push(("closure", esc(&c)));
                }
                obj(f)
            })
            .collect();
        let blocks = body
            .basic_blocks
            .iter()
            .map(|b| {
                let mut ss = vec![];
                for s in &b.statements {
                    match &s.kind {
                        StatementKind::Assign(bx) => {
                            let (p, r) = &**bx;
                            ss.push(obj(vec![
                                ("k", esc("=")),
                                ("pl", self.place(body, p)),
                                ("rv", self.rvalue(body, r)),
                                ("line", self.loc(s.source_info.span)),
                            ]));
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            ss.push(obj(vec![
                                ("k", esc("setdiscr")),
                                ("pl", self.place(body, place)),
                                ("vi", format!("{}", variant_index.index())),
                            ]));
                        }
                        StatementKind::StorageDead(l) => {
                            ss.push(obj(vec![("k", esc("dead")), ("l", format!("{}", l.index()))]));
                        }
                        _ => {}
                    }
                }
                obj(vec![
                    ("s", arr(ss)),
                    ("t", self.term(body, b.terminator())),
                    ("c", format!("{}", b.is_cleanup)),
                ])
            })
            .collect();
        vec![
            ("argc", format!("{}", body.arg_count)),
            ("locals", arr(locals)),
            ("blocks", arr(blocks)),
        ]
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut fns = vec![];
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|d| tcx.def_span(d.to_def_id()).lo());
    for ld in keys {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody => {}
            _ => continue,
        }
        let te = TypingEnv::post_analysis(tcx, d);
        let (b, promoted) = tcx.mir_promoted(ld);
        let body = b.borrow();
        let promoted = promoted.borrow();
        let cx = Cx { tcx, te, owner: d };
        let mut f = vec![
            ("path", esc(&path(tcx, d))),
            ("kind", esc(&format!("{:?}", kind))),
            ("file", esc(&cx.file(body.span))),
            ("line", cx.loc(body.span)),
            ("name", match tcx.opt_item_name(d) { Some(n) => esc(n.as_str()), None => "null".into() }),
        ];
        if let Some(pd) = tcx.opt_parent(d) {
            f.push(("parent", esc(&path(tcx, pd))));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            f.push(("pub", format!("{}", tcx.visibility(d).is_public())));
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            f.push(("self_ty", cx.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip())));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                f.push(("trait", esc(&path(tcx, tr.skip_binder().def_id))));
            }
        }
        f.push(("derived", format!("{}", body.span.from_expansion())));
        f.extend(cx.body(&body));
        f.push((
            "promoted",
            arr(promoted.iter().map(|p| obj(cx.body(p))).collect()),
        ));
        fns.push(obj(f));
    }
    // ADTs
    let mut adts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
            let cx = Cx { tcx, te: TypingEnv::post_analysis(tcx, d), owner: d };
            let ad = tcx.adt_def(d);
            let vs = ad
                .variants()
                .iter()
                .map(|v| {
                    obj(vec![
                        ("name", esc(v.name.as_str())),
                        (
                            "fields",
                            arr(v
                                .fields
                                .iter()
                                .map(|f| {
                                    arr(vec![
                                        esc(f.name.as_str()),
                                        cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                                        format!("{}", f.vis.is_public()),
                                    ])
                                })
                                .collect()),
                        ),
                    ])
                })
                .collect();
            adts.push(obj(vec![
                ("path", esc(&path(tcx, d))),
                ("enum", format!("{}", ad.is_enum())),
                ("variants", arr(vs)),
            ]));
        }
    }
    // trait impls
    let mut impls = vec![];
    for (tr, v) in tcx.all_local_trait_impls(()).iter() {
        for i in v {
            let cx = Cx { tcx, te: TypingEnv::post_analysis(tcx, i.to_def_id()), owner: i.to_def_id() };
            let its = tcx
                .associated_items(i.to_def_id())
                .in_definition_order()
                .map(|a| arr(vec![esc(a.name().as_str()), esc(&path(tcx, a.def_id))]))
                .collect();
            impls.push(obj(vec![
                ("trait", esc(&path(tcx, *tr))),
                ("self", cx.ty(tcx.type_of(*i).instantiate_identity().skip_norm_wip())),
                ("derived", format!("{}", tcx.is_automatically_derived(i.to_def_id()))),
                ("items", arr(its)),
            ]));
        }
    }
    let j = obj(vec![
        ("crate", esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
        ("fns", arr(fns)),
        ("adts", arr(adts)),
        ("impls", arr(impls)),
    ]);
    std::fs::write(out, j).expect("write MIR dump");
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // invoked as: driver <rustc> args...
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mut name = None;
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = Some(args[i + 1].clone());
        }
    }
    let is_bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    let out = match (std::env::var("VMIR_OUT_DIR"), name) {
        (Ok(dir), Some(n)) if n != "build_script_build" && n != "___" => {
            Some(format!("{}/{}{}.json", dir, n, if is_bin { "_bin" } else { "" }))
        }
        _ => None,
    };
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut cb)
    })
}
