//! rustc driver that dumps the type-checked MIR of one crate as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER by /verif/bin: argv = [self, rustc, args...].
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt};
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- dump
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyout: Vec<J>,
    adts: HashMap<DefId, usize>,
    adtout: Vec<J>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn key(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>, id: DefId) -> usize {
        if let Some(i) = self.adts.get(&id) {
            return *i;
        }
        let i = self.adtout.len();
        self.adts.insert(id, i);
        self.adtout.push(J::N);
        let mut vs = vec![];
        for (vi, v) in d.variants().iter_enumerated() {
            let discr = if d.is_enum() { d.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let ft = if id.is_local() {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    J::I(self.ty(t) as i128)
                } else {
                    J::N
                };
                fs.push(J::A(vec![s(f.name.to_string()), ft]));
            }
            vs.push(J::O(vec![
                ("name", s(v.name.to_string())),
                ("discr", J::I(discr)),
                ("fields", J::A(fs)),
            ]));
        }
        let kind = if d.is_enum() {
            "enum"
        } else if d.is_union() {
            "union"
        } else {
            "struct"
        };
        self.adtout[i] = J::O(vec![
            ("path", s(self.path(id))),
            ("local", J::B(id.is_local())),
            ("kind", s(kind)),
            ("box", J::B(d.is_box())),
            ("variants", J::A(vs)),
        ]);
        i
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(J::I(self.ty(t) as i128)),
                GenericArgKind::Const(c) => v.push(s(format!("{:?}", c))),
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tyout.len();
        self.tys.insert(t, i);
        self.tyout.push(J::N);
        let j = match t.kind() {
            TyKind::Bool => J::O(vec![("k", s("bool"))]),
            TyKind::Char => J::O(vec![("k", s("char"))]),
            TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) => {
                J::O(vec![("k", s("num")), ("name", s(t.to_string()))])
            }
            TyKind::Str => J::O(vec![("k", s("str"))]),
            TyKind::Never => J::O(vec![("k", s("never"))]),
            TyKind::Adt(d, a) => {
                let ai = self.adt(*d, d.did());
                let aj = self.args(a);
                J::O(vec![
                    ("k", s("adt")),
                    ("adt", J::I(ai as i128)),
                    ("path", s(self.path(d.did()))),
                    ("args", aj),
                ])
            }
            TyKind::Ref(_, inner, m) => {
                let x = self.ty(*inner);
                J::O(vec![
                    ("k", s("ref")),
                    ("mut", J::B(m.is_mut())),
                    ("to", J::I(x as i128)),
                ])
            }
            TyKind::RawPtr(inner, m) => {
                let x = self.ty(*inner);
                J::O(vec![
                    ("k", s("ptr")),
                    ("mut", J::B(m.is_mut())),
                    ("to", J::I(x as i128)),
                ])
            }
            TyKind::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|x| J::I(self.ty(x) as i128)).collect();
                J::O(vec![("k", s("tuple")), ("args", J::A(v))])
            }
            TyKind::Slice(e) => {
                let x = self.ty(*e);
                J::O(vec![("k", s("slice")), ("to", J::I(x as i128))])
            }
            TyKind::Array(e, n) => {
                let x = self.ty(*e);
                let len = n.try_to_target_usize(self.tcx).map(|v| v as i128).unwrap_or(-1);
                J::O(vec![
                    ("k", s("array")),
                    ("to", J::I(x as i128)),
                    ("len", J::I(len)),
                ])
            }
            TyKind::Closure(d, _) => J::O(vec![("k", s("closure")), ("body", s(self.key(*d)))]),
            TyKind::Coroutine(d, _) => J::O(vec![("k", s("coroutine")), ("body", s(self.key(*d)))]),
            TyKind::FnDef(d, a) => {
                let aj = self.args(a.skip_binder());
                J::O(vec![
                    ("k", s("fndef")),
                    ("path", s(self.path(*d))),
                    ("key", s(self.key(*d))),
                    ("args", aj),
                ])
            }
            TyKind::Param(p) => J::O(vec![("k", s("param")), ("name", s(p.name.to_string()))]),
            _ => J::O(vec![("k", s("other"))]),
        };
        if let J::O(mut v) = j {
            v.push(("s", s(with_no_trimmed_paths!(t.to_string()))));
            self.tyout[i] = J::O(v);
        }
        i
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!(
            "{}:{}",
            lo.file.name.prefer_local_unconditionally(),
            lo.line
        ))
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, _) => {
                    let mut name = J::N;
                    match pty.ty.kind() {
                        TyKind::Adt(d, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            if (vi.as_usize()) < d.variants().len() {
                                let vr = d.variant(vi);
                                if f.as_usize() < vr.fields.len() {
                                    name = s(vr.fields[f].name.to_string());
                                }
                            }
                        }
                        _ => {}
                    }
                    J::A(vec![s("f"), J::I(f.as_usize() as i128), name])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, vi) => J::A(vec![
                    s("v"),
                    J::I(vi.as_usize() as i128),
                    n.map(|x| s(x.to_string())).unwrap_or(J::N),
                ]),
                _ => J::A(vec![s("o")]),
            };
            v.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(v)])
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut v = vec![("ty", J::I(ti as i128))];
        if let TyKind::FnDef(d, a) = t.kind() {
            v.push(("fn", self.key(*d).into_j()));
            let _ = a;
            return J::O(v);
        }
        if let Some(d) = c.check_static_ptr(self.tcx) {
            let st = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
            v.push(("static", s(self.key(d))));
            v.push(("smut", J::B(self.tcx.is_mutable_static(d))));
            let te = TypingEnv::fully_monomorphized();
            v.push(("sfreeze", J::B(st.is_freeze(self.tcx, te))));
            v.push(("sty", s(with_no_trimmed_paths!(st.to_string()))));
            return J::O(v);
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                v.push(("uneval", s(self.key(u.def))));
                v.push(("upath", s(self.path(u.def))));
                if let Some(p) = u.promoted {
                    v.push(("promoted", J::I(p.as_usize() as i128)));
                } else {
                    // evaluate simple constants
                    let te = TypingEnv::fully_monomorphized();
                    if let Ok(val) = c.const_.eval(self.tcx, te, c.span) {
                        self.cval(val, t, &mut v);
                    }
                }
            }
            Const::Val(val, _) => self.cval(val, t, &mut v),
            Const::Ty(_, ct) => {
                if let Some(x) = ct.try_to_target_usize(self.tcx) {
                    v.push(("int", J::I(x as i128)));
                } else {
                    v.push(("other", s(format!("{:?}", ct))));
                }
            }
        }
        J::O(v)
    }
    fn cval(&mut self, val: ConstValue, t: Ty<'tcx>, v: &mut Vec<(&'static str, J)>) {
        match val {
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits_unchecked();
                let x = if t.is_signed() {
                    let sz = i.size();
                    sz.sign_extend(bits)
                } else {
                    bits as i128
                };
                v.push(("int", J::I(x)));
            }
            ConstValue::ZeroSized => v.push(("zst", J::B(true))),
            _ => {
                if let Some(b) = self.bytes(val, t) {
                    match std::str::from_utf8(&b) {
                        Ok(x) if matches!(t.kind(), TyKind::Ref(_, i, _) if i.is_str()) => {
                            v.push(("str", s(x)))
                        }
                        _ => v.push((
                            "bytes",
                            J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
                        )),
                    }
                } else {
                    v.push(("other", s(format!("{:?}", val))));
                }
            }
        }
    }
    fn bytes(&self, val: ConstValue, t: Ty<'tcx>) -> Option<Vec<u8>> {
        if let TyKind::Ref(_, inner, _) = t.kind() {
            match inner.kind() {
                TyKind::Str => {
                    return val
                        .try_get_slice_bytes_for_diagnostics(self.tcx)
                        .map(|x| x.to_vec())
                }
                TyKind::Slice(e) if *e == self.tcx.types.u8 => {
                    return val
                        .try_get_slice_bytes_for_diagnostics(self.tcx)
                        .map(|x| x.to_vec())
                }
                TyKind::Array(e, n) if *e == self.tcx.types.u8 => {
                    // &[u8; N]: scalar pointer
                    if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = val {
                        let len = n.try_to_target_usize(self.tcx)? as usize;
                        let (prov, off) = p.prov_and_relative_offset();
                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) =
                            self.tcx.global_alloc(prov.alloc_id())
                        {
                            let o = off.bytes() as usize;
                            return Some(
                                a.inner()
                                    .inspect_with_uninit_and_ptr_outside_interpreter(o..o + len)
                                    .to_vec(),
                            );
                        }
                    }
                    return None;
                }
                _ => return None,
            }
        }
        None
    }

    fn op(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(b, p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(b, p)]),
            Operand::Constant(c) => J::A(vec![s("c"), self.konst(c)]),
            _ => J::A(vec![s("rt")]),
        }
    }

    fn rval(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(b, o)]),
            Rvalue::Repeat(o, n) => J::A(vec![
                s("repeat"),
                self.op(b, o),
                n.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::N),
            ]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                s(match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                    #[allow(unreachable_patterns)]
                    _ => "other",
                }),
                self.place(b, p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), s("raw"), self.place(b, p)]),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let si = self.ty(o.ty(&b.local_decls, self.tcx));
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.op(b, o), J::I(ti as i128), J::I(si as i128)])
            }
            Rvalue::BinaryOp(op, ab) => J::A(vec![
                s("bin"),
                s(format!("{:?}", op)),
                self.op(b, &ab.0),
                self.op(b, &ab.1),
                J::I(self.ty(ab.0.ty(&b.local_decls, self.tcx)) as i128),
            ]),
            Rvalue::UnaryOp(op, a) => {
                let ti = self.ty(a.ty(&b.local_decls, self.tcx));
                J::A(vec![s("un"), s(format!("{:?}", op)), self.op(b, a), J::I(ti as i128)])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(b, p), {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                J::I(self.ty(t) as i128)
            }]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(b, o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let ai = self.adt(def, *d);
                        let aj = self.args(args);
                        J::A(vec![
                            s("adt"),
                            J::I(ai as i128),
                            J::I(vi.as_usize() as i128),
                            active.map(|x| J::I(x.as_usize() as i128)).unwrap_or(J::N),
                            aj,
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.key(*d))]),
                    AggregateKind::Coroutine(d, _) => J::A(vec![s("coroutine"), s(self.key(*d))]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("cp"), self.place(b, p)])])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.key(*d))]),
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, id: LocalDefId, key: String, b: &Body<'tcx>, kind: &str) -> J {
        let te = TypingEnv::post_analysis(self.tcx, id.to_def_id());
        let mut locals = vec![];
        for d in b.local_decls.iter() {
            locals.push(J::I(self.ty(d.ty) as i128));
        }
        let mut names = vec![];
        for vdi in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = vdi.value {
                let pj = self.place(b, &p);
                names.push(J::A(vec![s(vdi.name.to_string()), pj]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for stmt in bb.statements.iter() {
                match &stmt.kind {
                    StatementKind::Assign(pr) => {
                        let sp = self.span(stmt.source_info.span);
                        st.push(J::A(vec![
                            s("="),
                            self.place(b, &pr.0),
                            self.rval(b, &pr.1),
                            sp,
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![
                            s("setd"),
                            self.place(b, place),
                            J::I(variant_index.as_usize() as i128),
                        ]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::A(vec![s("goto"), J::I(target.as_usize() as i128)])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tv: Vec<J> = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![J::I(v as i128), J::I(t.as_usize() as i128)]))
                        .collect();
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let ti = self.ty(dt);
                    J::A(vec![
                        s("switch"),
                        self.op(b, discr),
                        J::A(tv),
                        J::I(targets.otherwise().as_usize() as i128),
                        J::I(ti as i128),
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
                TerminatorKind::CoroutineDrop => J::A(vec![s("codrop")]),
                TerminatorKind::Drop { target, place, .. } => {
                    let ty = place.ty(&b.local_decls, self.tcx).ty;
                    let ti = self.ty(ty);
                    J::A(vec![
                        s("drop"),
                        J::I(target.as_usize() as i128),
                        self.place(b, place),
                        J::I(ti as i128),
                    ])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let av: Vec<J> = args.iter().map(|a| self.op(b, &a.node)).collect();
                    let mut callee = vec![];
                    let ft = func.ty(&b.local_decls, self.tcx);
                    if let TyKind::FnDef(d, ga) = ft.kind() {
                        let ga = ga.skip_binder();
                        callee.push(("path", s(self.path(*d))));
                        callee.push(("key", s(self.key(*d))));
                        callee.push(("targs", self.args(ga)));
                        let tr = self.tcx.trait_of_assoc(*d);
                        if let Some(tr) = tr {
                            callee.push(("trait", s(self.path(tr))));
                        }
                        let ga2 = self.tcx.erase_and_anonymize_regions(ga);
                        if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, te, *d, ga2) {
                            let rd = inst.def_id();
                            callee.push(("rpath", s(self.path(rd))));
                            callee.push(("rkey", s(self.key(rd))));
                            callee.push(("rlocal", J::B(rd.is_local())));
                            callee.push(("rargs", self.args(inst.args)));
                        }
                    } else {
                        callee.push(("indirect", self.op(b, func)));
                    }
                    if let Some(a) = args.first() {
                        let t0 = self.ty(a.node.ty(&b.local_decls, self.tcx));
                        callee.push(("a0", J::I(t0 as i128)));
                    }
                    let dj = self.place(b, destination);
                    J::A(vec![
                        s("call"),
                        J::O(callee),
                        J::A(av),
                        dj,
                        target.map(|t| J::I(t.as_usize() as i128)).unwrap_or(J::N),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.op(b, len), self.op(b, index)])
                        }
                        AssertKind::Overflow(op, x, y) => (
                            format!("overflow:{:?}", op),
                            vec![self.op(b, x), self.op(b, y)],
                        ),
                        AssertKind::OverflowNeg(x) => ("overflowneg".into(), vec![self.op(b, x)]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.op(b, x)]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.op(b, x)]),
                        _ => ("other".into(), vec![]),
                    };
                    J::A(vec![
                        s("assert"),
                        self.op(b, cond),
                        J::B(*expected),
                        s(mk),
                        J::A(ops),
                        J::I(target.as_usize() as i128),
                    ])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let ra = self.place(b, resume_arg);
                    J::A(vec![
                        s("yield"),
                        self.op(b, value),
                        J::I(resume.as_usize() as i128),
                        ra,
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), J::I(real_target.as_usize() as i128)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), J::I(real_target.as_usize() as i128)])
                }
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", sp),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        let did = id.to_def_id();
        let parent = self.tcx.opt_parent(did).map(|p| s(self.key(p))).unwrap_or(J::N);
        let mut implof = J::N;
        let mut traitof = J::N;
        if matches!(self.tcx.def_kind(did), DefKind::AssocFn) {
            if let Some(im) = self.tcx.impl_of_assoc(did) {
                let t = self.tcx.type_of(im).instantiate_identity().skip_norm_wip();
                implof = J::I(self.ty(t) as i128);
                if let Some(tr) = self.tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    traitof = s(with_no_trimmed_paths!(tr.print_only_trait_path().to_string()));
                }
            }
        }
        let vis = match self.tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => J::B(self.tcx.visibility(did).is_public()),
            _ => J::B(false),
        };
        J::O(vec![
            ("key", s(key)),
            ("path", s(self.path(did))),
            ("kind", s(kind)),
            ("name", self.tcx.opt_item_name(did).map(|n| s(n.to_string())).unwrap_or(J::N)),
            ("parent", parent),
            ("impl", implof),
            ("trait", traitof),
            ("pub", vis),
            ("derived", J::B(b.span.from_expansion())),
            ("span", self.span(b.span)),
            ("args", J::I(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }
}

trait IntoJ {
    fn into_j(self) -> J;
}
impl IntoJ for String {
    fn into_j(self) -> J {
        J::S(self)
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, tys: HashMap::new(), tyout: vec![], adts: HashMap::new(), adtout: vec![] };
        let mut bodies = vec![];
        let ids: Vec<LocalDefId> = tcx.mir_keys(()).iter().cloned().collect();
        // dumping a body may evaluate constants, which consumes bodies: copy all of them first
        let mut copies = vec![];
        for id in ids {
            let kind = match tcx.def_kind(id) {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "fn",
                DefKind::Closure => {
                    if tcx.is_coroutine(id.to_def_id()) {
                        "coroutine"
                    } else {
                        "closure"
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => "const",
                DefKind::Ctor(..) => "ctor",
                _ => "other",
            };
            if kind == "ctor" || kind == "other" {
                continue;
            }
            let (b, p) = tcx.mir_promoted(id);
            let (b, p) = if b.is_stolen() || p.is_stolen() {
                let m = if kind == "const" { tcx.mir_for_ctfe(id) } else { tcx.optimized_mir(id) };
                (m.clone(), tcx.promoted_mir(id).clone())
            } else {
                (b.borrow().clone(), p.borrow().clone())
            };
            copies.push((id, kind, b, p));
        }
        for (id, kind, b, p) in copies.iter() {
            let key = cx.key(id.to_def_id());
            let j = cx.body(*id, key.clone(), b, kind);
            bodies.push(j);
            for (pi, pb) in p.iter_enumerated() {
                let j = cx.body(*id, format!("{}#promoted{}", key, pi.as_usize()), pb, "promoted");
                bodies.push(j);
            }
        }
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let root = J::O(vec![
            ("crate", s(krate.clone())),
            ("bodies", J::A(bodies)),
            ("types", J::A(cx.tyout.clone())),
            ("adts", J::A(cx.adtout.clone())),
        ]);
        let mut o = String::new();
        root.w(&mut o);
        let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t).contains("Executable"));
        let f = format!("{}/{}-{}.json", self.out, if is_bin { "bin" } else { "lib" }, krate);
        std::fs::write(&f, o).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv[1] is the real rustc path when used as a wrapper
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let dumping = !out.is_empty()
        && args.iter().any(|a| a == "--crate-name")
        && !args.iter().any(|a| a == "build_script_build");
    struct Plain;
    impl Callbacks for Plain {}
    if dumping {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
