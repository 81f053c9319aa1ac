//! mirdump: a rustc driver that type-checks a crate exactly as `cargo check` would and writes the
//! MIR (phase "promoted", i.e. before the coroutine transform and before drop elaboration), the
//! resolved callees, the types and the trait-impl table of the crate as one JSON file.
//! It is injected with RUSTC_WORKSPACE_WRAPPER; the output directory is $MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_data_structures;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, Body};
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(String),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => o.push_str(n),
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl std::fmt::Display) -> J {
    J::N(x.to_string())
}

type Stash = BTreeMap<u32, (Body<'static>, Vec<Body<'static>>)>;
thread_local! {
    static STASH: RefCell<Stash> = const { RefCell::new(BTreeMap::new()) };
    static DEFAULT: RefCell<Option<for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> (
        &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
        &'tcx rustc_data_structures::steal::Steal<rustc_index_vec<'tcx>>)>> = const { RefCell::new(None) };
}
#[allow(non_camel_case_types)]
type rustc_index_vec<'tcx> = rustc_abi_index<'tcx>;
#[allow(non_camel_case_types)]
type rustc_abi_index<'tcx> = rustc_index::IndexVec<mir::Promoted, Body<'tcx>>;
extern crate rustc_index;

fn my_mir_promoted<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index_vec<'tcx>>,
) {
    let f = DEFAULT.with(|d| d.borrow().unwrap());
    let r = f(tcx, def);
    let body: Body<'tcx> = r.0.borrow().clone();
    let proms: Vec<Body<'tcx>> = r.1.borrow().iter().cloned().collect();
    // SAFETY: the stash is emptied in after_analysis, while tcx is still alive.
    let body: Body<'static> = unsafe { std::mem::transmute(body) };
    let proms: Vec<Body<'static>> = unsafe { std::mem::transmute(proms) };
    STASH.with(|st| st.borrow_mut().insert(def.local_def_index.as_u32(), (body, proms)));
    r
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    seen_adts: HashMap<DefId, ()>,
    cur_tys: Vec<Ty<'tcx>>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        use rustc_middle::ty::print::*;
        with_resolve_crate_name!(with_no_trimmed_paths!(with_no_visible_paths!(self.tcx.def_path_str(d))))
    }
    /// Unique key of a definition: crate name and the raw def path.
    fn key(&self, d: DefId) -> String {
        let dp = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(d.krate), dp.to_string_no_crate_verbose())
    }
    fn loc(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::A(a.iter().map(|x| self.arg(x)).collect())
    }
    fn arg(&mut self, x: ty::GenericArg<'tcx>) -> J {
        match x.kind() {
            ty::GenericArgKind::Type(t) => n(self.ty(t)),
            ty::GenericArgKind::Const(c) => s(self.cst(c)),
            ty::GenericArgKind::Lifetime(_) => s("'"),
        }
    }
    fn cst(&mut self, c: ty::Const<'tcx>) -> String {
        if let Some(v) = c.try_to_leaf() {
            return format!("{}", v.to_bits_unchecked());
        }
        match c.kind() {
            ty::ConstKind::Param(p) => format!("#{}:{}", p.index, p.name),
            _ => format!("?{c}"),
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let j = match t.kind() {
            ty::Bool => J::A(vec![s("p"), s("bool")]),
            ty::Char => J::A(vec![s("p"), s("char")]),
            ty::Int(x) => J::A(vec![s("p"), s(x.name_str())]),
            ty::Uint(x) => J::A(vec![s("p"), s(x.name_str())]),
            ty::Float(x) => J::A(vec![s("p"), s(x.name_str())]),
            ty::Str => J::A(vec![s("p"), s("str")]),
            ty::Never => J::A(vec![s("p"), s("!")]),
            ty::Adt(d, a) => {
                self.adt(d.did());
                let p = self.key(d.did());
                let a = self.args(a);
                J::A(vec![s("adt"), s(p), a])
            }
            ty::Array(e, l) => {
                let l = self.cst(*l);
                J::A(vec![s("arr"), n(self.ty(*e)), s(l)])
            }
            ty::Slice(e) => J::A(vec![s("slice"), n(self.ty(*e))]),
            ty::Ref(_, e, m) => J::A(vec![s("ref"), n(self.ty(*e)), J::B(m.is_mut())]),
            ty::RawPtr(e, m) => J::A(vec![s("ptr"), n(self.ty(*e)), J::B(m.is_mut())]),
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let p = self.key(*d);
                let a = self.args(a);
                J::A(vec![s("fn"), s(p), a])
            }
            ty::Closure(d, a) => {
                let p = self.key(*d);
                let c = a.as_closure();
                let up: Vec<J> = c.upvar_tys().iter().map(|t| n(self.ty(t))).collect();
                let pa = self.tcx.mk_args(c.parent_args());
                let pa = self.args(pa);
                J::A(vec![s("clo"), s(p), pa, J::A(up)])
            }
            ty::Coroutine(d, a) => {
                let p = self.key(*d);
                let c = a.as_coroutine();
                let up: Vec<J> = c.upvar_tys().iter().map(|t| n(self.ty(t))).collect();
                let pa = self.tcx.mk_args(c.parent_args());
                let pa = self.args(pa);
                J::A(vec![s("cor"), s(p), pa, J::A(up)])
            }
            ty::CoroutineClosure(d, _) => J::A(vec![s("cclo"), s(self.key(*d))]),
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| n(self.ty(t))).collect();
                J::A(vec![s("tup"), J::A(v)])
            }
            ty::Param(p) => J::A(vec![s("param"), n(p.index), s(p.name.as_str())]),
            ty::Alias(_, al) => match al.kind {
                ty::AliasTyKind::Projection { def_id } => {
                    let d: DefId = def_id.into();
                    let k = self.key(d);
                    let tr = self.key(self.tcx.parent(d));
                    let a = self.args(al.args);
                    let nm = self.tcx.item_name(d).to_string();
                    J::A(vec![s("proj"), s(k), a, s(tr), s(nm)])
                }
                ty::AliasTyKind::Opaque { def_id } => {
                    let d: DefId = def_id.into();
                    let k = self.key(d);
                    let a = self.args(al.args);
                    J::A(vec![s("opq"), s(k), a])
                }
                _ => J::A(vec![s("?"), s(format!("{t}"))]),
            },
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.key(d)).unwrap_or_default();
                J::A(vec![s("dyn"), s(p)])
            }
            ty::FnPtr(..) => J::A(vec![s("fnptr"), s(format!("{t}"))]),
            _ => J::A(vec![s("?"), s(format!("{t}"))]),
        };
        let i = self.types.len();
        self.types.push(j);
        self.tmap.insert(t, i);
        i
    }
    fn adt(&mut self, d: DefId) {
        if self.seen_adts.insert(d, ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let key = self.key(d);
        let mut vs = vec![];
        for v in def.variants() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                // only expand local ADT fields; external ones only by name
                let t = if d.is_local() { n(self.ty(ft)) } else { J::Null };
                fs.push(J::A(vec![s(f.name.as_str()), t, J::B(f.vis.is_public())]));
            }
            vs.push(J::O(vec![("name", s(v.name.as_str())), ("fields", J::A(fs))]));
        }
        let repr = def.repr();
        let o = J::O(vec![
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("path", s(self.path(d))),
            ("local", J::B(d.is_local())),
            ("transparent", J::B(repr.transparent())),
            ("repr_c", J::B(repr.c())),
            ("variants", J::A(vs)),
            ("loc", if d.is_local() { self.loc(tcx.def_span(d)) } else { J::Null }),
        ]);
        self.adts.insert(key, o);
    }
    fn place(&mut self, p: mir::Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_u32())];
        let mut pt = self.cur_tys.get(p.local.as_usize()).map(|t| mir::PlaceTy::from_ty(*t));
        for e in p.projection.iter() {
            let base = pt;
            pt = pt.map(|b| b.projection_ty(self.tcx, e));
            v.push(match e {
                mir::ProjectionElem::Deref => s("*"),
                mir::ProjectionElem::Field(f, t) => {
                    let nm = base.and_then(|b| match b.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = b.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            Some(d.variant(vi).fields[f].name.to_string())
                        }
                        _ => None,
                    });
                    J::A(vec![s("f"), n(f.as_u32()), n(self.ty(t)), nm.map(s).unwrap_or(J::Null)])
                }
                mir::ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_u32())]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), n(offset), n(min_length), J::B(from_end)])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from), n(to), J::B(from_end)])
                }
                mir::ProjectionElem::Downcast(nm, i) => {
                    J::A(vec![s("d"), n(i.as_u32()), nm.map(|x| s(x.as_str())).unwrap_or(J::Null)])
                }
                _ => J::A(vec![s("o")]),
            });
        }
        J::A(v)
    }
    fn fnref(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("k", s(self.key(d))), ("p", s(self.path(d)))];
        o.push(("a", self.args(a)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("tr", s(self.key(tr))));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let t = tcx.type_of(im).instantiate(tcx, a).skip_norm_wip();
            o.push(("self", n(self.ty(t))));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let par = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(par) {
                DefKind::Variant => {
                    let e = tcx.parent(par);
                    (e, tcx.adt_def(e).variant_index_with_id(par).as_u32())
                }
                _ => (par, 0),
            };
            self.adt(adt);
            o.push(("ctor", J::A(vec![s(self.key(adt)), n(vi)])));
        }
        J::O(o)
    }
    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, owner: DefId) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, a) = t.kind() {
            let d = *d;
            let a = a.skip_binder();
            return J::A(vec![s("fn"), self.fnref(d, a)]);
        }
        let tenv = ty::TypingEnv::post_analysis(tcx, owner);
        let scalar = |cx: &mut Self, c: mir::Const<'tcx>| -> Option<J> {
            if !(t.is_integral() || t.is_bool() || t.is_char()) {
                return None;
            }
            let si = c.try_eval_scalar_int(tcx, tenv)?;
            let _ = cx;
            let bits = si.to_bits_unchecked();
            if t.is_signed() {
                let sz = si.size().bits() as u32;
                let v = if sz < 128 && bits >> (sz - 1) != 0 { (bits as i128) - (1i128 << sz) } else { bits as i128 };
                Some(n(v))
            } else {
                Some(n(bits))
            }
        };
        match c.const_ {
            mir::Const::Ty(_, ct) => {
                if let ty::ConstKind::Param(p) = ct.kind() {
                    return J::A(vec![s("cparam"), n(p.index), s(p.name.as_str()), n(tid)]);
                }
                if let Some(v) = scalar(self, c.const_) {
                    return J::A(vec![s("int"), v, n(tid)]);
                }
                J::A(vec![s("c?"), s(format!("{}", c.const_)), n(tid)])
            }
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let k = self.key(u.def);
                    let a = self.args(u.args);
                    return J::A(vec![s("prom"), s(k), n(p.as_u32()), a, n(tid)]);
                }
                let val = if let Some(v) = scalar(self, c.const_) { v } else { J::Null };
                let f = self.fnref(u.def, u.args);
                J::A(vec![s("const"), f, val, n(tid)])
            }
            mir::Const::Val(v, _) => {
                if let Some(v) = scalar(self, c.const_) {
                    return J::A(vec![s("int"), v, n(tid)]);
                }
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return J::A(vec![s("str"), s(String::from_utf8_lossy(b).to_string())]);
                        }
                    }
                }
                if matches!(v, mir::ConstValue::ZeroSized) {
                    return J::A(vec![s("zst"), n(tid)]);
                }
                J::A(vec![s("c?"), s(format!("{}", c.const_)), n(tid)])
            }
        }
    }
    fn operand(&mut self, o: &mir::Operand<'tcx>, owner: DefId) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![s("cp"), self.place(*p)]),
            mir::Operand::Move(p) => J::A(vec![s("mv"), self.place(*p)]),
            mir::Operand::Constant(c) => self.constant(c, owner),
            _ => J::A(vec![s("rt")]),
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, ow: DefId) -> J {
        match r {
            mir::Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o, ow)]),
            mir::Rvalue::Repeat(o, c) => {
                let o = self.operand(o, ow);
                let c = self.cst(*c);
                J::A(vec![s("rep"), o, s(c)])
            }
            mir::Rvalue::Ref(_, k, p) => {
                let m = matches!(k, mir::BorrowKind::Mut { .. });
                J::A(vec![s("ref"), self.place(*p), J::B(m)])
            }
            mir::Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(*p), J::B(true)]),
            mir::Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, ow);
                let k = format!("{k:?}");
                J::A(vec![s("cast"), s(k), o, n(self.ty(*t))])
            }
            mir::Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(&ab.0, ow);
                let b = self.operand(&ab.1, ow);
                J::A(vec![s("bin"), s(format!("{op:?}")), a, b])
            }
            mir::Rvalue::UnaryOp(op, a) => {
                let a = self.operand(a, ow);
                J::A(vec![s("un"), s(format!("{op:?}")), a])
            }
            mir::Rvalue::Discriminant(p) => J::A(vec![s("disc"), self.place(*p)]),
            mir::Rvalue::Aggregate(k, fs) => {
                let kk = match &**k {
                    mir::AggregateKind::Array(_) => J::A(vec![s("arr")]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tup")]),
                    mir::AggregateKind::Adt(d, v, a, _, f) => {
                        self.adt(*d);
                        let p = self.key(*d);
                        let a = self.args(a);
                        J::A(vec![s("adt"), s(p), n(v.as_u32()), a, f.map(|f| n(f.as_u32())).unwrap_or(J::Null)])
                    }
                    mir::AggregateKind::Closure(d, a) => {
                        let p = self.key(*d);
                        let pa = self.tcx.mk_args(a.as_closure().parent_args());
                        let pa = self.args(pa);
                        J::A(vec![s("clo"), s(p), pa])
                    }
                    mir::AggregateKind::Coroutine(d, a) => {
                        let p = self.key(*d);
                        let pa = self.tcx.mk_args(a.as_coroutine().parent_args());
                        let pa = self.args(pa);
                        J::A(vec![s("cor"), s(p), pa])
                    }
                    mir::AggregateKind::CoroutineClosure(d, _) => J::A(vec![s("cclo"), s(self.key(*d))]),
                    mir::AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                let fs = fs.iter().map(|f| self.operand(f, ow)).collect();
                J::A(vec![s("agg"), kk, J::A(fs)])
            }
            mir::Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(*p)])]),
            mir::Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.key(*d))]),
            _ => J::A(vec![s("?r"), s(format!("{r:?}"))]),
        }
    }
    fn body(&mut self, body: &Body<'tcx>, ow: DefId) -> J {
        self.cur_tys = body.local_decls.iter().map(|l| l.ty).collect();
        let tys: Vec<J> = body.local_decls.iter().map(|l| n(self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.as_str()), self.place(p)]));
            }
        }
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    mir::StatementKind::Assign(pr) => {
                        let p = self.place(pr.0);
                        let r = self.rvalue(&pr.1, ow);
                        let l = self.loc(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, l]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(**place);
                        st.push(J::A(vec![s("setd"), p, n(variant_index.as_u32())]));
                    }
                    mir::StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_u32())])),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let l = self.loc(term.source_info.span);
            let t = match &term.kind {
                mir::TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_u32())]),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, ow);
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    let v = targets.iter().map(|(v, b)| J::A(vec![n(v), n(b.as_u32())])).collect();
                    J::A(vec![s("switch"), d, J::A(v), n(targets.otherwise().as_u32()), n(dt)])
                }
                mir::TerminatorKind::Return => J::A(vec![s("ret")]),
                mir::TerminatorKind::Drop { place, target, .. } => {
                    J::A(vec![s("drop"), self.place(*place), n(target.as_u32())])
                }
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, ow);
                    let a = args.iter().map(|x| self.operand(&x.node, ow)).collect();
                    let d = self.place(*destination);
                    J::A(vec![s("call"), f, J::A(a), d, target.map(|b| n(b.as_u32())).unwrap_or(J::Null)])
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, ow);
                    let kind = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        mir::AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        m => format!("{m:?}").split('(').next().unwrap_or("").to_string(),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), s(kind), n(target.as_u32())])
                }
                mir::TerminatorKind::Yield { resume, resume_arg, .. } => {
                    J::A(vec![s("yield"), n(resume.as_u32()), self.place(*resume_arg)])
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_u32())]),
                mir::TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_u32())]),
                mir::TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                mir::TerminatorKind::UnwindResume
                | mir::TerminatorKind::UnwindTerminate(_)
                | mir::TerminatorKind::CoroutineDrop => J::A(vec![s("unwind")]),
                k => J::A(vec![s("?t"), s(format!("{k:?}"))]),
            };
            bbs.push(J::A(vec![J::A(st), t, l, J::B(bb.is_cleanup)]));
        }
        J::O(vec![
            ("argc", n(body.arg_count)),
            ("tys", J::A(tys)),
            ("names", J::A(names)),
            ("bbs", J::A(bbs)),
        ])
    }
    fn generics(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let g = tcx.generics_of(d);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            v.push(s(format!(
                "{}{}",
                match p.kind {
                    ty::GenericParamDefKind::Lifetime => "'",
                    ty::GenericParamDefKind::Type { .. } => "",
                    ty::GenericParamDefKind::Const { .. } => "#",
                },
                p.name
            )));
        }
        J::A(v)
    }
}

fn dump(tcx: TyCtxt<'_>) {
    let Ok(out) = std::env::var("MIRDUMP_OUT") else { return };
    let st = STASH.with(|s| std::mem::take(&mut *s.borrow_mut()));
    // SAFETY: same tcx that produced the bodies.
    let st: BTreeMap<u32, (Body<'_>, Vec<Body<'_>>)> = unsafe { std::mem::transmute(st) };
    let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), adts: BTreeMap::new(), seen_adts: HashMap::new(), cur_tys: vec![] };
    let mut fns = vec![];
    for (idx, (body, proms)) in &st {
        let ld = LocalDefId { local_def_index: rustc_hir::def_id::DefIndex::from_u32(*idx) };
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let mut o = vec![
            ("key", s(cx.key(d))),
            ("path", s(cx.path(d))),
            ("kind", s(format!("{kind:?}"))),
            ("loc", cx.loc(tcx.def_span(d))),
            ("gen", cx.generics(d)),
        ];
        if let Some(par) = tcx.opt_parent(d) {
            o.push(("parent", s(cx.key(par))));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
            o.push(("async", J::B(tcx.asyncness(d).is_async())));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("self", n(cx.ty(t))));
            o.push(("impl", s(cx.key(im))));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                o.push(("trait", s(cx.key(tr.skip_binder().def_id))));
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("intrait", s(cx.key(tr))));
        }
        // is it inside a cfg(test) module? (the checks drop those by build mode; kept for information)
        o.push(("body", cx.body(body, d)));
        let pr = proms.iter().map(|b| cx.body(b, d)).collect();
        o.push(("proms", J::A(pr)));
        fns.push(J::O(o));
    }
    // trait impls
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Impl { of_trait } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut o = vec![("key", s(cx.key(d))), ("self", n(cx.ty(t))), ("gen", cx.generics(d)), ("loc", cx.loc(tcx.def_span(d)))];
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).skip_binder();
                    o.push(("trait", s(cx.key(tr.def_id))));
                    o.push(("targs", cx.args(tr.args)));
                }
                let mut it = vec![];
                for a in tcx.associated_items(d).in_definition_order() {
                    let v = if a.is_type() {
                        let at = tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip();
                        J::A(vec![s("ty"), n(cx.ty(at))])
                    } else {
                        J::A(vec![s("it"), s(cx.key(a.def_id))])
                    };
                    it.push((a.name().to_string(), v));
                }
                o.push(("items", J::M(it)));
                impls.push(J::O(o));
            }
            DefKind::Trait => {
                let mut it = vec![];
                for a in tcx.associated_items(d).in_definition_order() {
                    it.push((a.name().to_string(), J::A(vec![s(cx.key(a.def_id)), J::B(a.defaultness(tcx).has_value())])));
                }
                impls.push(J::O(vec![("key", s(cx.key(d))), ("istrait", J::B(true)), ("items", J::M(it)), ("gen", cx.generics(d))]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(d),
            _ => {}
        }
    }
    let adts = std::mem::take(&mut cx.adts);
    let j = J::O(vec![
        ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
        ("types", J::A(std::mem::take(&mut cx.types))),
        ("adts", J::M(adts.into_iter().collect())),
        ("impls", J::A(impls)),
        ("fns", J::A(fns)),
    ]);
    let mut o = String::new();
    j.w(&mut o);
    let f = format!("{out}/{}.json", tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE));
    std::fs::write(&f, o).expect("cannot write the dump");
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| {
            let d = p.queries.mir_promoted;
            DEFAULT.with(|x| *x.borrow_mut() = Some(d));
            p.queries.mir_promoted = my_mir_promoted;
        });
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        dump(tcx);
        rustc_driver::Compilation::Continue
    }
}
struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let skip = name.starts_with("build_script") || name == "___" || std::env::var("MIRDUMP_OUT").is_err();
    rustc_driver::catch_with_exit_code(|| {
        if skip {
            rustc_driver::compiler_entrypoint(&args, &mut Nop);
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Cb);
        }
    })
}
