// MIR extractor: runs inside `cargo +nightly check` (RUSTC_WORKSPACE_WRAPPER) and writes the
// type-checked, fully resolved, monomorphised MIR of the `derivre` library as JSON.
// It decides nothing; /verif/engine does.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    N(i128),
    S(String),
    B(bool),
    Null,
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N(v) => write!(o, "{}", v).unwrap(),
            J::B(v) => write!(o, "{}", v).unwrap(),
            J::Null => o.push_str("null"),
            J::S(v) => {
                o.push('"');
                for c in v.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    s(*k).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
    queue: VecDeque<(usize, usize)>,
    models: HashSet<String>,
    model_prefixes: Vec<String>,
    depth: usize,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = with_no_trimmed_paths!(tcx.def_path_str(d));
    if d.is_local() {
        return format!("crate::{}", p);
    }
    let cn = tcx.crate_name(d.krate);
    let cn = cn.as_str();
    if cn == "core" || cn == "alloc" {
        // re-exported through another crate: name it by its home
        let m = format!("::{}::", cn);
        if let Some(i) = p.find(&m) {
            if p[..i].chars().all(|c| c.is_alphanumeric() || c == '_') {
                return format!("std::{}", &p[i + m.len()..]);
            }
        }
        if let Some(r) = p.strip_prefix(&m[2..]) {
            return format!("std::{}", r);
        }
    }
    p
}

impl<'tcx> Cx<'tcx> {
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        t
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.ty_id(t))
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(J::Null);
        let tcx = self.tcx;
        let name = with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(name))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("bits", n(i.bit_width().unwrap_or(64) as usize)));
                o.push(("signed", J::B(true)));
            }
            ty::Uint(i) => {
                o.push(("k", s("int")));
                o.push(("bits", n(i.bit_width().unwrap_or(64) as usize)));
                o.push(("signed", J::B(false)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(*e);
                o.push(("e", e));
            }
            ty::Array(e, l) => {
                o.push(("k", s("array")));
                let e = self.ty(*e);
                o.push(("e", e));
                o.push(("len", match l.try_to_target_usize(tcx) {
                    Some(v) => J::N(v as i128),
                    None => J::Null,
                }));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("f", J::A(v)));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                let e = self.ty(*e);
                o.push(("e", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                let e = self.ty(*e);
                o.push(("e", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(path(tcx, def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("enum", J::B(def.is_enum())));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
                let mut vs = vec![];
                let discrs: Vec<u128> = if def.is_enum() {
                    def.discriminants(tcx).map(|(_, d)| d.val).collect()
                } else {
                    vec![0]
                };
                if !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let ft = f.ty(tcx, args);
                            let ft = tcx
                                .try_normalize_erasing_regions(self.env, ft)
                                .unwrap_or(tcx.types.unit);
                            let t = self.ty(ft);
                            fs.push(J::A(vec![
                                s(f.name.as_str()),
                                t,
                                J::B(f.vis.is_public()),
                            ]));
                        }
                        vs.push(J::O(vec![
                            ("name", s(v.name.as_str())),
                            ("discr", J::N(discrs.get(vi.as_usize()).copied().unwrap_or(0) as i128)),
                            ("fields", J::A(fs)),
                        ]));
                    }
                }
                o.push(("variants", J::A(vs)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(path(tcx, *d))));
                let cl = args.as_closure();
                let kind = cl.kind();
                o.push(("ckind", s(format!("{:?}", kind))));
                let ups: Vec<J> = cl.upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("ups", J::A(ups)));
                let inst = Instance::resolve_closure(tcx, *d, args, kind);
                let id = self.inst(inst);
                o.push(("call", n(id)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let c = self.callee(*d, args.no_bound_vars().unwrap());
                o.push(("callee", c));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        self.ty_out[id] = J::O(o);
        id
    }

    fn modelled(&self, p: &str) -> bool {
        self.models.contains(p) || self.model_prefixes.iter().any(|x| p.starts_with(x.as_str()))
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let id = self.inst_list.len();
        self.insts.insert(i, id);
        self.inst_list.push(i);
        let d = if i.def_id().is_local() { 0 } else { self.depth + 1 };
        self.queue.push_back((id, d));
        id
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let p = path(tcx, d);
        let mut o: Vec<(&'static str, J)> = vec![("p", s(p.clone()))];
        let targs: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("a", J::A(targs)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, tr))));
            let st = self.ty(args.type_at(0));
            o.push(("self", st));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let it = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            if let ty::Adt(ad, _) = it.kind() {
                o.push(("selfadt", s(path(tcx, ad.did()))));
            }
        }
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        if !sig.safety().is_safe() {
            o.push(("unsafe", J::B(true)));
        }
        if tcx.is_constructor(d) {
            let out = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().skip_binder().output();
            if let ty::Adt(ad, _) = out.kind() {
                let v = ad.variant_index_with_ctor_id(d).as_usize();
                let t = self.ty(out);
                o.push(("ctor", J::A(vec![t, n(v)])));
            }
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => {
                let rp = path(tcx, i.def_id());
                o.push(("rp", s(rp.clone())));
                let rargs: Vec<J> = i.args.types().map(|x| self.ty(x)).collect();
                o.push(("ra", J::A(rargs)));
                match i.def {
                    InstanceKind::Item(def) => {
                        if def.is_local() {
                            let id = self.inst(i);
                            o.push(("i", n(id)));
                            if let Some(im) = tcx.impl_of_assoc(def) {
                                if tcx.is_automatically_derived(im) {
                                    o.push(("derived", J::B(true)));
                                }
                            }
                        } else if !self.modelled(&p)
                            && !self.modelled(&rp)
                            && self.depth < 6
                            && tcx.is_mir_available(def)
                        {
                            let cn = tcx.crate_name(def.krate);
                            let cn = cn.as_str();
                            if cn == "core" || cn == "alloc" || cn == "std" {
                                if !rp.contains("fmt") && !rp.contains("panick") {
                                    let id = self.inst(i);
                                    o.push(("i", n(id)));
                                }
                            }
                        }
                    }
                    InstanceKind::Intrinsic(_) => o.push(("intrinsic", J::B(true))),
                    _ => o.push(("shim", s(format!("{:?}", i.def)))),
                }
            }
            _ => {}
        }
        J::O(o)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(J::A(match e {
                ProjectionElem::Deref => vec![s("d")],
                ProjectionElem::Field(f, _) => vec![s("f"), n(f.as_usize())],
                ProjectionElem::Index(l) => vec![s("i"), n(l.as_usize())],
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    vec![s("ci"), n(offset as usize), J::B(from_end)]
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    vec![s("sub"), n(from as usize), n(to as usize), J::B(from_end)]
                }
                ProjectionElem::Downcast(_, v) => vec![s("v"), n(v.as_usize())],
                _ => vec![s("o")],
            }));
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::A(vec![s("?")]);
        }
        match t.kind() {
            ty::FnDef(..) | ty::Closure(..) => {
                return J::A(vec![s("fn"), self.ty(t)]);
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(Scalar::Int(i)) = v.try_to_scalar() {
                    let bits = i.to_bits(i.size());
                    if let ty::Int(_) = t.kind() {
                        let val = i.to_int(i.size());
                        return J::A(vec![s("int"), J::N(val)]);
                    }
                    if bits > i128::MAX as u128 {
                        return J::A(vec![s("intbig"), s(format!("{}", bits))]);
                    }
                    return J::A(vec![s("int"), J::N(bits as i128)]);
                }
                if let ConstValue::Indirect { .. } = v {
                    // read through destructure of a one-tuple is not possible; use try_to_bits
                    if let Some(i) = v.try_to_scalar_int() {
                        let bits = i.to_bits(i.size());
                        return J::A(vec![s("int"), J::N(bits as i128)]);
                    }
                }
                return J::A(vec![s("?")]);
            }
            ty::Adt(def, _) if def.is_union() => return J::A(vec![s("?")]),
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<J> =
                        d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    let t = self.ty(t);
                    return J::A(vec![
                        s("agg"),
                        t,
                        match d.variant {
                            Some(v) => n(v.as_usize()),
                            None => J::Null,
                        },
                        J::A(fs),
                    ]);
                }
                return J::A(vec![s("?")]);
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => match inner.kind() {
                ty::Str => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::A(vec![
                            s("str"),
                            J::A(b.iter().map(|x| J::N(*x as i128)).collect()),
                        ]);
                    }
                    return J::A(vec![s("?")]);
                }
                ty::Slice(e) => {
                    if let ty::Uint(ty::UintTy::U8) = e.kind() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return J::A(vec![
                                s("bytes"),
                                J::A(b.iter().map(|x| J::N(*x as i128)).collect()),
                            ]);
                        }
                    }
                    // read as array of known length
                    if let ConstValue::Slice { alloc_id, meta } = v {
                        let arr = Ty::new_array(tcx, *e, meta);
                        let iv = ConstValue::Indirect {
                            alloc_id,
                            offset: rustc_abi::Size::ZERO,
                        };
                        let x = self.cval(iv, arr, depth + 1);
                        return J::A(vec![s("sliceref"), x]);
                    }
                    return J::A(vec![s("?")]);
                }
                _ => {
                    if let Some(Scalar::Ptr(p, _)) = v.try_to_scalar() {
                        let (prov, off) = p.into_raw_parts();
                        let aid = prov.alloc_id();
                        match tcx.global_alloc(aid) {
                            GlobalAlloc::Memory(_) => {
                                let iv = ConstValue::Indirect { alloc_id: aid, offset: off };
                                let x = self.cval_ind(iv, *inner, depth + 1);
                                return J::A(vec![s("ref"), x]);
                            }
                            GlobalAlloc::Static(d) => {
                                return J::A(vec![s("static"), s(path(tcx, d))]);
                            }
                            _ => return J::A(vec![s("?")]),
                        }
                    }
                    return J::A(vec![s("?")]);
                }
            },
            _ => J::A(vec![s("?")]),
        }
    }
    // read a value of type t from memory
    fn cval_ind(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.cval(v, t, depth),
            _ => {
                // wrap in a one-tuple so that destructuring reads it
                let tup = Ty::new_tup(tcx, &[t]);
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, tup) {
                    let (v, t) = d.fields[0];
                    return self.cval(v, t, depth + 1);
                }
                J::A(vec![s("?")])
            }
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let v = match c.const_.eval(self.tcx, self.env, c.span) {
                    Ok(v) => match v {
                        ConstValue::ZeroSized
                            if !matches!(
                                t.kind(),
                                ty::Adt(..) | ty::Tuple(_) | ty::FnDef(..) | ty::Closure(..) | ty::Array(..)
                            ) =>
                        {
                            J::A(vec![s("zst")])
                        }
                        v => self.cval(v, t, 0),
                    },
                    Err(_) => J::A(vec![s("?")]),
                };
                let t = self.ty(t);
                let mut named = J::Null;
                if let Const::Unevaluated(u, _) = c.const_ {
                    if u.promoted.is_none() {
                        named = s(path(self.tcx, u.def));
                    }
                }
                J::A(vec![s("k"), v, t, named])
            }
            Operand::RuntimeChecks(_) => J::A(vec![s("rc")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Repeat(o, c) => {
                let l = match c.try_to_target_usize(self.tcx) {
                    Some(v) => J::N(v as i128),
                    None => J::Null,
                };
                J::A(vec![s("repeat"), self.operand(o), l])
            }
            Rvalue::Ref(_, bk, p) => {
                J::A(vec![s("ref"), J::B(matches!(bk, BorrowKind::Mut { .. })), self.place(p)])
            }
            Rvalue::RawPtr(k, p) => J::A(vec![s("ref"), J::B(!matches!(k, RawPtrKind::Const)), self.place(p), s("raw")]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let src = o.ty(body, self.tcx);
                J::A(vec![
                    s("cast"),
                    s(format!("{:?}", k)),
                    self.operand(o),
                    self.ty(*t),
                    self.ty(src),
                ])
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(body, self.tcx);
                J::A(vec![
                    s("bin"),
                    s(format!("{:?}", op)),
                    self.operand(&b.0),
                    self.operand(&b.1),
                    self.ty(t),
                ])
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(body, self.tcx);
                J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(o), self.ty(t)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                J::A(vec![s("discr"), self.place(p), self.ty(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let a: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let t = self
                            .tcx
                            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
                            .unwrap_or(t);
                        J::A(vec![
                            s("adt"),
                            self.ty(t),
                            n(v.as_usize()),
                            match f {
                                Some(f) => n(f.as_usize()),
                                None => J::Null,
                            },
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        J::A(vec![s("closure"), self.ty(t)])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), k, J::A(a)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(path(self.tcx, *d))]),
            Rvalue::WrapUnsafeBinder(..) => J::A(vec![s("other")]),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        n(lo.line)
    }

    fn body(&mut self, id: usize) -> J {
        let inst = self.inst_list[id];
        let tcx = self.tcx;
        let did = inst.def_id();
        let raw = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, raw.clone()),
        );
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for stt in &bb.statements {
                match &stt.kind {
                    StatementKind::Assign(b) => {
                        let rv = self.rvalue(&b.1, &body);
                        st.push(J::A(vec![
                            s("="),
                            self.place(&b.0),
                            rv,
                            self.line(stt.source_info.span),
                        ]))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::A(vec![
                        s("sd"),
                        self.place(place),
                        n(variant_index.as_usize()),
                        self.line(stt.source_info.span),
                    ])),
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), n(l.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(_) = &**i {
                            st.push(J::A(vec![s("intr")]));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body, tcx);
                    let vs: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| {
                            J::A(vec![
                                if v > i128::MAX as u128 { s(format!("{}", v)) } else { J::N(v as i128) },
                                n(b.as_usize()),
                            ])
                        })
                        .collect();
                    J::A(vec![
                        s("switch"),
                        self.operand(discr),
                        J::A(vs),
                        n(targets.otherwise().as_usize()),
                        self.ty(dt),
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![s("resume")])
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let dty = place.ty(&body, tcx).ty;
                    J::A(vec![s("drop"), self.place(place), n(target.as_usize()), self.ty(dty)])
                }
                TerminatorKind::Call { func, args, destination, target, call_source, .. } => {
                    let ft = func.ty(&body, tcx);
                    let c = match ft.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.no_bound_vars().unwrap()),
                        _ => J::O(vec![("ptr", self.operand(func))]),
                    };
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let dty = destination.ty(&body, tcx).ty;
                    J::A(vec![
                        s("call"),
                        c,
                        J::A(a),
                        self.place(destination),
                        match target {
                            Some(t) => n(t.as_usize()),
                            None => J::Null,
                        },
                        self.ty(dty),
                        J::B(matches!(call_source, CallSource::OverloadedOperator)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => J::A(vec![
                    s("assert"),
                    self.operand(cond),
                    J::B(*expected),
                    n(target.as_usize()),
                    s(match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(_) => "overflow",
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "divzero",
                        _ => "other",
                    }),
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("ln", ln),
                ("cl", J::B(bb.is_cleanup)),
            ]));
        }
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let names: Vec<J> = body
            .var_debug_info
            .iter()
            .filter_map(|v| match v.value {
                VarDebugInfoContents::Place(p) if p.projection.is_empty() => {
                    Some(J::A(vec![s(v.name.as_str()), n(p.local.as_usize())]))
                }
                _ => None,
            })
            .collect();
        let targs: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
        let sm = tcx.sess.source_map();
        let lo = sm.lookup_char_pos(tcx.def_span(did).source_callsite().lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        let mut derived = false;
        let mut q = Some(did);
        while let Some(d) = q {
            if let Some(im) = tcx.impl_of_assoc(d) {
                if tcx.is_automatically_derived(im) {
                    derived = true;
                }
            }
            if !tcx.is_closure_like(d) {
                break;
            }
            q = tcx.opt_parent(d);
        }
        let mut o = vec![
            ("id", n(id)),
            ("path", s(path(tcx, did))),
            ("args", J::A(targs)),
            ("local", J::B(did.is_local())),
            ("file", s(file)),
            ("line", n(lo.line)),
            ("argc", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("spread", match body.spread_arg { Some(l) => n(l.as_usize()), None => J::Null }),
            ("blocks", J::A(blocks)),
            ("derived", J::B(derived)),
        ];
        if did.is_local() {
            if let Some(im) = tcx.impl_of_assoc(did) {
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("implof", s(path(tcx, tr.def_id))));
                    o.push((
                        "implself",
                        s(with_no_trimmed_paths!(format!("{}", tr.self_ty()))),
                    ));
                }
            }
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("unsafefn", J::B(!sig.safety().is_safe())));
                o.push(("pub", J::B(tcx.visibility(did).is_public())));
                o.push((
                    "reach",
                    J::B(tcx.effective_visibilities(()).is_reachable(did.expect_local())),
                ));
            }
        }
        J::O(o)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let out = match std::env::var("VERIF_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        if tcx.crate_name(LOCAL_CRATE).as_str() != "derivre"
            || tcx.crate_types().iter().any(|t| format!("{:?}", t).contains("Executable"))
        {
            return Compilation::Continue;
        }
        let mut models = HashSet::new();
        let mut pre = vec![];
        if let Ok(f) = std::env::var("VERIF_MODELS") {
            for l in std::fs::read_to_string(f).unwrap().lines() {
                let l = l.trim();
                if let Some(p) = l.strip_suffix('*') {
                    pre.push(p.to_string());
                } else if !l.is_empty() {
                    models.insert(l.to_string());
                }
            }
        }
        let mut cx = Cx {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            tys: HashMap::new(),
            ty_out: vec![],
            insts: HashMap::new(),
            inst_list: vec![],
            queue: VecDeque::new(),
            models,
            model_prefixes: pre,
            depth: 0,
        };
        // roots: every non-generic function of the crate
        let mut fns = vec![];
        let mut adts = vec![];
        let mut impls = vec![];
        let mut statics = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let g = tcx.generics_of(d);
                    let generic = g.requires_monomorphization(tcx);
                    let has_body = tcx.is_mir_available(d);
                    fns.push(J::O(vec![
                        ("path", s(path(tcx, d))),
                        ("generic", J::B(generic)),
                        ("line", cx.line(tcx.def_span(d))),
                        ("pub", J::B(tcx.effective_visibilities(()).is_reachable(ld))),
                        (
                            "unsafe",
                            J::B(!tcx
                                .fn_sig(d)
                                .instantiate_identity()
                                .skip_norm_wip()
                                .skip_binder()
                                .safety()
                                .is_safe()),
                        ),
                    ]));
                    if !generic && has_body {
                        let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                            ty::GenericParamDefKind::Lifetime => {
                                tcx.lifetimes.re_erased.into()
                            }
                            _ => unreachable!(),
                        });
                        cx.inst(Instance::new_raw(d, args));
                    }
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let g = tcx.generics_of(d);
                    if !g.requires_monomorphization(tcx) {
                        let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                            ty::GenericParamDefKind::Lifetime => {
                                tcx.lifetimes.re_erased.into()
                            }
                            _ => unreachable!(),
                        });
                        let t = Ty::new_adt(tcx, def, args);
                        let id = cx.ty(t);
                        let senv = cx.env;
                        let inf = |nm: rustc_span::Symbol| -> J {
                            match tcx.get_diagnostic_item(nm) {
                                Some(tr) => J::B(implements(tcx, senv, t, tr)),
                                None => J::Null,
                            }
                        };
                        let sync = match tcx.lang_items().sync_trait() {
                            Some(tr) => J::B(implements(tcx, senv, t, tr)),
                            None => J::Null,
                        };
                        let clone = match tcx.lang_items().clone_trait() {
                            Some(tr) => J::B(implements(tcx, senv, t, tr)),
                            None => J::Null,
                        };
                        adts.push(J::O(vec![
                            ("path", s(path(tcx, d))),
                            ("ty", id),
                            ("pub", J::B(tcx.effective_visibilities(()).is_reachable(ld))),
                            ("send", inf(rustc_span::sym::Send)),
                            ("sync", sync),
                            ("clone", clone),
                            ("freeze", J::B(t.is_freeze(tcx, cx.env))),
                        ]));
                    }
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tid = cx.ty(t);
                    statics.push(J::O(vec![
                        ("path", s(path(tcx, d))),
                        ("ty", tid),
                        ("mut", J::B(tcx.is_mutable_static(d))),
                        ("freeze", J::B(t.is_freeze(tcx, cx.env))),
                    ]));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    impls.push(J::O(vec![
                        ("trait", s(path(tcx, tr.def_id))),
                        ("self", s(with_no_trimmed_paths!(format!("{}", tr.self_ty())))),
                        ("derived", J::B(tcx.is_automatically_derived(d))),
                        ("unsafe", J::B(!tcx.trait_def(tr.def_id).safety.is_safe())),
                        ("line", cx.line(tcx.def_span(d))),
                        (
                            "macro",
                            J::B(tcx.def_span(d).from_expansion()),
                        ),
                    ]));
                }
                _ => {}
            }
        }
        let mut bodies = vec![];
        while let Some((id, depth)) = cx.queue.pop_front() {
            cx.depth = depth;
            let b = cx.body(id);
            bodies.push(b);
        }
        let top = J::O(vec![
            ("bodies", J::A(bodies)),
            ("types", J::A(cx.ty_out.clone())),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("statics", J::A(statics)),
        ]);
        let mut o = String::new();
        top.w(&mut o);
        std::fs::write(&out, o).unwrap();
        Compilation::Continue
    }
}

fn implements<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, t: Ty<'tcx>, tr: DefId) -> bool {
    tcx.type_implements_trait_shim(env, t, tr)
}
trait Shim<'tcx> {
    fn type_implements_trait_shim(self, env: TypingEnv<'tcx>, t: Ty<'tcx>, tr: DefId) -> bool;
}
extern crate rustc_infer;
extern crate rustc_trait_selection;
impl<'tcx> Shim<'tcx> for TyCtxt<'tcx> {
    fn type_implements_trait_shim(self, env: TypingEnv<'tcx>, t: Ty<'tcx>, tr: DefId) -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let (infcx, penv) = self.infer_ctxt().build_with_typing_env(env);
        infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mine = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "derivre");
    if mine {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Zub-checks=no".into());
        args.push("--cap-lints=allow".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
