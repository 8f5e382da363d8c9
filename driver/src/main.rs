//! mirdump: a rustc driver that behaves exactly like rustc, and, for the crates named in
//! MIRDUMP_CRATES, additionally writes the type-checked program (MIR bodies, resolved callees,
//! ADT definitions, trait impl tables) as JSON into MIRDUMP_OUT/<crate>.json.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
use J::*;

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            N => o.push_str("null"),
            B(b) => o.push_str(if *b { "true" } else { "false" }),
            I(i) => {
                let _ = write!(o, "{}", i);
            }
            S(s) => esc(s, o),
            A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl ToString) -> J {
    S(x.to_string())
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: std::cell::RefCell<std::collections::BTreeMap<String, DefId>>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(self
            .tcx
            .def_path_str(d))))
    }
    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> J {
        A(a.iter()
            .filter_map(|g| match g.kind() {
                GenericArgKind::Type(t) => Some(self.ty(t)),
                GenericArgKind::Const(c) => Some(O(vec![("k", s("const")), ("s", s(c))])),
                _ => None,
            })
            .collect())
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                O(vec![("k", s("prim")), ("p", s(t))])
            }
            ty::Adt(d, a) => {
                let p = self.path(d.did());
                self.adts.borrow_mut().insert(p.clone(), d.did());
                O(vec![("k", s("adt")), ("p", S(p)), ("a", self.args(a))])
            }
            ty::Ref(_, t, m) => O(vec![("k", s("ref")), ("m", B(m.is_mut())), ("t", self.ty(*t))]),
            ty::RawPtr(t, m) => O(vec![("k", s("ptr")), ("m", B(m.is_mut())), ("t", self.ty(*t))]),
            ty::Slice(t) => O(vec![("k", s("slice")), ("t", self.ty(*t))]),
            ty::Array(t, n) => O(vec![("k", s("array")), ("t", self.ty(*t)), ("n", s(n))]),
            ty::Tuple(ts) => O(vec![("k", s("tuple")), ("a", A(ts.iter().map(|t| self.ty(t)).collect()))]),
            ty::Param(p) => O(vec![("k", s("param")), ("p", s(p.name)), ("i", I(p.index as i128))]),
            ty::Closure(d, _) => O(vec![("k", s("closure")), ("p", S(self.path(*d)))]),
            ty::FnDef(d, a) => {
                O(vec![("k", s("fndef")), ("p", S(self.path(*d))), ("a", self.args(a.skip_binder()))])
            }
            ty::Dynamic(..) => O(vec![("k", s("dyn")), ("s", S(with_no_trimmed_paths!(t.to_string())))]),
            _ => O(vec![("k", s("other")), ("s", S(with_no_trimmed_paths!(t.to_string())))]),
        }
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(sp.hi());
        A(vec![
            S(lo.file.name.prefer_local_unconditionally().to_string()),
            I(lo.line as i128),
            I(hi.line as i128),
        ])
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut out = vec![I(p.local.as_u32() as i128)];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => {
                    let m = match pty.ty.kind() {
                        ty::Ref(_, _, m) => {
                            if m.is_mut() {
                                "mut"
                            } else {
                                "shared"
                            }
                        }
                        _ => "ptr",
                    };
                    A(vec![s("deref"), s(m)])
                }
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            d.variant(v).fields[f].name.to_string()
                        }
                        _ => f.as_u32().to_string(),
                    };
                    match pty.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            A(vec![s("field"), S(name), S(self.path(d.did())), s(d.variant(v).name)])
                        }
                        _ => A(vec![s("field"), S(name)]),
                    }
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(d, _) => d.variant(v).name.to_string(),
                        _ => v.as_u32().to_string(),
                    };
                    A(vec![s("as"), S(name)])
                }
                ProjectionElem::Index(l) => A(vec![s("index"), I(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    A(vec![s("cindex"), I(offset as i128), B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    A(vec![s("subslice"), I(from as i128), I(to as i128), B(from_end)])
                }
                _ => A(vec![s("otherproj"), s(format!("{:?}", e))]),
            };
            out.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        A(out)
    }
    fn scalar(&self, sc: Scalar, t: Ty<'tcx>) -> Option<J> {
        match sc {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Bool => Some(A(vec![s("bool"), B(bits != 0)])),
                    ty::Char => Some(A(vec![s("char"), I(bits as i128)])),
                    ty::Uint(u) => Some(A(vec![s("int"), s(u.name_str()), S(bits.to_string())])),
                    ty::Int(u) => {
                        let v = i.to_int(i.size());
                        Some(A(vec![s("int"), s(u.name_str()), S(v.to_string())]))
                    }
                    ty::Float(ty::FloatTy::F32) => {
                        let v = f32::from_bits(bits as u32);
                        Some(A(vec![s("float"), s("f32"), S(format!("{:?}", v))]))
                    }
                    ty::Float(ty::FloatTy::F64) => {
                        let v = f64::from_bits(bits as u64);
                        Some(A(vec![s("float"), s("f64"), S(format!("{:?}", v))]))
                    }
                    _ => None,
                }
            }
            Scalar::Ptr(p, _) => {
                // reference to a scalar constant
                if let ty::Ref(_, inner, _) = t.kind() {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(prov.alloc_id()) {
                        if let ty::Array(et, _) = inner.kind() {
                            if *et == self.tcx.types.u8 {
                                let o = off.bytes() as usize;
                                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..a.inner().len());
                                let st: String = b.iter().map(|x| *x as char).collect();
                                return Some(A(vec![s("str"), S(st)]));
                            }
                        }
                        let n = match inner.kind() {
                            ty::Bool => 1,
                            ty::Uint(u) => u.bit_width().unwrap_or(64) / 8,
                            ty::Int(u) => u.bit_width().unwrap_or(64) / 8,
                            ty::Float(f) => f.bit_width() / 8,
                            _ => return None,
                        } as usize;
                        let o = off.bytes() as usize;
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                        let mut v: u128 = 0;
                        for (k, x) in b.iter().enumerate() {
                            v |= (*x as u128) << (8 * k);
                        }
                        let si = ty::ScalarInt::try_from_uint(v, rustc_abi::Size::from_bytes(n as u64))?;
                        return self.scalar(Scalar::Int(si), *inner);
                    }
                }
                None
            }
        }
    }
    fn constant(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            return self.fnref(env, *d, a.skip_binder());
        }
        if let ty::Closure(d, _) = t.kind() {
            return O(vec![("c", s("zst")), ("ty", self.ty(t)), ("p", S(self.path(*d)))]);
        }
        let base = |v: J| O(vec![("c", s("val")), ("v", v), ("ty", self.ty(t))]);
        let uneval = match c.const_ {
            Const::Unevaluated(u, _) => Some(u),
            _ => None,
        };
        let uj = uneval.map(|u| {
            let mut v = vec![("p", S(self.path(u.def))), ("a", self.args(u.args))];
            if let Some(p) = u.promoted {
                v.push(("promoted", I(p.as_u32() as i128)));
            }
            // resolve associated constants when possible
            O(v)
        });
        let generic_promoted = matches!(uneval, Some(u) if u.promoted.is_some());
        if !generic_promoted {
            if let Ok(v) = c.const_.eval(tcx, env, body.span) {
                match v {
                    ConstValue::Scalar(sc) => {
                        if let Some(j) = self.scalar(sc, t) {
                            let mut o = vec![("c", s("val")), ("v", j), ("ty", self.ty(t))];
                            if let Some(u) = uj {
                                o.push(("from", u));
                            }
                            return O(o);
                        }
                    }
                    ConstValue::Slice { alloc_id, meta } => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if inner.is_str() {
                                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                                    let b = a
                                        .inner()
                                        .inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                                    return base(A(vec![s("str"), s(String::from_utf8_lossy(b))]));
                                }
                            }
                        }
                    }
                    ConstValue::ZeroSized => return O(vec![("c", s("zst")), ("ty", self.ty(t))]),
                    _ => {}
                }
            }
        }
        match uj {
            Some(u) => O(vec![("c", s("uneval")), ("u", u), ("ty", self.ty(t))]),
            None => O(vec![("c", s("opaque")), ("s", s(format!("{:?}", c.const_))), ("ty", self.ty(t))]),
        }
    }
    fn fnref(&self, env: TypingEnv<'tcx>, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut o = vec![("c", s("fn")), ("p", S(self.path(d))), ("a", self.args(a))];
        let tcx = self.tcx;
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", S(self.path(tr))));
            o.push(("name", s(tcx.item_name(d))));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, a) {
                if let ty::InstanceKind::Item(rd) = i.def {
                    o.push(("res", S(self.path(rd))));
                    o.push(("resa", self.args(i.args)));
                    o.push(("local", B(rd.is_local())));
                } else {
                    o.push(("reskind", s(format!("{:?}", i.def).split('(').next().unwrap_or(""))));
                }
            }
        }
        O(o)
    }
    fn op(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => A(vec![s("copy"), self.place(body, p)]),
            Operand::Move(p) => A(vec![s("move"), self.place(body, p)]),
            Operand::Constant(c) => A(vec![s("const"), self.constant(body, env, c)]),
            _ => A(vec![s("rtcheck")]),
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => A(vec![s("use"), self.op(body, env, o)]),
            Rvalue::Repeat(o, n) => A(vec![s("repeat"), self.op(body, env, o), s(n)]),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                A(vec![s("ref"), B(m), self.place(body, p)])
            }
            Rvalue::RawPtr(_, p) => A(vec![s("rawptr"), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => {
                A(vec![s("cast"), s(format!("{:?}", k)), self.op(body, env, o), self.ty(*t)])
            }
            Rvalue::BinaryOp(b, x) => A(vec![
                s("bin"),
                s(format!("{:?}", b)),
                self.op(body, env, &x.0),
                self.op(body, env, &x.1),
                self.ty(x.0.ty(&body.local_decls, self.tcx)),
            ]),
            Rvalue::UnaryOp(b, x) => A(vec![s("un"), s(format!("{:?}", b)), self.op(body, env, x)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                A(vec![s("discr"), self.place(body, p), self.ty(t)])
            }
            Rvalue::Aggregate(k, fs) => {
                let fj: Vec<J> = fs.iter().map(|f| self.op(body, env, f)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => A(vec![s("array")]),
                    AggregateKind::Tuple => A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names = match active {
                            Some(f) => vec![s(var.fields[*f].name)],
                            None => var.fields.iter().map(|f| s(f.name)).collect(),
                        };
                        self.adts.borrow_mut().insert(self.path(*d), *d);
                        A(vec![s("adt"), S(self.path(*d)), s(var.name), A(names), self.args(a)])
                    }
                    AggregateKind::Closure(d, _) => A(vec![s("closure"), S(self.path(*d))]),
                    _ => A(vec![s("otheragg")]),
                };
                A(vec![s("agg"), kj, A(fj)])
            }
            Rvalue::CopyForDeref(p) => A(vec![s("use"), A(vec![s("copy"), self.place(body, p)])]),
            Rvalue::Reborrow(_, m, p) => A(vec![s("ref"), B(m.is_mut()), self.place(body, p)]),
            _ => A(vec![s("otherrv"), s(format!("{:?}", r))]),
        }
    }
    fn body(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                O(vec![
                    ("ty", self.ty(d.ty)),
                    ("n", names[l.as_usize()].clone().map(S).unwrap_or(N)),
                ])
            })
            .collect();
        let blocks = body
            .basic_blocks
            .iter()
            .map(|b| {
                let mut st = vec![];
                for x in &b.statements {
                    match &x.kind {
                        StatementKind::Assign(bx) => {
                            let (p, r) = &**bx;
                            st.push(A(vec![
                                s("="),
                                self.place(body, p),
                                self.rvalue(body, env, r),
                                I(self.line(x.source_info.span)),
                            ]));
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            st.push(A(vec![
                                s("setdiscr"),
                                self.place(body, place),
                                I(variant_index.as_u32() as i128),
                                I(self.line(x.source_info.span)),
                            ]));
                        }
                        StatementKind::Intrinsic(i) => {
                            st.push(A(vec![s("intr"), s(format!("{:?}", i))]))
                        }
                        _ => {}
                    }
                }
                let t = b.terminator();
                let ln = self.line(t.source_info.span);
                let bb = |x: &BasicBlock| I(x.as_u32() as i128);
                let tj = match &t.kind {
                    TerminatorKind::Goto { target, .. } => A(vec![s("goto"), bb(target)]),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let dt = discr.ty(&body.local_decls, tcx);
                        A(vec![
                            s("switch"),
                            self.op(body, env, discr),
                            A(targets.iter().map(|(v, b)| A(vec![S(v.to_string()), bb(&b)])).collect()),
                            bb(&targets.otherwise()),
                            self.ty(dt),
                            I(ln),
                        ])
                    }
                    TerminatorKind::Return => A(vec![s("return")]),
                    TerminatorKind::Unreachable => A(vec![s("unreachable")]),
                    TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => A(vec![s("resume")]),
                    TerminatorKind::Drop { target, place, .. } => {
                        A(vec![s("drop"), bb(target), self.place(body, place)])
                    }
                    TerminatorKind::Call { func, args, destination, target, .. } => A(vec![
                        s("call"),
                        self.op(body, env, func),
                        A(args.iter().map(|a| self.op(body, env, &a.node)).collect()),
                        self.place(body, destination),
                        target.as_ref().map(bb).unwrap_or(N),
                        I(ln),
                    ]),
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => A(vec![
                        s("assert"),
                        self.op(body, env, cond),
                        B(*expected),
                        bb(target),
                        s(format!("{:?}", msg)),
                        I(ln),
                    ]),
                    TerminatorKind::FalseEdge { real_target, .. } => A(vec![s("goto"), bb(real_target)]),
                    TerminatorKind::FalseUnwind { real_target, .. } => A(vec![s("goto"), bb(real_target)]),
                    k => A(vec![s("otherterm"), s(format!("{:?}", k))]),
                };
                O(vec![("s", A(st)), ("t", tj), ("cleanup", B(b.is_cleanup))])
            })
            .collect();
        O(vec![
            ("argc", I(body.arg_count as i128)),
            ("spread", body.spread_arg.map(|l| I(l.as_u32() as i128)).unwrap_or(N)),
            ("locals", A(locals)),
            ("blocks", A(blocks)),
        ])
    }
    fn line(&self, sp: rustc_span::Span) -> i128 {
        let sm = self.tcx.sess.source_map();
        sm.lookup_char_pos(sp.source_callsite().lo()).line as i128
    }
}

fn from_derive(sp: rustc_span::Span) -> bool {
    let mut c = sp.ctxt();
    while !c.is_root() {
        let d = c.outer_expn_data();
        if let rustc_span::ExpnKind::Macro(k, _) = d.kind {
            if !matches!(k, rustc_span::MacroKind::Bang) {
                return true;
            }
        }
        c = d.call_site.ctxt();
    }
    false
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let d = D { tcx, adts: Default::default() };
        let mut fns = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            let ok = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let isconst = matches!(kind, DefKind::AssocConst { .. } | DefKind::Const { .. } | DefKind::Static { .. });
            if !ok && !isconst {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, did);
            let body = if ok { tcx.optimized_mir(did) } else { tcx.mir_for_ctfe(did) };
            let b = d.body(body, env);
            let prom: Vec<J> = tcx.promoted_mir(did).iter().map(|p| d.body(p, env)).collect();
            let g = tcx.generics_of(did);
            let mut gens = vec![];
            let base = tcx.typeck_root_def_id(did);
            let gg = tcx.generics_of(base);
            let _ = g;
            for i in 0..gg.count() {
                let p = gg.param_at(i, tcx);
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. } | ty::GenericParamDefKind::Const { .. }) {
                    gens.push(A(vec![s(p.name), I(p.index as i128)]));
                }
            }
            let mut o = vec![
                ("path", S(d.path(did))),
                ("kind", s(format!("{:?}", kind))),
                ("span", d.span(tcx.def_span(did))),
                ("full", d.span(body.span)),
                ("derived", B(from_derive(body.span))),
                ("gens", A(gens)),
                ("body", b),
                ("promoted", A(prom)),
            ];
            if !matches!(kind, DefKind::Closure) {
                o.push(("pub", B(tcx.visibility(did).is_public())));
                o.push(("reach", B(tcx.effective_visibilities(()).is_reachable(*ld))));
                if let Some(p) = tcx.opt_parent(did) {
                    if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                        o.push(("impl_self", d.ty(tcx.type_of(p).instantiate_identity().skip_norm_wip())));
                        if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                            o.push(("impl_trait", S(d.path(tr.skip_binder().def_id))));
                        }
                        o.push(("name", s(tcx.item_name(did))));
                    } else if matches!(tcx.def_kind(p), DefKind::Trait) {
                        o.push(("in_trait", S(d.path(p))));
                        o.push(("name", s(tcx.item_name(did))));
                    } else if let Some(n) = tcx.opt_item_name(did) {
                        o.push(("name", s(n)));
                    }
                }
            }
            fns.push(O(o));
        }
        // trait impls of this crate
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let did = id.owner_id.to_def_id();
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(did) {
                let tr = tcx.impl_trait_ref(did).skip_binder();
                let mut ms = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    ms.push((it.name().to_string(), S(d.path(it.def_id))));
                }
                impls.push(O(vec![
                    ("trait", S(d.path(tr.def_id))),
                    ("self", d.ty(tr.self_ty())),
                    ("targs", d.args(tr.args)),
                    ("items", M(ms)),
                    ("span", d.span(tcx.def_span(did))),
                ]));
            } else if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                d.adts.borrow_mut().insert(d.path(did), did);
            }
        }
        let mut done: std::collections::BTreeSet<String> = Default::default();
        let mut adts = vec![];
        loop {
            let todo: Vec<(String, DefId)> =
                d.adts.borrow().iter().filter(|(k, _)| !done.contains(*k)).map(|(k, v)| (k.clone(), *v)).collect();
            if todo.is_empty() {
                break;
            }
            for (p, did) in todo {
                done.insert(p.clone());
                let def = tcx.adt_def(did);
                if !did.is_local() && def.variants().len() > 40 {
                    continue;
                }
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let dv = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
                    let fs = v
                        .fields
                        .iter()
                        .map(|f| {
                            let fty = if did.is_local() {
                                d.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())
                            } else {
                                N
                            };
                            O(vec![("n", s(f.name)), ("ty", fty), ("pub", B(f.vis.is_public()))])
                        })
                        .collect();
                    vs.push(O(vec![("n", s(v.name)), ("d", S(dv.to_string())), ("f", A(fs))]));
                }
                adts.push((
                    p,
                    O(vec![
                        ("enum", B(def.is_enum())),
                        ("local", B(did.is_local())),
                        ("v", A(vs)),
                        ("span", d.span(tcx.def_span(did))),
                    ]),
                ));
            }
        }
        let top = O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
            ("fns", A(fns)),
            ("impls", A(impls)),
            ("adts", M(adts)),
        ]);
        let mut o = String::new();
        top.w(&mut o);
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let path = format!("{}/{}.json", self.out, name);
        let tmp = format!("{}.tmp{}", path, std::process::id());
        std::fs::write(&tmp, o).expect("mirdump: cannot write");
        std::fs::rename(&tmp, &path).expect("mirdump: cannot rename");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let mut name = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = w[1].clone();
        }
    }
    let wanted = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let hit = wanted.split(',').any(|c| c == name) && !args.iter().any(|a| a == "--test");
    if hit {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("--cap-lints=allow".into());
        let mut cb = Cb { out: std::env::var("MIRDUMP_OUT").unwrap_or(".".into()) };
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    } else {
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain));
    }
}
