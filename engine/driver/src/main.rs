//! Dumps the type-checked program (MIR bodies, ADTs, impls) of the crate under
//! analysis as JSON.  Used as RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...].
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypeVisitableExt};
use std::collections::HashMap;
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::I(x as i128) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<J>,
    adtmap: HashMap<DefId, usize>,
    adtq: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        // resolved, crate-qualified path
        let k = self.tcx.crate_name(d.krate);
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d)));
        let _ = k;
        p
    }
    fn rawpath(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() { v.push(n(self.ty(t))); }
            else if let Some(c) = x.as_const() { v.push(J::O(vec![("const", s(format!("{:?}", c)))])); }
        }
        J::A(v)
    }
    fn hasregion(&self, a: GenericArgsRef<'tcx>) -> J {
        J::A(a.iter().filter_map(|x| x.as_region()).map(|r| s(format!("{:?}", r))).collect())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, i);
        let j = match t.kind() {
            ty::Bool => J::O(vec![("k", s("bool"))]),
            ty::Char => J::O(vec![("k", s("char"))]),
            ty::Str => J::O(vec![("k", s("str"))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Int(x) => J::O(vec![("k", s("int")), ("n", s(x.name_str()))]),
            ty::Uint(x) => J::O(vec![("k", s("uint")), ("n", s(x.name_str()))]),
            ty::Float(x) => J::O(vec![("k", s("float")), ("n", s(x.name_str()))]),
            ty::Adt(d, a) => {
                let dd = d.did();
                if !self.adtmap.contains_key(&dd) { self.adtmap.insert(dd, 0); self.adtq.push(dd); }
                let aj = self.args(a);
                let rj = self.hasregion(a);
                J::O(vec![("k", s("adt")), ("path", s(self.path(dd))), ("args", aj), ("regions", rj)])
            }
            ty::Tuple(l) => { let v = l.iter().map(|x| n(self.ty(x))).collect(); J::O(vec![("k", s("tuple")), ("args", J::A(v))]) }
            ty::Ref(r, x, m) => { let x = n(self.ty(*x)); J::O(vec![("k", s("ref")), ("mut", J::B(m.is_mut())), ("args", J::A(vec![x])), ("regions", J::A(vec![s(format!("{:?}", r))]))]) }
            ty::RawPtr(x, m) => { let x = n(self.ty(*x)); J::O(vec![("k", s("ptr")), ("mut", J::B(m.is_mut())), ("args", J::A(vec![x]))]) }
            ty::Slice(x) => { let x = n(self.ty(*x)); J::O(vec![("k", s("slice")), ("args", J::A(vec![x]))]) }
            ty::Array(x, l) => { let x = n(self.ty(*x)); J::O(vec![("k", s("array")), ("args", J::A(vec![x])), ("len", s(format!("{:?}", l)))]) }
            ty::FnDef(d, a) => { let a = a.skip_binder(); let aj = self.args(a); J::O(vec![("k", s("fndef")), ("path", s(self.path(*d))), ("raw", s(self.rawpath(*d))), ("args", aj)]) }
            ty::Closure(d, a) => {
                let up: Vec<J> = a.as_closure().upvar_tys().iter().map(|x| n(self.ty(x))).collect();
                J::O(vec![("k", s("closure")), ("raw", s(self.rawpath(*d))), ("upvars", J::A(up))])
            }
            ty::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.as_str()))]),
            ty::Alias(..) => {
                // projection / opaque: show self type and name
                let txt = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
                let mut v = vec![("k", s("alias")), ("s", s(txt))];
                if let ty::Alias(_, al) = t.kind() {
                    let aj = self.args(al.args);
                    if let Some(d) = alias_def(al) {
                        v.push(("path", s(self.path(d))));
                        if d.is_local() && matches!(self.tcx.def_kind(d), DefKind::OpaqueTy) {
                            let hid = self.tcx.type_of(d).instantiate(self.tcx, al.args).skip_norm_wip();
                            let h = n(self.ty(hid));
                            v.push(("hidden", h));
                        }
                    }
                    v.push(("args", aj));
                }
                J::O(v)
            }
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr"))]),
            ty::Dynamic(..) => J::O(vec![("k", s("dyn")), ("s", s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t))))]),
            _ => J::O(vec![("k", s("other")), ("s", s(format!("{}", t)))]),
        };
        self.types[i] = j;
        i
    }
    fn adt(&mut self, d: DefId) {
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = n(self.ty(t));
                fs.push(J::O(vec![("name", s(f.name.as_str())), ("ty", t), ("pub", J::B(f.vis.is_public()))]));
            }
            let disc = if def.is_enum() { J::I(def.discriminant_for_variant(self.tcx, vi).val as i128) } else { J::I(0) };
            vs.push(J::O(vec![("name", s(v.name.as_str())), ("fields", J::A(fs)), ("discr", disc)]));
        }
        let gens = self.tcx.generics_of(d);
        let mut params = vec![];
        for p in gens.own_params.iter() { if let ty::GenericParamDefKind::Type { .. } = p.kind { params.push(s(p.name.as_str())); } }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let j = J::O(vec![
            ("path", s(self.path(d))), ("local", J::B(d.is_local())), ("kind", s(kind)),
            ("params", J::A(params)), ("variants", J::A(vs)), ("vis", J::B(self.tcx.visibility(d).is_public())),
        ]);
        self.adts.push(j);
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        J::A(vec![s(f), n(lo.line)])
    }
    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut v = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let mut name = J::Null;
                    if let ty::Adt(d, _) = pty.ty.kind() {
                        let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if (vi.as_usize()) < d.variants().len() {
                            name = s(d.variant(vi).fields[f].name.as_str());
                        }
                    }
                    let t = n(self.ty(t));
                    J::O(vec![("f", n(f.as_usize())), ("n", name), ("t", t)])
                }
                ProjectionElem::Downcast(nm, vi) => J::O(vec![("v", n(vi.as_usize())), ("n", nm.map_or(J::Null, |x| s(x.as_str())))]),
                ProjectionElem::Index(l) => J::O(vec![("i", n(l.as_usize()))]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::O(vec![("ci", n(offset as usize)), ("min", n(min_length as usize)), ("end", J::B(from_end))]),
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![("ss", n(from as usize)), ("to", n(to as usize)), ("end", J::B(from_end))]),
                other => s(format!("?{:?}", other)),
            };
            v.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        J::O(vec![("l", n(p.local.as_usize())), ("p", J::A(v))])
    }
    fn fnref(&mut self, env: ty::TypingEnv<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![("path", s(self.path(d))), ("raw", s(self.rawpath(d))), ("local", J::B(d.is_local())), ("args", self.args(a))];
        v.push(("name", s(self.tcx.item_name(d).as_str())));
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && !self.tcx.fn_sig(d).instantiate_identity().skip_norm_wip().safety().is_safe() { v.push(("unsafe", J::B(true))); }
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            v.push(("trait", s(self.path(t))));
            let st = a.type_at(0);
            let st = n(self.ty(st));
            v.push(("self", st));
        } else if let Some(im) = self.tcx.impl_of_assoc(d) {
            let st = self.tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = n(self.ty(st));
            v.push(("implself", st));
        }
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = self.tcx.parent(d);
            // variant or struct
            let (adt, vi) = if matches!(self.tcx.def_kind(parent), DefKind::Variant) {
                let adt = self.tcx.parent(parent);
                let idx = self.tcx.adt_def(adt).variant_index_with_id(parent);
                (adt, idx.as_usize())
            } else { (parent, 0) };
            let t = self.tcx.type_of(adt).instantiate_identity().skip_norm_wip();
            self.ty(t);
            v.push(("ctor", J::O(vec![("adt", s(self.path(adt))), ("v", n(vi))])));
        } else if !matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
            let gen = self.tcx.generics_of(d);
            let _ = gen;
            if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, d, a) {
                let rd = inst.def_id();
                if rd != d || d.is_local() {
                    v.push(("res", s(self.rawpath(rd))));
                    v.push(("respath", s(self.path(rd))));
                    v.push(("reslocal", J::B(rd.is_local())));
                    let aj = self.args(inst.args);
                    v.push(("resargs", aj));
                }
                if let ty::InstanceKind::Virtual(..) = inst.def { v.push(("virtual", J::B(true))); }
            }
        }
        J::O(v)
    }
    fn alloc_str(&self, bytes: &[u8]) -> J { match std::str::from_utf8(bytes) { Ok(x) => s(x), Err(_) => J::Null } }
    fn constant(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let _ = body;
        let t = c.const_.ty();
        let tj = n(self.ty(t));
        let mut v = vec![("c", tj)];
        if let ty::FnDef(d, a) = t.kind() { let a = a.skip_binder(); let f = self.fnref(env, *d, a); v.push(("fn", f)); return J::O(v); }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                v.push(("promoted", n(p.as_usize())));
                v.push(("of", s(self.rawpath(u.def))));
                return J::O(v);
            }
            v.push(("item", s(self.rawpath(u.def))));
            v.push(("itemlocal", J::B(u.def.is_local())));
        }
        if t.has_param() && !matches!(t.kind(), ty::Ref(..) | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Bool) { v.push(("generic", J::B(true))); return J::O(v); }
        match c.const_.eval(self.tcx, env, c.span) {
            Ok(val) => {
                match val {
                    ConstValue::Scalar(sc) => match sc {
                        rustc_middle::mir::interpret::Scalar::Int(i) => {
                            let bits = i.to_bits(i.size());
                            let x = match t.kind() {
                                ty::Int(_) => { let sz = i.size().bits(); let sh = 128 - sz; ((bits << sh) as i128) >> sh }
                                _ => bits as i128,
                            };
                            match t.kind() {
                                ty::Bool => v.push(("bool", J::B(bits != 0))),
                                ty::Char => v.push(("char", J::I(x))),
                                ty::Float(_) => v.push(("floatbits", s(format!("{}", bits)))),
                                _ => v.push(("int", s(format!("{}", x)))),
                            }
                        }
                        rustc_middle::mir::interpret::Scalar::Ptr(p, _) => {
                            // pointer to an allocation: try to read bytes (e.g. &[u8; N])
                            let (prov, off) = p.into_raw_parts();
                            let _ = off;
                            match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                                Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) => {
                                    let a = a.inner();
                                    if a.provenance().ptrs().is_empty() {
                                        let len = a.len();
                                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..len);
                                        v.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                                    } else { v.push(("ptr", J::B(true))); }
                                }
                                Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) => { v.push(("static", s(self.rawpath(d)))); v.push(("staticlocal", J::B(d.is_local()))); }
                                _ => v.push(("ptr", J::B(true))),
                            }
                        }
                    },
                    ConstValue::ZeroSized => v.push(("zst", J::B(true))),
                    ConstValue::Slice { alloc_id, meta } => {
                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize).to_vec();
                            let sj = self.alloc_str(&b);
                            v.push(("str", sj));
                            v.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                        }
                    }
                    ConstValue::Indirect { .. } => v.push(("indirect", J::B(true))),
                }
            }
            Err(_) => v.push(("evalerr", J::B(true))),
        }
        J::O(v)
    }
    fn operand(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("cp", self.place(body, *p))]),
            Operand::Move(p) => J::O(vec![("mv", self.place(body, *p))]),
            Operand::Constant(c) => self.constant(body, env, c),
            Operand::RuntimeChecks(_) => J::O(vec![("rtcheck", J::B(true))]),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("r", s("use")), ("o", self.operand(body, env, o))]),
            Rvalue::Repeat(o, c) => J::O(vec![("r", s("repeat")), ("o", self.operand(body, env, o)), ("n", s(format!("{:?}", c)))]),
            Rvalue::Ref(_, bk, p) => J::O(vec![("r", s("ref")), ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))), ("p", self.place(body, *p))]),
            Rvalue::RawPtr(_, p) => J::O(vec![("r", s("rawptr")), ("p", self.place(body, *p))]),
            Rvalue::ThreadLocalRef(d) => J::O(vec![("r", s("tls")), ("d", s(self.rawpath(*d)))]),
            Rvalue::Cast(k, o, t) => { let oj = self.operand(body, env, o); J::O(vec![("r", s("cast")), ("kind", s(format!("{:?}", k))), ("o", oj), ("t", n(self.ty(*t)))]) }
            Rvalue::BinaryOp(op, b) => J::O(vec![("r", s("bin")), ("op", s(format!("{:?}", op))), ("a", self.operand(body, env, &b.0)), ("b", self.operand(body, env, &b.1))]),
            Rvalue::UnaryOp(op, o) => J::O(vec![("r", s("un")), ("op", s(format!("{:?}", op))), ("a", self.operand(body, env, o))]),
            Rvalue::Discriminant(p) => { let t = p.ty(&body.local_decls, self.tcx).ty; let pj = self.place(body, *p); J::O(vec![("r", s("discr")), ("p", pj), ("t", n(self.ty(t)))]) }
            Rvalue::Aggregate(k, ops) => {
                let oj: Vec<J> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let mut v = vec![("r", s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => { v.push(("k", s("array"))); v.push(("t", n(self.ty(*t)))); }
                    AggregateKind::Tuple => v.push(("k", s("tuple"))),
                    AggregateKind::Adt(d, vi, a, _, af) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, *a).skip_norm_wip();
                        v.push(("k", s("adt")));
                        v.push(("t", n(self.ty(t))));
                        v.push(("adt", s(self.path(*d))));
                        v.push(("v", n(vi.as_usize())));
                        let _ = af;
                    }
                    AggregateKind::Closure(d, _) => { v.push(("k", s("closure"))); v.push(("raw", s(self.rawpath(*d)))); }
                    AggregateKind::RawPtr(t, _) => { v.push(("k", s("rawptr"))); v.push(("t", n(self.ty(*t)))); }
                    _ => v.push(("k", s("other"))),
                }
                v.push(("ops", J::A(oj)));
                J::O(v)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![("r", s("use")), ("o", J::O(vec![("cp", self.place(body, *p))]))]),
            other => J::O(vec![("r", s("other")), ("s", s(format!("{:?}", other)))]),
        }
    }
    fn body(&mut self, did: DefId, body: &Body<'tcx>) -> J {
        let env = ty::TypingEnv::post_analysis(self.tcx, did);
        let locals: Vec<J> = body.local_decls.iter().map(|d| n(self.ty(d.ty))).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.push(J::A(vec![n(p.local.as_usize()), s(v.name.as_str())])); }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let ln = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, b.0);
                        let r = self.rvalue(body, env, &b.1);
                        st.push(J::O(vec![("s", s("=")), ("p", p), ("r", r), ("at", ln)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, **place);
                        st.push(J::O(vec![("s", s("setdiscr")), ("p", p), ("v", n(variant_index.as_usize())), ("at", ln)]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::O(vec![("s", s("dead")), ("l", n(l.as_usize()))])),
                    StatementKind::StorageLive(l) => st.push(J::O(vec![("s", s("live")), ("l", n(l.as_usize()))])),
                    StatementKind::Intrinsic(i) => st.push(J::O(vec![("s", s("intrinsic")), ("d", s(format!("{:?}", i))), ("at", ln)])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.span(t.source_info.span);
            let exp = J::B(t.source_info.span.from_expansion());
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("t", s("goto")), ("to", n(target.as_usize()))],
                TerminatorKind::SwitchInt { discr, targets, .. } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let arms = targets.iter().map(|(v, b)| J::A(vec![s(format!("{}", v)), n(b.as_usize())])).collect();
                    let dj = self.operand(body, env, discr);
                    vec![("t", s("switch")), ("o", dj), ("ty", n(self.ty(dt))), ("arms", J::A(arms)), ("else", n(targets.otherwise().as_usize()))]
                }
                TerminatorKind::Return => vec![("t", s("return"))],
                TerminatorKind::Unreachable => vec![("t", s("unreachable"))],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![("t", s("resume"))],
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&body.local_decls, self.tcx).ty;
                    vec![("t", s("drop")), ("p", self.place(body, *place)), ("ty", n(self.ty(ty))), ("to", n(target.as_usize()))]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, env, func);
                    let a = args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    let d = self.place(body, *destination);
                    vec![("t", s("call")), ("f", f), ("args", J::A(a)), ("dest", d), ("to", target.map_or(J::Null, |x| n(x.as_usize())))]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(body, env, cond);
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![self.operand(body, env, len), self.operand(body, env, index)]),
                        AssertKind::Overflow(op, a, b) => (format!("Overflow({:?})", op), vec![self.operand(body, env, a), self.operand(body, env, b)]),
                        AssertKind::OverflowNeg(a) => ("OverflowNeg".into(), vec![self.operand(body, env, a)]),
                        AssertKind::DivisionByZero(a) => ("DivisionByZero".into(), vec![self.operand(body, env, a)]),
                        AssertKind::RemainderByZero(a) => ("RemainderByZero".into(), vec![self.operand(body, env, a)]),
                        _ => ("Other".into(), vec![]),
                    };
                    vec![("t", s("assert")), ("o", c), ("exp", J::B(*expected)), ("kind", s(k)), ("ops", J::A(ops)), ("to", n(target.as_usize()))]
                }
                TerminatorKind::FalseEdge { real_target, .. } => vec![("t", s("goto")), ("to", n(real_target.as_usize()))],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![("t", s("goto")), ("to", n(real_target.as_usize()))],
                other => vec![("t", s("other")), ("s", s(format!("{:?}", other)))],
            };
            let mut tj = tj;
            tj.push(("at", ln));
            tj.push(("mac", exp));
            blocks.push(J::O(vec![("st", J::A(st)), ("term", J::O(tj)), ("cleanup", J::B(bb.is_cleanup))]));
        }
        J::O(vec![("argc", n(body.arg_count)), ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks))])
    }
}

fn alias_def<'tcx>(al: &ty::AliasTy<'tcx>) -> Option<DefId> {
    match al.kind {
        ty::AliasTyKind::Projection { def_id } => Some(def_id),
        ty::AliasTyKind::Inherent { def_id } => Some(def_id),
        ty::AliasTyKind::Opaque { def_id } => Some(def_id),
        ty::AliasTyKind::Free { def_id } => Some(def_id),
    }
}

struct Cb { out: String }
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), adts: vec![], adtmap: HashMap::new(), adtq: vec![] };
        let mut fns = vec![];
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        for k in keys {
            let did = k.to_def_id();
            let kind = tcx.def_kind(did);
            let isconst = matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst | DefKind::Static { .. });
            if matches!(kind, DefKind::Ctor(..)) { continue; }
            let (b, proms): (&Body<'tcx>, _) = if isconst { (tcx.mir_for_ctfe(did), tcx.promoted_mir(did)) } else { (tcx.optimized_mir(did), tcx.promoted_mir(did)) };
            let bj = cx.body(did, b);
            let pj: Vec<J> = proms.iter().map(|p| cx.body(did, p)).collect();
            let mut v = vec![
                ("raw", s(cx.rawpath(did))), ("path", s(cx.path(did))), ("kind", s(format!("{:?}", kind))),
                ("at", cx.span(tcx.def_span(did))), ("exp", J::B(tcx.def_span(did).from_expansion())), ("body", bj), ("promoted", J::A(pj)),
                ("vis", J::B(matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.effective_visibilities(()).is_reachable(k))),
            ];
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                v.push(("name", s(tcx.item_name(did).as_str())));
                let mut params = vec![];
                let mut g = Some(tcx.generics_of(did));
                let mut stack = vec![];
                while let Some(x) = g { stack.push(x); g = x.parent.map(|p| tcx.generics_of(p)); }
                for x in stack.iter().rev() { for p in x.own_params.iter() { if let ty::GenericParamDefKind::Type { .. } | ty::GenericParamDefKind::Const { .. } = p.kind { params.push(s(p.name.as_str())); } } }
                v.push(("params", J::A(params)));
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                v.push(("unsafe", J::B(!sig.safety().is_safe())));
                if let Some(im) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    v.push(("implself", n(cx.ty(st))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        v.push(("implof", s(cx.path(tr.def_id))));
                        let a = cx.args(tr.args);
                        v.push(("implargs", a));
                    }
                    v.push(("derived", J::B(tcx.is_automatically_derived(im))));
                }
                if let Some(t) = tcx.trait_of_assoc(did) { v.push(("traitdefault", s(cx.path(t)))); }
            } else if matches!(kind, DefKind::Closure) {
                v.push(("parent", s(cx.rawpath(tcx.parent(did)))));
            }
            fns.push(J::O(v));
        }
        // local impls (also of external traits), statics, unsafe blocks
        let mut impls = vec![];
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let st = n(cx.ty(st));
                    let tr = if of_trait { let t = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip(); s(cx.path(t.def_id)) } else { J::Null };
                    let ms = tcx.associated_items(did).in_definition_order().map(|a| { let mut v = vec![s(a.name().as_str()), s(cx.rawpath(a.def_id)), s(format!("{:?}", a.tag()))]; if matches!(tcx.def_kind(a.def_id), DefKind::AssocTy) { let t = tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip(); v.push(n(cx.ty(t))); } J::A(v) }).collect();
                    impls.push(J::O(vec![("self", st), ("trait", tr), ("items", J::A(ms)), ("at", cx.span(tcx.def_span(did))), ("derived", J::B(tcx.is_automatically_derived(did)))]));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let fz = t.is_freeze(tcx, ty::TypingEnv::post_analysis(tcx, did));
                    items.push(J::O(vec![("kind", s("static")), ("raw", s(cx.rawpath(did))), ("mut", J::B(mutability.is_mut())), ("freeze", J::B(fz)), ("at", cx.span(tcx.def_span(did)))]));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let env = ty::TypingEnv::post_analysis(tcx, did);
                    let fz = t.is_freeze(tcx, env);
                    cx.ty(t);
                    let ev = tcx.effective_visibilities(()).is_reachable(id);
                    items.push(J::O(vec![("kind", s("adt")), ("path", s(cx.path(did))), ("freeze", J::B(fz)), ("reachable", J::B(ev)), ("at", cx.span(tcx.def_span(did)))]));
                }
                _ => {}
            }
        }
        while let Some(d) = cx.adtq.pop() { cx.adt(d); }
        let mut ub = vec![];
        {
            use rustc_hir::intravisit::{self, Visitor};
            struct V<'a, 'tcx> { tcx: TyCtxt<'tcx>, out: &'a mut Vec<(rustc_span::Span, LocalDefId)>, cur: LocalDefId }
            impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
                type NestedFilter = rustc_middle::hir::nested_filter::All;
                fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
                fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                    if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules { self.out.push((b.span, self.cur)); }
                    intravisit::walk_block(self, b);
                }
                fn visit_fn(&mut self, fk: intravisit::FnKind<'tcx>, fd: &'tcx rustc_hir::FnDecl<'tcx>, b: rustc_hir::BodyId, _: rustc_span::Span, id: LocalDefId) {
                    let o = self.cur; self.cur = id;
                    intravisit::walk_fn(self, fk, fd, b, id);
                    self.cur = o;
                }
            }
            let mut out = vec![];
            let mut v = V { tcx, out: &mut out, cur: rustc_hir::def_id::CRATE_DEF_ID };
            tcx.hir_walk_toplevel_module(&mut v);
            for (sp, id) in out { ub.push(J::O(vec![("at", cx.span(sp)), ("in", s(cx.rawpath(id.to_def_id())))])); }
        }
        let types = std::mem::take(&mut cx.types);
        let adts = std::mem::take(&mut cx.adts);
        let root = J::O(vec![("types", J::A(types)), ("adts", J::A(adts)), ("fns", J::A(fns)), ("impls", J::A(impls)), ("items", J::A(items)), ("unsafe_blocks", J::A(ub))]);
        let mut o = String::new();
        root.w(&mut o);
        std::fs::write(&self.out, o).expect("write dump");
        rustc_driver::Compilation::Continue
    }
}
struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let name = args.iter().position(|x| x == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_test = args.iter().any(|x| x == "--test");
    rustc_driver::catch_with_exit_code(move || {
        if name == want && !want.is_empty() && !is_test {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Coverflow-checks=on".into());
            args.push("-Zalways-encode-mir".into());
            args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
            args.push("-Zub-checks=no".into());
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out: std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT") });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Nop);
        }
    })
}
