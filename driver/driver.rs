//! Fact extractor: a rustc driver that dumps the type-checked program of one crate (MIR bodies with
//! resolved callees, ADT layouts, impls, visibilities) as JSON. Nothing is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

enum J { N, B(bool), I(i128), U(u128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn u(x: usize) -> J { J::U(x as u128) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{i}"); }
            J::U(i) => { let _ = write!(o, "{i}"); }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 || c as u32 == 127 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    let _ = write!(o, "\"{k}\":"); x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> { tcx: TyCtxt<'tcx>, types: Vec<J>, tmap: HashMap<Ty<'tcx>, usize>, bin: bool }

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        let bin = if d.krate == LOCAL_CRATE && self.bin { "@bin" } else { "" };
        format!("{}{bin}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn name(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d))))
    }
    fn line(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        u(loc.line)
    }
    fn file(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        s(format!("{}", loc.file.name.prefer_local_unconditionally()))
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(u(self.ty(t))),
                GenericArgKind::Const(c) => v.push(s(with_no_trimmed_paths!(format!("{c}")))),
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tmap.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(J::N);
        self.tmap.insert(t, i);
        let disp = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}"))));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(disp))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) => { o.push(("k", s("int"))); }
            ty::Uint(_) => { o.push(("k", s("uint"))); }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(d, a) => {
                o.push(("k", s("adt")));
                o.push(("adt", s(self.id(d.did()))));
                o.push(("name", s(self.name(d.did()))));
                let a = self.args(a);
                o.push(("args", a));
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                o.push(("k", s("array"))); o.push(("e", u(e)));
                match n.try_to_target_usize(self.tcx) {
                    Some(v) => o.push(("n", J::U(v as u128))),
                    None => o.push(("n", s(format!("{n}")))),
                }
            }
            ty::Slice(e) => { let e = self.ty(*e); o.push(("k", s("slice"))); o.push(("e", u(e))); }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                o.push(("k", s("ref"))); o.push(("e", u(e))); o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                o.push(("k", s("ptr"))); o.push(("e", u(e))); o.push(("mut", J::B(m.is_mut())));
            }
            ty::FnDef(d, a) => {
                let d: DefId = (*d).into();
                o.push(("k", s("fndef"))); o.push(("id", s(self.id(d)))); o.push(("name", s(self.name(d))));
                let a = self.args(a.skip_binder());
                o.push(("args", a));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(p, _) => {
                o.push(("k", s("dyn")));
                if let Some(d) = p.principal_def_id() { o.push(("trait", s(self.name(d)))); }
            }
            ty::Closure(d, a) => {
                let d: DefId = (*d).into();
                o.push(("k", s("closure"))); o.push(("id", s(self.id(d))));
                let ups: Vec<Ty<'tcx>> = a.as_closure().upvar_tys().iter().collect();
                let v = ups.into_iter().map(|t| u(self.ty(t))).collect();
                o.push(("ups", J::A(v)));
                let v = a.as_closure().parent_args().iter().filter_map(|x| match x.kind() { GenericArgKind::Type(t) => Some(u(self.ty(t))), _ => None }).collect();
                o.push(("args", J::A(v)));
            }
            ty::Coroutine(d, _) => { let d: DefId = (*d).into(); o.push(("k", s("coroutine"))); o.push(("id", s(self.id(d)))); }
            ty::Tuple(v) => {
                let v = v.iter().map(|t| u(self.ty(t))).collect();
                o.push(("k", s("tuple"))); o.push(("args", J::A(v)));
            }
            ty::Alias(..) => { o.push(("k", s("alias"))); }
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("p", s(p.name.to_string()))); }
            _ => o.push(("k", s("other"))),
        }
        self.types[i] = J::O(o);
        i
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![u(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => { let ti = self.ty(t); J::A(vec![s("f"), u(f.as_usize()), u(ti)]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), u(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    J::A(vec![s("c"), J::U(offset as u128), J::U(min_length as u128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } =>
                    J::A(vec![s("s"), J::U(from as u128), J::U(to as u128), J::B(from_end)]),
                ProjectionElem::Downcast(n, i) =>
                    J::A(vec![s("d"), u(i.as_usize()), n.map(|n| s(n.to_string())).unwrap_or(J::N)]),
                _ => s("?"),
            });
        }
        J::A(v)
    }
    fn alloc(&mut self, a: AllocId, off: u64, len: Option<u64>, depth: usize) -> J {
        match self.tcx.try_get_global_alloc(a) {
            Some(GlobalAlloc::Memory(m)) => {
                let m = m.inner();
                let total = m.len() as u64;
                let end = match len { Some(l) => (off + l).min(total), None => total };
                let off = off.min(end);
                let bytes = m.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize);
                let mut hex = String::new();
                for b in bytes.iter().take(65536) { let _ = write!(hex, "{b:02x}"); }
                let mut ptrs = vec![];
                if depth < 6 {
                    let list: Vec<(u64, AllocId, u64)> = m.provenance().ptrs().iter()
                        .filter(|(o, _)| o.bytes() >= off && o.bytes() + 8 <= end)
                        .map(|(o, p)| {
                            let raw = m.inspect_with_uninit_and_ptr_outside_interpreter(o.bytes() as usize..o.bytes() as usize + 8);
                            (o.bytes(), p.alloc_id(), u64::from_le_bytes(raw.try_into().unwrap()))
                        }).collect();
                    for (o, id, inner) in list {
                        let j = self.alloc(id, inner, None, depth + 1);
                        ptrs.push(J::A(vec![J::U((o - off) as u128), j]));
                    }
                }
                J::O(vec![("hex", s(hex)), ("ptrs", J::A(ptrs))])
            }
            Some(GlobalAlloc::Function { instance }) => {
                let f = self.fnref(instance.def_id(), instance.args, None);
                J::O(vec![("fnptr", f)])
            }
            Some(GlobalAlloc::Static(d)) => J::O(vec![("static", s(self.id(d)))]),
            _ => J::N,
        }
    }
    fn fnref(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: Option<TypingEnv<'tcx>>) -> J {
        let tcx = self.tcx;
        let args = self.args(a);
        let mut o = vec![("id", s(self.id(d))), ("name", s(self.name(d))), ("args", args)];
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.name(t))));
            o.push(("method", s(tcx.item_name(d).to_string())));
        }
        if let Some(env) = env {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
                let a2 = tcx.erase_and_anonymize_regions(a);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, d, a2)));
                if let Ok(Ok(Some(inst))) = r {
                    if inst.def_id() != d {
                        let rd = inst.def_id();
                        o.push(("res", s(self.id(rd))));
                        o.push(("resname", s(self.name(rd))));
                        let ra = self.args(inst.args);
                        o.push(("resargs", ra));
                    } else {
                        o.push(("res", s(self.id(d))));
                    }
                }
            }
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            // tuple struct / variant constructor used as a function
            let parent = tcx.parent(d);
            match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let e = tcx.parent(parent);
                    let idx = tcx.adt_def(e).variant_index_with_ctor_id(d);
                    o.push(("ctor", J::A(vec![s(self.id(e)), u(idx.as_usize()), s(tcx.item_name(parent).to_string())])));
                }
                _ => o.push(("ctor", J::A(vec![s(self.id(parent)), u(0), s(tcx.item_name(parent).to_string())]))),
            }
        }
        J::O(o)
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> Vec<(&'static str, J)> {
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                if t.is_signed() { vec![("int", J::I(size.sign_extend(bits)))] } else { vec![("int", J::U(bits))] }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let j = self.alloc(prov.alloc_id(), off.bytes(), None, 0);
                vec![("ptr", j)]
            }
            ConstValue::ZeroSized => match t.kind() {
                _ => vec![("zst", J::B(true))],
            },
            ConstValue::Slice { alloc_id, meta } => {
                let inner = t.builtin_deref(true);
                let is_str = inner.map(|t| t.is_str()).unwrap_or(false);
                let is_u8 = match inner.map(|t| t.kind()) { Some(ty::Slice(e)) => *e == self.tcx.types.u8, _ => false };
                if is_str || is_u8 {
                    let m = self.tcx.global_alloc(alloc_id).unwrap_memory();
                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize).to_vec();
                    if is_str { return vec![("str", s(String::from_utf8_lossy(&b).to_string()))]; }
                    let mut hex = String::new();
                    for b in b.iter() { let _ = write!(hex, "{b:02x}"); }
                    return vec![("bytes", s(hex))];
                }
                let j = self.alloc(alloc_id, 0, None, 0);
                vec![("slice", j), ("meta", J::U(meta as u128))]
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let j = self.alloc(alloc_id, offset.bytes(), None, 0);
                vec![("mem", j)]
            }
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o = vec![("ty", u(ti))];
        if let ty::FnDef(d, a) = t.kind() {
            let d: DefId = (*d).into();
            let f = self.fnref(d, a.skip_binder(), Some(env));
            o.push(("fn", f));
            return J::O(o);
        }
        match c.const_ {
            Const::Ty(_, k) => {
                if let ty::ConstKind::Param(p) = k.kind() { o.push(("param", s(p.name.to_string()))); return J::O(o); }
            }
            Const::Unevaluated(uv, _) => {
                let a = self.args(uv.args);
                o.push(("uneval", s(self.id(uv.def))));
                o.push(("uname", s(self.name(uv.def))));
                o.push(("uargs", a));
                if let Some(p) = uv.promoted {
                    o.push(("promoted", u(p.as_usize())));
                    return J::O(o);
                }
            }
            Const::Val(..) => {}
        }
        let tcx = self.tcx;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.const_.eval(tcx, env, c.span)));
        if let Ok(Ok(v)) = r { o.extend(self.cval(v, t)); }
        J::O(o)
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(c, env)]),
            _ => J::A(vec![s("rt")]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o, env)]),
            Rvalue::Repeat(o, n) => {
                let nn = match n.try_to_target_usize(self.tcx) { Some(v) => J::U(v as u128), None => s(format!("{n}")) };
                J::A(vec![s("repeat"), self.operand(o, env), nn])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), s(match k { BorrowKind::Shared => "sh", BorrowKind::Fake(_) => "fk", _ => "mut" }), self.place(p)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("reb"), s(if m.is_mut() { "mut" } else { "sh" }), self.place(p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), s("raw"), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{k:?}")), self.operand(o, env), u(ti)])
            }
            Rvalue::BinaryOp(op, b) => J::A(vec![s("bin"), s(format!("{op:?}")), self.operand(&b.0, env), self.operand(&b.1, env)]),
            Rvalue::UnaryOp(op, a) => J::A(vec![s("un"), s(format!("{op:?}")), self.operand(a, env)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p)])]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let a = self.args(a);
                        J::A(vec![s("adt"), s(self.id(*d)), u(v.as_usize()), s(def.variant(*v).name.to_string()), a,
                            active.map(|f| u(f.as_usize())).unwrap_or(J::N)])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.id(*d))]),
                    AggregateKind::Coroutine(d, _) => J::A(vec![s("coroutine"), s(self.id(*d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                let v = ops.iter().map(|o| self.operand(o, env)).collect();
                J::A(vec![s("agg"), kk, J::A(v)])
            }
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }
    fn body(&mut self, b: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut locals = vec![];
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); }
                dbg.push(J::A(vec![s(v.name.to_string()), self.place(p)]));
            }
        }
        for (i, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(J::A(vec![u(t), names.get(&i.as_usize()).map(|n| s(n.clone())).unwrap_or(J::N)]));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup { blocks.push(J::N); continue; }
            let mut st = vec![];
            for x in &bb.statements {
                let l = self.line(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, env);
                        st.push(J::A(vec![s("="), p, r, l]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("sd"), p, u(variant_index.as_usize()), l]));
                    }
                    StatementKind::Intrinsic(i) => st.push(J::A(vec![s("intr"), s(format!("{i:?}")), l])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let l = self.line(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), u(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v = targets.iter().map(|(v, t)| J::A(vec![J::U(v), u(t.as_usize())])).collect();
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dti = self.ty(dt);
                    J::A(vec![s("switch"), self.operand(discr, env), J::A(v), u(targets.otherwise().as_usize()), l, u(dti)])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let pti = self.ty(pt);
                    J::A(vec![s("drop"), self.place(place), u(target.as_usize()), u(pti), l])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span: _, .. } => {
                    let f = self.operand(func, env);
                    let a = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    let at = args.iter().map(|a| { let t = a.node.ty(&b.local_decls, self.tcx); u(self.ty(t)) }).collect();
                    let d = self.place(destination);
                    J::A(vec![s("call"), f, J::A(a), d, target.map(|t| u(t.as_usize())).unwrap_or(J::N), l, J::A(at)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => J::A(vec![s("bounds"), self.operand(len, env), self.operand(index, env)]),
                        AssertKind::Overflow(op, a, b2) => J::A(vec![s("overflow"), s(format!("{op:?}")), self.operand(a, env), self.operand(b2, env)]),
                        AssertKind::OverflowNeg(a) => J::A(vec![s("overflow"), s("Neg"), self.operand(a, env)]),
                        AssertKind::DivisionByZero(a) => J::A(vec![s("div0"), self.operand(a, env)]),
                        AssertKind::RemainderByZero(a) => J::A(vec![s("rem0"), self.operand(a, env)]),
                        m => J::A(vec![s("otherassert"), s(format!("{m:?}"))]),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), m, u(target.as_usize()), l])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), u(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), u(real_target.as_usize())]),
                k => J::A(vec![s("otherterm"), s(format!("{k:?}"))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", term), ("l", l_of(self, t.source_info.span))]));
        }
        J::O(vec![("argc", u(b.arg_count)), ("locals", J::A(locals)), ("dbg", J::A(dbg)), ("blocks", J::A(blocks)),
            ("spread", b.spread_arg.map(|l| u(l.as_usize())).unwrap_or(J::N))])
    }
}
fn l_of(c: &Cx<'_>, sp: Span) -> J { c.line(sp) }

struct Cb { out: String }
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        std::panic::set_hook(Box::new(|_| {}));
        let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), bin: tcx.crate_types().iter().any(|t| format!("{t:?}") == "Executable") };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let ctypes: Vec<J> = tcx.crate_types().iter().map(|t| s(format!("{t:?}"))).collect();
        let mut items = vec![];
        let ev = tcx.effective_visibilities(());
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let env = TypingEnv::post_analysis(tcx, *ld);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let body: &mir::Body<'tcx> = if is_fn {
                if tcx.is_coroutine(d) { continue }
                tcx.optimized_mir(d)
            } else if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                tcx.mir_for_ctfe(d)
            } else { continue };
            let span = tcx.def_span(d);
            let mut o = vec![("id", s(cx.id(d))), ("name", s(cx.name(d))), ("kind", s(format!("{kind:?}"))),
                ("file", cx.file(span)), ("line", cx.line(span)), ("expn", J::B(span.from_expansion()))];
            if kind != DefKind::Closure {
                o.push(("pub", J::B(tcx.visibility(d).is_public())));
                o.push(("reach", J::B(ev.is_reachable(*ld))));
                o.push(("item", s(tcx.item_name(d).to_string())));
            }
            o.push(("parent", s(cx.id(tcx.parent(d)))));
            if matches!(kind, DefKind::AssocFn | DefKind::AssocConst { .. }) {
                let p = tcx.parent(d);
                if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let sti = cx.ty(st);
                    o.push(("self", u(sti)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(cx.name(tr.def_id))));
                        let ta = cx.args(tr.args);
                        o.push(("targs", ta));
                    }
                } else if let DefKind::Trait = tcx.def_kind(p) {
                    o.push(("intrait", s(cx.name(p))));
                }
            }
            let g = tcx.generics_of(d);
            let mut gs = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                gs.push(s(p.name.to_string()));
            }
            o.push(("generics", J::A(gs)));
            let b = cx.body(body, env);
            o.push(("body", b));
            if is_fn || true {
                let pm = tcx.promoted_mir(d);
                let v = pm.iter().map(|b| cx.body(b, env)).collect();
                o.push(("promoted", J::A(v)));
            }
            items.push(J::O(o));
        }
        // ADTs, impls
        let mut adts = vec![];
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let ti = cx.ty(t);
                            fs.push(J::A(vec![s(f.name.to_string()), u(ti), J::B(f.vis.is_public())]));
                        }
                        let disc = if def.is_enum() { J::U(def.discriminant_for_variant(tcx, vi).val) } else { J::U(0) };
                        vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", disc), ("fields", J::A(fs)), ("ctor", s(format!("{:?}", v.ctor_kind())))]));
                    }
                    let sp = tcx.def_span(d);
                    adts.push(J::O(vec![("id", s(cx.id(d))), ("name", s(cx.name(d))), ("enum", J::B(def.is_enum())), ("pub", J::B(tcx.visibility(d).is_public())),
                        ("reach", J::B(ev.is_reachable(ld))),
                        ("file", cx.file(sp)), ("line", cx.line(sp)), ("variants", J::A(vs))]));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let sti = cx.ty(st);
                    let mut o = vec![("id", s(cx.id(d))), ("self", u(sti))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(cx.name(tr.def_id))));
                        let ta = cx.args(tr.args);
                        o.push(("targs", ta));
                    }
                    let it: Vec<DefId> = tcx.associated_item_def_ids(d).to_vec();
                    let v = it.into_iter().map(|x| s(cx.id(x))).collect();
                    o.push(("items", J::A(v)));
                    let sp = tcx.def_span(d);
                    o.push(("file", cx.file(sp))); o.push(("line", cx.line(sp)));
                    impls.push(J::O(o));
                }
                _ => {}
            }
        }
        // foreign ADTs referenced in types: variant tables (needed to interpret downcasts)
        let mut fadts = vec![];
        let mut seen = std::collections::HashSet::new();
        let all: Vec<Ty<'tcx>> = cx.tmap.keys().copied().collect();
        for t in all {
            if let ty::Adt(def, _) = t.kind() {
                if def.did().is_local() || !seen.insert(def.did()) { continue; }
                if !def.is_enum() && !def.is_struct() { continue; }
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let fs: Vec<J> = v.fields.iter().map(|f| J::A(vec![s(f.name.to_string()), J::N, J::B(f.vis.is_public())])).collect();
                    let disc = if def.is_enum() { J::U(def.discriminant_for_variant(tcx, vi).val) } else { J::U(0) };
                    vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", disc), ("fields", J::A(fs))]));
                }
                let idd = cx.id(def.did());
                fadts.push((idd.clone(), J::O(vec![("id", s(idd)), ("name", s(cx.name(def.did()))), ("enum", J::B(def.is_enum())), ("variants", J::A(vs))])));
            }
        }
        fadts.sort_by(|a, b| a.0.cmp(&b.0));
        let types = std::mem::take(&mut cx.types);
        let j = J::O(vec![("crate", s(krate)), ("types_", J::A(ctypes)), ("types", J::A(types)), ("items", J::A(items)),
            ("adts", J::A(adts)), ("impls", J::A(impls)), ("fadts", J::A(fadts.into_iter().map(|x| x.1).collect()))]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(&self.out, o).expect("write facts");
        let _ = std::panic::take_hook();
        Compilation::Continue
    }
}

struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let dir = std::env::var("MABO_FACTS_DIR").unwrap_or_default();
    let find = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let name = find("--crate-name");
    let ctype = find("--crate-type").unwrap_or("bin".into());
    let is_query = args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
    match name {
        Some(n) if !dir.is_empty() && !is_query && n != "___" && n != "build_script_build" => {
            args.push("-Zmir-opt-level=0".into());
            let out = format!("{dir}/{n}.{ctype}.json");
            let mut cb = Cb { out };
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        }
        _ => { rustc_driver::compiler_entrypoint(&args, &mut Nop); }
    }
}
