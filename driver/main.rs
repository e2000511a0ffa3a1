// Fact extractor: a rustc driver which dumps the type-checked program (MIR of every function of the
// crate under analysis, of every instance reachable from it inside an allow-list of library paths,
// the types involved, evaluated constants, resolved callees and trait implementations) as JSON.
// It decides nothing; the analyses in /verif/analysis read its output.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver_impl::Compilation;
use rustc_hir::def::{CtorOf, DefKind};
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_span::{Span, Symbol};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::HashMap;
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::I(x as i128) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

const ALLOW: &[&str] = &[
    "std::option::", "core::option::", "std::result::", "core::result::", "std::cmp::", "core::cmp::",
    "std::convert::", "core::convert::", "std::ops::", "core::ops::", "core::bool", "std::default", "core::default",
    "transiter::", "core::tuple", "std::tuple", "std::clone", "core::clone", "std::borrow", "core::borrow",
    "<std::option", "<std::result", "<std::cmp", "<std::ops", "std::iter::traits", "core::iter::traits",
];

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key<'tcx> { inst: Instance<'tcx>, root: Option<DefId> }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    insts: HashMap<Key<'tcx>, usize>,
    queue: Vec<Key<'tcx>>,
    types: HashMap<Ty<'tcx>, usize>,
    tqueue: Vec<Ty<'tcx>>,
    displays: HashMap<usize, usize>,
    troot: HashMap<usize, Option<DefId>>,
    cur: Option<DefId>,
    drops: HashMap<usize, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn env(&self, root: Option<DefId>) -> TypingEnv<'tcx> {
        match root {
            None => TypingEnv::fully_monomorphized(),
            Some(r) => TypingEnv::codegen(self.tcx, r),
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) { return *i; }
        let i = self.types.len();
        self.types.insert(t, i);
        self.troot.insert(i, self.cur);
        self.tqueue.push(t);
        i
    }
    fn inst(&mut self, inst: Instance<'tcx>, root: Option<DefId>) -> usize {
        let root = if inst.args.has_param() { root } else { None };
        let k = Key { inst, root };
        if let Some(i) = self.insts.get(&k) { return *i; }
        let i = self.insts.len();
        self.insts.insert(k, i);
        self.queue.push(k);
        i
    }
    fn path(&self, d: DefId) -> String { self.tcx.def_path_str(d) }
    fn cpath(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &loc.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            _ => String::new(),
        };
        J::A(vec![s(f), n(loc.line)])
    }
    fn wants_body(&self, inst: &Instance<'tcx>) -> bool {
        let d = match inst.def { InstanceKind::Item(d) => d, _ => return false };
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) { return false; }
        if d.is_local() { return self.tcx.is_mir_available(d); }
        if !self.tcx.is_mir_available(d) { return false; }
        let p = self.cpath(d);
        let q = self.path(d);
        ALLOW.iter().any(|a| p.starts_with(a) || q.starts_with(a))
    }

    /// Resolve a function item mentioned with substituted arguments
    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, root: Option<DefId>) -> J {
        let tcx = self.tcx;
        let env = self.env(root);
        let mut o: Vec<(&'static str, J)> = vec![("path", s(self.path(d))), ("cpath", s(self.cpath(d)))];
        let targs: Vec<J> = args.types().map(|t| n(self.ty(t))).collect();
        o.push(("args", J::A(targs)));
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let fnty = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().output().skip_binder();
            let vid = match of {
                CtorOf::Variant => tcx.parent(d),
                CtorOf::Struct => tcx.parent(d),
            };
            let mut vi = 0;
            if let ty::Adt(ad, _) = fnty.kind() {
                for (i, v) in ad.variants().iter_enumerated() { if v.def_id == vid || v.ctor_def_id() == Some(d) { vi = i.as_usize(); } }
            }
            o.push(("ctor", J::A(vec![n(self.ty(fnty)), n(vi)])));
            return J::O(o);
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
            o.push(("name", s(tcx.item_name(d).to_string())));
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
            match inst.def {
                InstanceKind::Item(id) => {
                    o.push(("rpath", s(self.path(id))));
                    o.push(("rcpath", s(self.cpath(id))));
                    o.push(("local", J::B(id.is_local())));
                    let ra: Vec<J> = inst.args.types().map(|t| n(self.ty(t))).collect();
                    o.push(("rargs", J::A(ra)));
                    if self.wants_body(&inst) {
                        let i = self.inst(inst, root);
                        o.push(("inst", n(i)));
                    }
                    self.hooks(id, &inst, root);
                }
                InstanceKind::Intrinsic(id) => { o.push(("intrinsic", s(self.path(id)))); }
                InstanceKind::Virtual(id, _) => { o.push(("virtual", s(self.path(id)))); }
                other => { o.push(("shim", s(format!("{:?}", other).chars().take(60).collect::<String>()))); }
            }
        }
        J::O(o)
    }

    /// Some library functions call trait methods of their type arguments; record those callees too.
    fn hooks(&mut self, id: DefId, inst: &Instance<'tcx>, root: Option<DefId>) {
        let p = self.path(id);
        let want = p.contains("new_display") || p.contains("to_string") || p.ends_with("Display>::fmt") || p.contains("Display");
        if want {
            let tys: Vec<Ty<'tcx>> = inst.args.types().collect();
            for t in tys { self.display_of(t, root); }
        }
    }
    fn display_of(&mut self, t: Ty<'tcx>, root: Option<DefId>) {
        let tcx = self.tcx;
        let mut t = t;
        loop {
            let id = self.ty(t);
            if self.displays.contains_key(&id) { return; }
            if let Some(tr) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Display")) {
                let m = tcx.associated_item_def_ids(tr)[0];
                let args = tcx.mk_args(&[t.into()]);
                if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env(root), m, args) {
                    if let InstanceKind::Item(d) = i.def {
                        if d.is_local() {
                            let x = self.inst(i, root);
                            self.displays.insert(id, x);
                            return;
                        }
                    }
                }
            }
            match t.kind() {
                ty::Ref(_, u, _) => t = *u,
                ty::Adt(_, a) if a.types().count() >= 1 => t = a.types().next().unwrap(),
                _ => return,
            }
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), n(f.as_usize()), n(self.ty(t))]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } =>
                    J::A(vec![s("c"), n(offset as usize), J::B(from_end), n(min_length as usize)]),
                ProjectionElem::Subslice { from, to, from_end } =>
                    J::A(vec![s("s"), n(from as usize), n(to as usize), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), n(v.as_usize())]),
                _ => s("?"),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(v)])
    }

    fn scalar_of(&mut self, bits: u128, t: Ty<'tcx>, size: u64) -> J {
        match t.kind() {
            ty::Bool => J::O(vec![("bool", J::B(bits != 0))]),
            ty::Char => J::O(vec![("char", J::I(bits as i128))]),
            ty::Int(_) => {
                let sh = 128 - size * 8;
                let v = if sh >= 128 { 0 } else { ((bits << sh) as i128) >> sh };
                J::O(vec![("int", s(v.to_string())), ("ty", n(self.ty(t)))])
            }
            ty::Float(_) => J::O(vec![("float", s(bits.to_string()))]),
            _ => J::O(vec![("int", s(bits.to_string())), ("ty", n(self.ty(t)))]),
        }
    }

    fn read_mem(&mut self, alloc: mir::interpret::AllocId, off: u64, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> Option<J> {
        if depth > 6 { return None; }
        let tcx = self.tcx;
        let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc) else { return None };
        let a = a.inner();
        let lay = tcx.layout_of(env.as_query_input(t)).ok()?;
        let size = lay.size.bytes();
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + size) as usize);
                let mut v: u128 = 0;
                for (i, x) in b.iter().enumerate() { v |= (*x as u128) << (8 * i); }
                Some(self.scalar_of(v, t, size))
            }
            ty::Array(e, len) => {
                let len = len.try_to_target_usize(tcx)?;
                let es = tcx.layout_of(env.as_query_input(*e)).ok()?.size.bytes();
                if e.kind() == &ty::Uint(ty::UintTy::U8) {
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                    return Some(J::O(vec![("bytes", J::A(b.iter().map(|x| n(*x as usize)).collect()))]));
                }
                let mut v = vec![];
                for i in 0..len { v.push(self.read_mem(alloc, off + i * es, *e, env, depth + 1)?); }
                Some(J::O(vec![("array", J::A(v))]))
            }
            ty::Ref(_, inner, _) => {
                let ptr = a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(off))?;
                let target = ptr.alloc_id();
                let rd = |o: u64| {
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + 8) as usize);
                    let mut v = 0u64;
                    for (i, x) in b.iter().enumerate() { v |= (*x as u64) << (8 * i); }
                    v
                };
                let toff = rd(off);
                match inner.kind() {
                    ty::Str => {
                        let len = rd(off + 8);
                        self.read_str(target, toff, len)
                    }
                    ty::Slice(e) => {
                        let len = rd(off + 8);
                        let arr = Ty::new_array(tcx, *e, len);
                        self.read_mem(target, toff, arr, env, depth + 1)
                    }
                    _ => self.read_mem(target, toff, *inner, env, depth + 1),
                }
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, e) in ts.iter().enumerate() {
                    let fo = lay.fields.offset(i).bytes();
                    v.push(self.read_mem(alloc, off + fo, e, env, depth + 1)?);
                }
                Some(J::O(vec![("tuple", J::A(v))]))
            }
            _ => None,
        }
    }
    fn read_str(&mut self, alloc: mir::interpret::AllocId, off: u64, len: u64) -> Option<J> {
        let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc) else { return None };
        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
        Some(J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))]))
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, owner: usize, root: Option<DefId>, sp: Span) -> J {
        let tcx = self.tcx;
        let env = self.env(root);
        let t = c.ty();
        match t.kind() {
            ty::FnDef(d, a) => return J::O(vec![("fn", self.fnref(*d, a.no_bound_vars().unwrap(), root)), ("ty", n(self.ty(t)))]),
            _ => {}
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return J::O(vec![("promoted", n(p.as_usize())), ("owner", n(owner)), ("ty", n(self.ty(t)))]);
            }
        }
        let tid = self.ty(t);
        let val = match c.eval(tcx, env, sp) { Ok(v) => v, Err(_) => {
            return J::O(vec![("opaque", s(format!("{}", c))), ("ty", n(tid))]) } };
        let r = match val {
            ConstValue::ZeroSized => Some(J::O(vec![("zst", n(tid))])),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size().bytes();
                match t.kind() {
                    ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => Some(self.scalar_of(i.to_bits(i.size()), t, size)),
                    _ => None,
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match t.kind() {
                    ty::Ref(_, inner, _) => self.read_mem(prov.alloc_id(), off.bytes(), *inner, env, 0),
                    _ => None,
                }
            }
            ConstValue::Slice { alloc_id, meta } => match t.kind() {
                ty::Ref(_, inner, _) => match inner.kind() {
                    ty::Str => self.read_str(alloc_id, 0, meta),
                    ty::Slice(e) => { let arr = Ty::new_array(tcx, *e, meta); self.read_mem(alloc_id, 0, arr, env, 0) }
                    _ => None,
                },
                _ => None,
            },
            ConstValue::Indirect { alloc_id, offset } => self.read_mem(alloc_id, offset.bytes(), t, env, 0),
        };
        if let Some(J::O(mut v)) = r { v.push(("cty", n(tid))); return J::O(v); }
        // enums and structs
        // (not those made of a pointer only: the compiler cannot take them apart)
        let pointer = matches!(val, ConstValue::Scalar(mir::interpret::Scalar::Ptr(..)));
        let parts = if pointer { None } else { tcx.try_destructure_mir_constant_for_user_output(val, t) };
        if let Some(d) = parts {
            if let Some(vi) = d.variant {
                let mut fs = vec![];
                for (v, ft) in d.fields.iter() {
                    let cc = mir::Const::Val(*v, *ft);
                    fs.push(self.constant(&cc, owner, root, sp));
                }
                return J::O(vec![("adt", n(tid)), ("variant", n(vi.as_usize())), ("fields", J::A(fs))]);
            }
        }
        J::O(vec![("opaque", s(format!("{}", c))), ("ty", n(tid))])
    }

    fn operand(&mut self, o: &Operand<'tcx>, owner: usize, root: Option<DefId>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("const"), self.constant(&c.const_, owner, root, c.span)]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("runtime")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &mir::Body<'tcx>, owner: usize, root: Option<DefId>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o, owner, root)]),
            Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(tcx).map(|x| n(x as usize)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), self.operand(o, owner, root), l])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, mir::BorrowKind::Mut { .. });
                let t = p.ty(&body.local_decls, tcx).ty;
                J::A(vec![s("ref"), J::B(m), self.place(p), n(self.ty(t))])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), J::B(true), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(o, owner, root), n(self.ty(*t)), n(self.ty(from))])
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, tcx);
                J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(&b.0, owner, root), self.operand(&b.1, owner, root), n(self.ty(t))])
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&body.local_decls, tcx);
                J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(o, owner, root), n(self.ty(t))])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                J::A(vec![s("discr"), self.place(p), n(self.ty(t))])
            }
            Rvalue::Aggregate(k, ops) => {
                let t = r.ty(&body.local_decls, tcx);
                let fs: Vec<J> = ops.iter().map(|o| self.operand(o, owner, root)).collect();
                let tid = n(self.ty(t));
                match &**k {
                    mir::AggregateKind::Array(_) => J::A(vec![s("array"), J::A(fs), tid]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tuple"), J::A(fs), tid]),
                    mir::AggregateKind::Adt(_, v, _, _, _) => J::A(vec![s("adt"), tid, n(v.as_usize()), J::A(fs)]),
                    mir::AggregateKind::Closure(d, a) => {
                        let i = self.closure_inst(*d, a, root);
                        J::A(vec![s("closure"), tid, i, J::A(fs)])
                    }
                    _ => J::A(vec![s("other"), s(format!("{:?}", k)), J::A(fs)]),
                }
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p)])]),
            #[allow(unreachable_patterns)]
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }

    fn closure_inst(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, root: Option<DefId>) -> J {
        let inst = Instance::new_raw(d, a);
        if self.wants_body(&inst) { n(self.inst(inst, root)) } else { J::Null }
    }

    fn body(&mut self, body: &mir::Body<'tcx>, owner: usize, root: Option<DefId>) -> Vec<(&'static str, J)> {
        self.cur = root;
        let tcx = self.tcx;
        let locals: Vec<J> = body.local_decls.iter().map(|l| n(self.ty(l.ty))).collect();
        let names: Vec<J> = body.var_debug_info.iter().filter_map(|v| match &v.value {
            mir::VarDebugInfoContents::Place(p) if p.projection.is_empty() => Some(J::A(vec![n(p.local.as_usize()), s(v.name.to_string())])),
            _ => None,
        }).collect();
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1, body, owner, root);
                        st.push(J::A(vec![s("="), p, r, self.line(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setdiscr"), p, n(variant_index.as_usize())]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, tcx);
                    let mut v = vec![];
                    for (val, b) in targets.iter() { v.push(J::A(vec![s(val.to_string()), n(b.as_usize())])); }
                    J::A(vec![s("switch"), self.operand(discr, owner, root), J::A(v), n(targets.otherwise().as_usize()), n(self.ty(ty))])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("unwind")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    self.drop_of(t, root);
                    J::A(vec![s("drop"), self.place(place), n(target.as_usize()), n(self.ty(t))])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fj = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(d, a) => self.fnref(*d, a.no_bound_vars().unwrap(), root),
                            _ => J::O(vec![("val", self.operand(func, owner, root))]),
                        },
                        _ => J::O(vec![("val", self.operand(func, owner, root))]),
                    };
                    let aj: Vec<J> = args.iter().map(|x| self.operand(&x.node, owner, root)).collect();
                    let at: Vec<J> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); n(self.ty(t)) }).collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    J::A(vec![s("call"), fj, J::A(aj), self.place(destination),
                        target.map(|x| n(x.as_usize())).unwrap_or(J::Null), n(self.ty(dt)), line, J::A(at)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    J::A(vec![s("assert"), self.operand(cond, owner, root), J::B(*expected), s(m.chars().take(80).collect::<String>()), n(target.as_usize()), line])
                }
                other => J::A(vec![s("other"), s(format!("{:?}", other))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("cleanup", J::B(bb.is_cleanup))]));
        }
        vec![("argc", n(body.arg_count)), ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks)), ("span", self.span(body.span))]
    }
    fn drop_of(&mut self, t: Ty<'tcx>, root: Option<DefId>) {
        let tcx = self.tcx;
        if let ty::Adt(ad, a) = t.kind() {
            if ad.did().is_local() {
                if let Some(d) = tcx.adt_destructor(ad.did()) {
                    let id = self.ty(t);
                    if self.drops.contains_key(&id) { return; }
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env(root), d.did, a) {
                        let x = self.inst(i, root);
                        self.drops.insert(id, x);
                    }
                }
            }
        }
    }
    fn line(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        n(self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line)
    }

    fn tyinfo(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(format!("{}", t)))];
        if !t.has_escaping_bound_vars() && !t.has_aliases() && !t.has_param() {
            let env = TypingEnv::fully_monomorphized();
            if !t.is_freeze(tcx, env) { o.push(("freeze", J::B(false))); }
            for (name, key) in [("Send", "send"), ("Sync", "sync")] {
                let Some(tr) = tcx.get_diagnostic_item(Symbol::intern(name)) else { continue };
                let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
                if !infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions() { o.push((key, J::B(false))); }
            }
        }
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Ref(_, u, m) => { o.push(("k", s("ref"))); o.push(("mut", J::B(m.is_mut()))); o.push(("of", n(self.ty(*u)))); }
            ty::RawPtr(u, _) => { o.push(("k", s("ptr"))); o.push(("of", n(self.ty(*u)))); }
            ty::Slice(u) => { o.push(("k", s("slice"))); o.push(("of", n(self.ty(*u)))); }
            ty::Array(u, l) => {
                o.push(("k", s("array"))); o.push(("of", n(self.ty(*u))));
                if let Some(l) = l.try_to_target_usize(tcx) { o.push(("len", n(l as usize))); }
            }
            ty::Tuple(ts) => { o.push(("k", s("tuple"))); let v = ts.iter().map(|x| n(self.ty(x))).collect(); o.push(("of", J::A(v))); }
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("name", s(p.name.to_string()))); }
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                let root = self.cur;
                let j = self.fnref(*d, a.no_bound_vars().unwrap(), root); o.push(("fn", j));
            }
            ty::Closure(d, a) => {
                o.push(("k", s("closure"))); o.push(("path", s(self.path(*d)))); o.push(("cpath", s(self.cpath(*d))));
                let root = self.cur;
                let j = self.closure_inst(*d, a, root); o.push(("inst", j));
                let up: Vec<J> = a.as_closure().upvar_tys().iter().map(|x| n(self.ty(x))).collect();
                o.push(("upvars", J::A(up)));
            }
            ty::Adt(ad, a) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(ad.did()))));
                o.push(("local", J::B(ad.did().is_local())));
                o.push(("enum", J::B(ad.is_enum())));
                let targs: Vec<J> = a.types().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(targs)));
                let p = self.path(ad.did());
                let detail = ad.did().is_local() || ad.is_enum() || p.starts_with("nom::") || p.contains("transiter");
                if detail && !ad.is_union() {
                    let env = self.env(self.cur);
                    let mut vs = vec![];
                    for (i, v) in ad.variants().iter_enumerated() {
                        let d = if ad.is_enum() { ad.discriminant_for_variant(tcx, i).val } else { 0 };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = tcx.try_normalize_erasing_regions(env, f.ty(tcx, a)).unwrap_or_else(|_| f.ty(tcx, a).skip_norm_wip());
                            let vis = f.vis.is_public();
                            fs.push(J::A(vec![s(f.name.to_string()), n(self.ty(ft)), J::B(vis)]));
                        }
                        vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", s(d.to_string())), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }
}

struct Unsafe<'tcx> { tcx: TyCtxt<'tcx>, found: Vec<(&'static str, Span)> }
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.found.push(("block", b.span));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        match &i.kind {
            rustc_hir::ItemKind::Impl(m) => if m.of_trait.is_some() && !self.tcx.is_automatically_derived(i.owner_id.to_def_id()) {
                let h = self.tcx.impl_trait_header(i.owner_id);
                if matches!(h.safety, rustc_hir::Safety::Unsafe) { self.found.push(("impl", i.span)); }
            },
            rustc_hir::ItemKind::ForeignMod { .. } => self.found.push(("foreign", i.span)),
            _ => (),
        }
        rustc_hir::intravisit::walk_item(self, i);
    }
}

struct Cb { out: String }
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let text = rustc_middle::ty::print::with_no_trimmed_paths!(run(tcx));
        std::fs::write(&self.out, text).unwrap();
        Compilation::Continue
    }
}

fn run<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut cx = Cx { tcx, insts: HashMap::new(), queue: vec![], types: HashMap::new(), tqueue: vec![], displays: HashMap::new(), troot: HashMap::new(), cur: None, drops: HashMap::new() };
    let ev = tcx.effective_visibilities(());
    let mut items = vec![];
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) { continue; }
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let inst = Instance::new_raw(d, args);
        let root = if args.has_param() { Some(d) } else { None };
        cx.cur = root;
        let id = cx.inst(inst, root);
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        let sig = tcx.liberate_late_bound_regions(d, sig);
        let sig = tcx.erase_and_anonymize_regions(sig);
        let env = cx.env(root);
        let ins: Vec<J> = sig.inputs().iter().map(|t| { let t = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(*t)).unwrap_or(*t); n(cx.ty(t)) }).collect();
        let out = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(sig.output())).unwrap_or(sig.output());
        let mut o: Vec<(&'static str, J)> = vec![("path", s(cx.path(d))), ("cpath", s(cx.cpath(d))), ("inst", n(id)), ("name", s(tcx.item_name(d).to_string())),
            ("span", cx.span(tcx.def_span(d))), ("inputs", J::A(ins)), ("output", n(cx.ty(out))),
            ("public", J::B(ev.is_exported(ld))), ("vispub", J::B(tcx.visibility(d).is_public())),
            ("unsafe", J::B(!sig.safety().is_safe())), ("generic", J::B(root.is_some()))];
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("self", n(cx.ty(st))));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", s(cx.path(tr.def_id))));
                let ta: Vec<J> = tr.args.types().map(|t| n(cx.ty(t))).collect();
                o.push(("targs", J::A(ta)));
            }
        } else if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("deftrait", s(cx.path(t))));
        }
        items.push(J::O(o));
    }
    // impls
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Impl { .. }) { continue; }
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        cx.cur = if args.has_param() { Some(d) } else { None };
        let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let tid = cx.ty(st);
        let mut o: Vec<(&'static str, J)> = vec![("self", n(tid)), ("span", cx.span(tcx.def_span(d)))];
        if let Some(tr) = tcx.impl_opt_trait_ref(d) {
            let tr = tr.instantiate_identity().skip_norm_wip();
            o.push(("trait", s(cx.path(tr.def_id))));
            o.push(("derived", J::B(tcx.is_automatically_derived(d))));
        }
        impls.push(J::O(o));
    }
    // statics and other global items
    let mut globals = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
            globals.push(J::O(vec![("path", s(cx.path(d))), ("mut", J::B(mutability.is_mut())), ("span", cx.span(tcx.def_span(d))),
                ("ty", { cx.cur = None; let t = tcx.type_of(d).instantiate_identity().skip_norm_wip(); n(cx.ty(t)) }),
                ("local", J::B(tcx.is_thread_local_static(d)))]));
        }
    }
    // public ADTs
    let mut adts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            cx.cur = if args.has_param() { Some(d) } else { None };
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let tid = cx.ty(t);
            adts.push(J::O(vec![("generic", J::B(args.types().next().is_some())), ("path", s(cx.path(d))), ("ty", n(tid)), ("public", J::B(ev.is_reachable(id))), ("span", cx.span(tcx.def_span(d)))]));
        }
    }
    // unsafe code
    let mut uv = Unsafe { tcx, found: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut uv);
    let mut unsafes: Vec<J> = vec![];
    for (what, sp) in std::mem::take(&mut uv.found) { unsafes.push(J::A(vec![s(what), cx.span(sp)])); }
    let mut bodies: Vec<(usize, J)> = vec![];
    let mut tinfo: Vec<(usize, J)> = vec![];
    loop {
        if let Some(k) = cx.queue.pop() {
            let i = cx.insts[&k];
            let InstanceKind::Item(d) = k.inst.def else { continue };
            cx.cur = k.root;
            let root = k.root;
            let env = cx.env(root);
            let mut o: Vec<(&'static str, J)> = vec![("id", n(i)), ("path", s(cx.path(d))), ("cpath", s(cx.cpath(d))), ("local", J::B(d.is_local())),
                ("closure", J::B(tcx.is_closure_like(d)))];
            let ta: Vec<J> = k.inst.args.types().map(|t| n(cx.ty(t))).collect();
            o.push(("args", J::A(ta)));
            if let Some(r) = root { o.push(("root", s(cx.path(r)))); }
            let mir = tcx.instance_mir(k.inst.def).clone();
            match k.inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, mir)) {
                Ok(b) => {
                    let bj = cx.body(&b, i, root);
                    o.extend(bj);
                    let proms = tcx.promoted_mir(d);
                    let mut ps = vec![];
                    for p in proms.iter() {
                        if let Ok(pb) = k.inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, p.clone())) {
                            let x = cx.body(&pb, i, root);
                            ps.push(J::O(x));
                        } else { ps.push(J::Null); }
                    }
                    o.push(("promoted", J::A(ps)));
                }
                Err(_) => { o.push(("error", s("normalize"))); }
            }
            bodies.push((i, J::O(o)));
        } else if let Some(t) = cx.tqueue.pop() {
            let i = cx.types[&t];
            cx.cur = cx.troot[&i];
            let j = cx.tyinfo(t);
            tinfo.push((i, j));
        } else { break; }
    }
    bodies.sort_by_key(|x| x.0);
    tinfo.sort_by_key(|x| x.0);
    let disp: Vec<J> = cx.displays.iter().map(|(a, b)| J::A(vec![n(*a), n(*b)])).collect();
    let drops: Vec<J> = cx.drops.iter().map(|(a, b)| J::A(vec![n(*a), n(*b)])).collect();
    let root = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("items", J::A(items)), ("impls", J::A(impls)), ("globals", J::A(globals)), ("unsafe", J::A(unsafes)), ("adts", J::A(adts)),
        ("displays", J::A(disp)), ("drops", J::A(drops)),
        ("types", J::A(tinfo.into_iter().map(|x| x.1).collect())),
        ("bodies", J::A(bodies.into_iter().map(|x| x.1).collect())),
    ]);
    let mut out = String::new();
    root.w(&mut out);
    out
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // called as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let out = std::env::var("FACTS_OUT").unwrap_or_default();
    let krate = std::env::var("FACTS_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == krate) && !args.iter().any(|a| a == "--test");
    if is_target && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Awarnings".into());
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        #[derive(Default)] struct N;
        impl rustc_driver_impl::Callbacks for N {}
        rustc_driver_impl::compiler_entrypoint(&args, &mut N);
    }
}
