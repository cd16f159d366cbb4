//! mirdump: a rustc wrapper that dumps the type-checked, resolved MIR of the crate it compiles
//! (plus the bodies of the generic std combinators it uses) as JSON.  It decides nothing itself.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar, ConstValue};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

#[derive(Clone)]
enum J { Null, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => { let _ = write!(o, "{b}"); }
            J::I(i) => { let _ = write!(o, "{i}"); }
            J::S(s) => esc(s, o),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(k, o); o.push(':'); x.w(o); } o.push('}'); }
        }
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::I(x as i128) }

macro_rules! full { ($e:expr) => { with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!($e))) } }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    tyj: Vec<J>,
    adts: HashMap<String, J>,
    queue: VecDeque<(String, Work<'tcx>)>,
    seen: std::collections::HashMap<String, DefId>,
}
#[derive(Clone, Copy)]
struct Work<'tcx> { inst: Instance<'tcx>, env: TypingEnv<'tcx>, root: Option<DefId>, promoted: Option<mir::Promoted> }

const STD_OK: &[&str] = &[
    "core::option::", "core::result::", "core::ops::control_flow", "core::ops::try_trait",
    "core::ops::function", "core::iter::", "core::bool::", "core::cmp::", "core::convert::",
    "core::mem::", "core::array::", "core::tuple::", "core::ops::range", "core::ops::bit", "core::ops::deref",
    "core::borrow::", "core::clone::", "core::default::", "core::ops::index",
];

fn std_ok(path: &str) -> bool {
    let p = path.trim_start_matches('<');
    if STD_OK.iter().any(|x| p.starts_with(x)) { return true; }
    // impl paths "<T as core::..>::f"
    if let Some(i) = path.find(" as ") { let r = &path[i + 4..]; return STD_OK.iter().any(|x| r.starts_with(x)) ; }
    false
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { full!(self.tcx.def_path_str(d)) }
    fn loc(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, l.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) { return i; }
        let i = self.tyj.len();
        self.types.insert(t, i);
        self.tyj.push(J::Null);
        let st = full!(t.to_string());
        let mut o = vec![("s", s(st))];
        match *t.kind() {
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                o.push(("k", s("adt"))); o.push(("def", s(p.clone())));
                if def.did().is_local() { o.push(("did", n(def.did().index.as_usize()))); }
                let a: Vec<J> = args.iter().filter_map(|x| x.as_type()).map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(a)));
                // field types, one level, for local and common types
                let mut vs = vec![];
                if !def.is_union() && (def.did().is_local() || def.all_fields().count() <= 16) {
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            fs.push(s(f.name.to_string()));
                        }
                        vs.push(J::O(vec![("n", s(v.name.to_string())), ("f", J::A(fs))]));
                    }
                }
                o.push(("vs", J::A(vs)));
                if def.is_enum() {
                    let ds: Vec<J> = def.discriminants(self.tcx).map(|(_, d)| J::I(d.val as i128)).collect();
                    o.push(("ds", J::A(ds)));
                }
                o.push(("enum", J::B(def.is_enum())));
            }
            ty::Ref(_, x, m) => { o.push(("k", s("ref"))); o.push(("to", n(self.ty(x)))); o.push(("mut", J::B(m.is_mut()))); }
            ty::RawPtr(x, _) => { o.push(("k", s("ptr"))); o.push(("to", n(self.ty(x)))); }
            ty::Tuple(l) => { let a: Vec<J> = l.iter().map(|x| n(self.ty(x))).collect(); o.push(("k", s("tuple"))); o.push(("args", J::A(a))); }
            ty::Slice(x) => { o.push(("k", s("slice"))); o.push(("to", n(self.ty(x)))); }
            ty::Array(x, c) => {
                o.push(("k", s("array"))); o.push(("to", n(self.ty(x))));
                if let Some(l) = c.try_to_target_usize(self.tcx) { o.push(("len", n(l as usize))); }
            }
            ty::Closure(d, _) => { o.push(("k", s("closure"))); o.push(("def", s(self.path(d)))); }
            ty::FnDef(d, _) => { o.push(("k", s("fndef"))); o.push(("def", s(self.path(d)))); }
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Int(x) => { o.push(("k", s("int"))); o.push(("signed", J::B(true))); o.push(("bits", n(x.bit_width().unwrap_or(64) as usize))); }
            ty::Uint(x) => { o.push(("k", s("int"))); o.push(("signed", J::B(false))); o.push(("bits", n(x.bit_width().unwrap_or(64) as usize))); }
            ty::Bool => o.push(("k", s("bool"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            _ => o.push(("k", s("other"))),
        }
        self.tyj[i] = J::O(o);
        i
    }

    fn has_params(&self, i: &Instance<'tcx>) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        i.args.has_param()
    }

    fn inst_key(&self, w: &Work<'tcx>) -> String {
        let mut k = full!(self.tcx.def_path_str_with_args(w.inst.def_id(), w.inst.args));
        if matches!(self.tcx.def_kind(w.inst.def_id()), DefKind::Closure) {
            let a = full!(format!("{:?}", w.inst.args));
            k = format!("{k}|{a}");
        }
        if let Some(r) = w.root { if r != w.inst.def_id() { k = format!("{k} @{}", self.path(r)); } }
        if let Some(p) = w.promoted { k = format!("{k} promoted[{}]", p.index()); }
        k
    }

    fn enqueue(&mut self, w: Work<'tcx>) -> String {
        // items of the same name in different blocks of one function print alike
        let base = self.inst_key(&w);
        let mut k = base.clone();
        let mut i = 1;
        loop {
            match self.seen.get(&k) {
                None => { self.seen.insert(k.clone(), w.inst.def_id()); self.queue.push_back((k.clone(), w)); return k; }
                Some(d) if *d == w.inst.def_id() => return k,
                Some(_) => { i += 1; k = format!("{base}#{i}"); }
            }
        }
    }

    /// Resolve a callee and enqueue its body when it should be dumped.
    fn callee(&mut self, w: &Work<'tcx>, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", s(self.path(did)))];
        let ga: Vec<J> = args.iter().filter_map(|x| x.as_type()).map(|x| n(self.ty(x))).collect();
        o.push(("ga", J::A(ga)));
        if let Some(t) = tcx.trait_of_assoc(did) { o.push(("trait", s(self.path(t)))); }
        // Fn* calls on closures / fn items: go straight to the callable
        if let Some(t) = tcx.trait_of_assoc(did) {
            if tcx.fn_trait_kind_from_def_id(t).is_some() {
                let st = args.type_at(0);
                let mut inner = st; let mut derefs = 0;
                while let ty::Ref(_, x, _) = *inner.kind() { inner = x; derefs += 1; }
                o.push(("fnself_derefs", n(derefs)));
                match *inner.kind() {
                    ty::Closure(cd, cargs) => {
                        let ci = Instance { def: InstanceKind::Item(cd), args: cargs };
                        let k = self.maybe_body(w, ci);
                        o.push(("closure", J::B(true)));
                        o.push(("rpath", s(self.path(cd))));
                        // does the closure body take self by ref?
                        let ck = cargs.as_closure().kind();
                        o.push(("byref", J::B(!matches!(ck, ty::ClosureKind::FnOnce))));
                        if let Some(k) = k { o.push(("inst", s(k))); }
                        return J::O(o);
                    }
                    ty::FnDef(fd, fargs) => {
                        let fargs = tcx.erase_and_anonymize_regions(fargs);
                        let inner = self.callee(w, fd, fargs.no_bound_vars().unwrap_or_else(|| fargs.skip_binder()));
                        o.push(("fndef", inner));
                        return J::O(o);
                    }
                    _ => return J::O(o),
                }
            }
        }
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            // constructors used as functions
            if let DefKind::Ctor(of, _) = tcx.def_kind(did) {
                let parent = tcx.parent(did);
                let (adt, var) = match of {
                    rustc_hir::def::CtorOf::Struct => (parent, 0usize),
                    rustc_hir::def::CtorOf::Variant => { let a = tcx.parent(parent); (a, tcx.adt_def(a).variant_index_with_ctor_id(did).index()) }
                };
                o.push(("ctor", s(self.path(adt)))); o.push(("variant", n(var)));
                let aty = tcx.type_of(adt).instantiate(tcx, args).skip_norm_wip();
                let aty = tcx.try_normalize_erasing_regions(w.env, ty::Unnormalized::new_wip(aty)).unwrap_or(aty);
                o.push(("ty", n(self.ty(aty))));
            }
            return J::O(o);
        }
        match Instance::try_resolve(tcx, w.env, did, args) {
            Ok(Some(i)) => {
                match i.def {
                    InstanceKind::Item(d) => {
                        o.push(("rpath", s(self.path(d))));
                        let ra: Vec<J> = i.args.iter().filter_map(|x| x.as_type()).map(|x| n(self.ty(x))).collect();
                        o.push(("rga", J::A(ra)));
                        if let Some(k) = self.maybe_body(w, i) { o.push(("inst", s(k))); }
                    }
                    InstanceKind::Intrinsic(d) => { o.push(("rpath", s(self.path(d)))); o.push(("kind", s("intrinsic"))); }
                    InstanceKind::Virtual(..) => o.push(("kind", s("virtual"))),
                    ref x => o.push(("kind", s(format!("{:?}", x)))),
                }
            }
            _ => o.push(("kind", s("unresolved"))),
        }
        let sig = tcx.fn_sig(did).skip_binder();
        if sig.safety().is_unsafe() { o.push(("unsafe", J::B(true))); }
        J::O(o)
    }

    fn maybe_body(&mut self, w: &Work<'tcx>, i: Instance<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let d = i.def_id();
        if !matches!(i.def, InstanceKind::Item(_)) { return None; }
        let p = self.path(d);
        if !d.is_local() {
            if !std_ok(&p) { return None; }
            if !tcx.is_mir_available(d) { return None; }
        }
        if tcx.is_foreign_item(d) { return None; }
        let hp = self.has_params(&i);
        let root = if hp { w.root } else { None };
        let env = if hp { w.env } else { TypingEnv::fully_monomorphized() };
        // A local generic fn called with identical identity args is still keyed by root.
        Some(self.enqueue(Work { inst: i, env, root, promoted: None }))
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![n(p.local.index())];
        for e in p.projection.iter() {
            use mir::ProjectionElem::*;
            v.push(match e {
                Deref => s("*"),
                Field(f, t) => J::A(vec![s("f"), n(f.index()), n(self.ty(t))]),
                Index(l) => J::A(vec![s("i"), n(l.index())]),
                ConstantIndex { offset, from_end, min_length } => J::A(vec![s("c"), J::I(offset as i128), J::B(from_end), J::I(min_length as i128)]),
                Subslice { from, to, from_end } => J::A(vec![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                Downcast(_, v) => J::A(vec![s("d"), n(v.index())]),
                OpaqueCast(_) | UnwrapUnsafeBinder(_) | PhantomDeref => s("cast"),
            });
        }
        J::A(v)
    }

    fn constval(&mut self, w: &Work<'tcx>, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tid = self.ty(t);
        if depth > 6 { return J::O(vec![("k", s("opaque")), ("ty", n(tid))]); }
        match *t.kind() {
            ty::FnDef(d, a) => {
                let a = tcx.erase_and_anonymize_regions(a);
                let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                let c = self.callee(w, d, a);
                return J::O(vec![("k", s("fn")), ("f", c), ("ty", n(tid))]);
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(si) = v.try_to_scalar_int() {
                    let bits = si.to_bits(si.size());
                    let val: i128 = if t.is_signed() { si.size().sign_extend(bits) } else { bits as i128 };
                    return J::O(vec![("k", s("int")), ("v", J::I(val)), ("ty", n(tid))]);
                }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        if let Ok(l) = tcx.layout_of(w.env.as_query_input(t)) {
                            if let Ok(sc) = m.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, l.size), false) {
                                if let Ok(si) = sc.try_to_scalar_int() {
                                    let bits = si.to_bits(si.size());
                                    let val: i128 = if t.is_signed() { si.size().sign_extend(bits) } else { bits as i128 };
                                    return J::O(vec![("k", s("int")), ("v", J::I(val)), ("ty", n(tid))]);
                                }
                            }
                        }
                    }
                }
            }
            ty::Ref(_, inner, _) => {
                match *inner.kind() {
                    ty::Str => if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(b).into_owned())), ("ty", n(tid))]);
                    },
                    ty::Slice(e) if e == tcx.types.u8 => if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::O(vec![("k", s("bytes")), ("v", J::A(b.iter().map(|x| J::I(*x as i128)).collect())), ("ty", n(tid))]);
                    },
                    _ => {
                        let ptr = match v {
                            ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
                            ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                                GlobalAlloc::Memory(m) => m.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, tcx.data_layout.pointer_size()), true).ok()
                                    .and_then(|x| match x { Scalar::Ptr(p, _) => Some(p), _ => None }),
                                _ => None,
                            },
                            _ => None,
                        };
                        if let Some(p) = ptr {
                            let (prov, off) = p.prov_and_relative_offset();
                            let aid = prov.alloc_id();
                            if let GlobalAlloc::Memory(_) = tcx.global_alloc(aid) {
                                if inner.is_sized(tcx, w.env) {
                                    let x = self.constval(w, ConstValue::Indirect { alloc_id: aid, offset: off }, inner, depth + 1);
                                    return J::O(vec![("k", s("ref")), ("v", x), ("ty", n(tid))]);
                                }
                            }
                        }
                    }
                }
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                use rustc_middle::ty::TypeVisitableExt;
                let small = match *t.kind() { ty::Array(_, c) => c.try_to_target_usize(tcx).map_or(false, |l| l <= 128), ty::Adt(d, _) => !d.is_union(), _ => true };
                if small && !t.has_param() {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fs: Vec<J> = d.fields.iter().map(|(cv, ct)| self.constval(w, *cv, *ct, depth + 1)).collect();
                        return J::O(vec![("k", s("adt")), ("ty", n(tid)), ("var", d.variant.map_or(J::I(0), |x| n(x.index()))), ("f", J::A(fs))]);
                    }
                }
            }
            ty::Closure(..) => return J::O(vec![("k", s("adt")), ("ty", n(tid)), ("var", J::I(0)), ("f", J::A(vec![]))]),
            _ => {}
        }
        J::O(vec![("k", s("opaque")), ("ty", n(tid))])
    }

    fn operand(&mut self, w: &Work<'tcx>, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![s("cp"), self.place(p)]),
            mir::Operand::Move(p) => J::A(vec![s("mv"), self.place(p)]),
            mir::Operand::Constant(c) => J::A(vec![s("k"), self.konst(w, &c.const_, c.span)]),
            mir::Operand::RuntimeChecks(_) => J::A(vec![s("k"), J::O(vec![("k", s("int")), ("v", J::I(1)), ("ty", n(self.ty(self.tcx.types.bool)))])]),
        }
    }

    fn konst(&mut self, w: &Work<'tcx>, c: &mir::Const<'tcx>, sp: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                // prefer the evaluated form; fall back to the promoted's body
                use rustc_middle::ty::TypeVisitableExt;
                if !u.args.has_param() {
                    if let Ok(v) = c.eval(tcx, w.env, sp) {
                        let j = self.constval(w, v, t, 0);
                        if !has_opaque(&j) { return j; }
                    }
                }
                let i = Instance { def: InstanceKind::Item(u.def), args: u.args };
                let k = self.enqueue(Work { inst: i, env: w.env, root: w.root, promoted: Some(p) });
                return J::O(vec![("k", s("promoted")), ("inst", s(k)), ("ty", n(self.ty(t)))]);
            }
            let name = self.path(u.def);
            let mut r = match c.eval(tcx, w.env, sp) {
                Ok(v) => self.constval(w, v, t, 0),
                Err(_) => J::O(vec![("k", s("opaque")), ("ty", n(self.ty(t)))]),
            };
            if let J::O(ref mut o) = r { o.push(("name", s(name))); }
            return r;
        }
        match c.eval(tcx, w.env, sp) {
            Ok(v) => self.constval(w, v, t, 0),
            Err(_) => { let st = full!(format!("{}", c)); J::O(vec![("k", s("opaque")), ("name", s(st)), ("ty", n(self.ty(t)))]) }
        }
    }

    fn rvalue(&mut self, w: &Work<'tcx>, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => J::A(vec![s("use"), self.operand(w, o)]),
            Repeat(o, c) => { let l = c.try_to_target_usize(self.tcx); J::A(vec![s("repeat"), self.operand(w, o), l.map_or(J::Null, |x| n(x as usize))]) }
            Ref(_, k, p) => J::A(vec![s("ref"), J::B(matches!(k, mir::BorrowKind::Mut { .. })), self.place(p)]),
            RawPtr(k, p) => J::A(vec![s("raw"), J::B(matches!(k, mir::RawPtrKind::Mut)), self.place(p)]),
            Cast(k, o, t) => { let ks = format!("{:?}", k); J::A(vec![s("cast"), s(ks), self.operand(w, o), n(self.ty(*t))]) }
            BinaryOp(b, ops) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.operand(w, &ops.0), self.operand(w, &ops.1)]),
            UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(w, o)]),
            Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Aggregate(k, fs) => {
                let f: Vec<J> = fs.iter().map(|x| self.operand(w, x)).collect();
                let kj = match **k {
                    mir::AggregateKind::Array(t) => J::A(vec![s("array"), n(self.ty(t))]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    mir::AggregateKind::Adt(d, v, a, _, af) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, a).skip_norm_wip();
                        let t = self.tcx.erase_and_anonymize_regions(t);
                        J::A(vec![s("adt"), n(self.ty(t)), n(v.index()), af.map_or(J::Null, |x| n(x.index()))])
                    }
                    mir::AggregateKind::Closure(d, a) => {
                        let ci = Instance { def: InstanceKind::Item(d), args: a };
                        let key = self.maybe_body(w, ci);
                        J::A(vec![s("closure"), s(self.path(d)), key.map_or(J::Null, s)])
                    }
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(f)])
            }
            CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p)])]),
            Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), self.place(p)]),
            ThreadLocalRef(_) => J::A(vec![s("opaque"), s("tls")]),
            WrapUnsafeBinder(..) => J::A(vec![s("opaque"), s("binder")]),
        }
    }

    fn body(&mut self, key: &str, w: &Work<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let did = w.inst.def_id();
        let raw: &mir::Body<'tcx> = match w.promoted {
            Some(p) => &tcx.promoted_mir(did)[p],
            None => tcx.instance_mir(w.inst.def),
        };
        let b: mir::Body<'tcx> = match w.inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, w.env, ty::EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => return None,
        };
        let locals: Vec<J> = b.local_decls.iter().map(|l| n(self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value { let pj = self.place(&p); names.push(J::A(vec![s(v.name.to_string()), pj])); }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                use mir::StatementKind::*;
                let j = match &x.kind {
                    Assign(a) => { let p = self.place(&a.0); let r = self.rvalue(w, &a.1); J::A(vec![s("="), p, r, self.loc(x.source_info.span)]) }
                    SetDiscriminant { place, variant_index } => J::A(vec![s("sd"), self.place(place), n(variant_index.index())]),
                    StorageDead(l) => J::A(vec![s("dead"), n(l.index())]),
                    StorageLive(l) => J::A(vec![s("live"), n(l.index())]),
                    Intrinsic(i) => J::A(vec![s("intr"), s(format!("{:?}", i))]),
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            use mir::TerminatorKind::*;
            let tj = match &t.kind {
                Goto { target, .. } => J::A(vec![s("goto"), n(target.index())]),
                SwitchInt { discr, targets } => {
                    let d = self.operand(w, discr);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dt = self.ty(dt);
                    J::A(vec![s("switch"), d, J::A(targets.iter().map(|(v, t)| J::A(vec![J::I(v as i128), n(t.index())])).collect()), n(targets.otherwise().index()), n(dt)])
                }
                Return => J::A(vec![s("ret")]),
                Unreachable => J::A(vec![s("unreachable")]),
                Drop { place, target, .. } => J::A(vec![s("drop"), self.place(place), n(target.index())]),
                Call { func, args, destination, target, .. } => {
                    let f = self.operand(w, func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(w, &x.node)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    J::A(vec![s("call"), f, J::A(a), d, target.map_or(J::Null, |t| n(t.index())), n(self.ty(dt))])
                }
                Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(w, cond);
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(w, len), self.operand(w, index)]),
                        mir::AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![self.operand(w, a), self.operand(w, b)]),
                        mir::AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(w, a)]),
                        mir::AssertKind::DivisionByZero(a) | mir::AssertKind::RemainderByZero(a) => ("divzero".into(), vec![self.operand(w, a)]),
                        _ => ("other".into(), vec![]),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), s(k), J::A(ops), n(target.index())])
                }
                FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.index())]),
                FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.index())]),
                UnwindResume | UnwindTerminate(_) => J::A(vec![s("unwind")]),
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("l", self.loc(t.source_info.span)), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let span = self.loc(tcx.def_span(did));
        let mut o = vec![
            ("key", s(key)), ("path", s(self.path(did))), ("local", J::B(did.is_local())),
            ("argc", n(b.arg_count)), ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks)), ("span", span),
            ("closure", J::B(matches!(tcx.def_kind(did), DefKind::Closure))),
        ];
        if matches!(tcx.def_kind(did), DefKind::Closure) { o.push(("parent", s(self.path(tcx.typeck_root_def_id(did))))); }
        let params = self.has_params(&w.inst);
        o.push(("generic", J::B(params)));
        if b.spread_arg.is_some() { o.push(("spread", J::B(true))); }
        Some(J::O(o))
    }
}

fn has_opaque(j: &J) -> bool {
    match j { J::O(o) => o.iter().any(|(k, v)| (*k == "k" && matches!(v, J::S(x) if x == "opaque")) || has_opaque(v)), J::A(a) => a.iter().any(has_opaque), _ => false }
}

/// unsafe blocks written in the crate
struct Uns<'t> { tcx: TyCtxt<'t>, found: Vec<(Span, DefId)>, cur: Vec<DefId> }
impl<'t> rustc_hir::intravisit::Visitor<'t> for Uns<'t> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'t> { self.tcx }
    fn visit_block(&mut self, b: &'t rustc_hir::Block<'t>) {
        if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided)) {
            let owner = b.hir_id.owner.to_def_id();
            self.found.push((b.span, owner));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb { out: String }
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let mut cx = Cx { tcx, types: HashMap::new(), tyj: vec![], adts: HashMap::new(), queue: VecDeque::new(), seen: std::collections::HashMap::new() };
        let eff = tcx.effective_visibilities(());
        let mut items = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let reach = eff.is_reachable(ld);
            let vis = tcx.visibility(d).is_public();
            let mut o = vec![("path", s(cx.path(d))), ("kind", s(format!("{:?}", kind))), ("span", cx.loc(tcx.def_span(d))), ("reach", J::B(reach)), ("pub", J::B(vis)), ("exported", J::B(eff.is_exported(ld)))];
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    let sg = full!(format!("{}", sig));
                    o.push(("sig", s(sg)));
                    o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                    if let Some(imp) = tcx.impl_of_assoc(d) {
                        let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                        let sti = cx.ty(st); o.push(("self_ty", n(sti)));
                        let sts = full!(st.to_string()); o.push(("self", s(sts)));
                        if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                            let tr = tr.instantiate_identity().skip_norm_wip();
                            o.push(("trait", s(cx.path(tr.def_id))));
                            let trs = full!(tr.to_string()); o.push(("trait_ref", s(trs)));
                        }
                        o.push(("derived", J::B(tcx.is_automatically_derived(imp))));
                    }
                    if tcx.is_mir_available(d) && !tcx.is_constructor(d) && tcx.hir_node_by_def_id(ld).body_id().is_some() {
                        let args = ty::GenericArgs::identity_for_item(tcx, d);
                        let args = tcx.erase_and_anonymize_regions(args);
                        let i = Instance { def: InstanceKind::Item(d), args };
                        let hp = cx.has_params(&i);
                        let w = Work { inst: i, env: if hp { TypingEnv::post_analysis(tcx, d) } else { TypingEnv::fully_monomorphized() }, root: if hp { Some(d) } else { None }, promoted: None };
                        let k = cx.enqueue(w);
                        o.push(("inst", s(k)));
                    }
                }
                DefKind::Struct | DefKind::Enum => {
                    let adt = tcx.adt_def(d);
                    let mut vs = vec![];
                    for v in adt.variants() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let fv = tcx.visibility(f.did).is_public();
                            let ti = cx.ty(ft);
                            fs.push(J::O(vec![("n", s(f.name.to_string())), ("ty", n(ti)), ("pub", J::B(fv))]));
                        }
                        vs.push(J::O(vec![("n", s(v.name.to_string())), ("f", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = cx.ty(st); o.push(("ty", n(ti)));
                }
                DefKind::Const { .. } => {
                    let st0 = tcx.type_of(d).instantiate_identity().skip_norm_wip(); let sts = full!(st0.to_string()); o.push(("tys", s(sts)));
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let dummy = Work { inst: Instance { def: InstanceKind::Item(d), args: ty::List::empty() }, env: TypingEnv::fully_monomorphized(), root: None, promoted: None };
                    if tcx.generics_of(d).is_empty() {
                        if let Ok(v) = tcx.const_eval_poly(d) { let j = cx.constval(&dummy, v, t, 0); o.push(("val", j)); }
                    }
                }
                DefKind::Static { mutability, .. } => { let st = tcx.type_of(d).instantiate_identity().skip_norm_wip(); let sts = full!(st.to_string()); o.push(("tys", s(sts))); o.push(("mutbl", J::B(mutability.is_mut()))); }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let sts = full!(st.to_string()); o.push(("self", s(sts)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(cx.path(tr.def_id))));
                        let trs = full!(tr.to_string()); o.push(("trait_ref", s(trs)));
                    }
                    o.push(("derived", J::B(tcx.is_automatically_derived(d))));
                }
                _ => { if !matches!(kind, DefKind::Mod | DefKind::Closure | DefKind::Trait) { continue; } }
            }
            items.push(J::O(o));
        }
        let mut uns = Uns { tcx, found: vec![], cur: vec![] };
        tcx.hir_walk_toplevel_module(&mut uns);
        let _ = &uns.cur;
        for (sp, owner) in uns.found {
            items.push(J::O(vec![("path", s(cx.path(owner))), ("kind", s("UnsafeBlock".to_string())), ("span", cx.loc(sp))]));
        }
        let mut out = String::new();
        out.push_str("{\"crate\":"); esc(tcx.crate_name(LOCAL_CRATE).as_str(), &mut out);
        out.push_str(",\"bodies\":[\n");
        let mut first = true;
        let mut cnt = 0;
        while let Some((k, w)) = cx.queue.pop_front() {
            cnt += 1;
            if cnt > 60000 { break; }
            if let Some(j) = cx.body(&k, &w) {
                if !first { out.push_str(",\n"); } first = false;
                j.w(&mut out);
            }
        }
        out.push_str("\n],\"items\":"); J::A(items).w(&mut out);
        out.push_str(",\"types\":"); J::A(cx.tyj.clone()).w(&mut out);
        out.push_str(",\"truncated\":"); J::B(cnt > 60000).w(&mut out);
        let _ = &cx.adts;
        out.push_str("}\n");
        std::fs::write(&self.out, out).expect("write dump");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(0); }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want) && !want.is_empty()
        && !args.iter().any(|a| a == "--test");
    if is {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=yes".into());
        args.push("-Zalways-encode-mir".into());
        let mut cb = Cb { out };
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    } else {
        struct No; impl rustc_driver::Callbacks for No {}
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut No));
    }
}
