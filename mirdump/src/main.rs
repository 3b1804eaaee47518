//! mirdump: a rustc wrapper that writes the monomorphic MIR of every function reachable from the
//! `h_*` entry points of the crate `capi` as JSON (to $MIRDUMP_OUT), together with the list of all
//! functions and trait impls of the crate `puruspe`. Nothing is run.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::{ConstantKind, GenericArgs, RigidTy, Ty, TyKind, ClosureKind, IntTy, UintTy, FloatTy};
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use std::collections::{HashSet, VecDeque};
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"'); o
}
fn list<T>(v: &[T], mut f: impl FnMut(&T) -> String) -> String { format!("[{}]", v.iter().map(|x| f(x)).collect::<Vec<_>>().join(",")) }
fn tys(t: &Ty) -> String { format!("{}", t) }

struct Cx { queue: VecDeque<Instance>, seen: HashSet<String>, statics: std::collections::BTreeMap<String, String> }
impl Cx {
    fn inst(&mut self, i: Instance) -> String {
        let m = i.mangled_name();
        let m = match i.kind { InstanceKind::Virtual { .. } => format!("virtual:{m}"), _ => m };
        if self.seen.insert(m.clone()) { self.queue.push_back(i); }
        m
    }
    /// records a static: its type, whether that type is free of interior mutability, whether it is `static mut`, what it points to
    fn stat(&mut self, s: rustc_public::mir::mono::StaticDef) {
        if self.statics.contains_key(&s.name()) { return; }
        self.statics.insert(s.name(), String::new());
        let t = s.ty();
        let mut fns = vec![]; let mut mutable = "null";
        match s.eval_initializer() {
            Ok(a) => {
                mutable = if a.mutability == Mutability::Mut { "true" } else { "false" };
                for (_, p) in &a.provenance.ptrs {
                    use rustc_public::mir::alloc::GlobalAlloc;
                    match GlobalAlloc::from(p.0) { GlobalAlloc::Function(i) => { let n = self.inst(i); fns.push(q(&n)); } GlobalAlloc::Static(s) => self.stat(s), _ => {} }
                }
            }
            Err(_) => {}
        }
        // LazyLock<T>: what matters is T
        let (mut kind, mut inner) = ("plain", t);
        if let TyKind::RigidTy(RigidTy::Adt(d, a)) = t.kind() {
            let n = d.name();
            if n.ends_with("::LazyLock") || n.ends_with("::OnceLock") {
                kind = if n.ends_with("LazyLock") { "lazy" } else { "once" };
                for g in &a.0 { if let rustc_public::ty::GenericArgKind::Type(x) = g { inner = *x; break; } }
            }
        }
        let mut seen = HashSet::new();
        let e = format!("{{\"type\":{},\"kind\":\"{}\",\"plain\":{},\"mutable\":{},\"fns\":[{}]}}", q(&tys(&t)), kind, plain(inner, &mut seen), mutable, fns.join(","));
        self.statics.insert(s.name(), e);
    }
    fn fnref(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                Ok(i) => { let n = self.inst(i); format!("[\"fn\",{}]", q(&n)) }
                Err(_) => format!("[\"fn?\",{}]", q(&d.name())),
            },
            TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                let mut o = String::from("[\"closure\"");
                for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                    match Instance::resolve_closure(d, &a, k) { Ok(i) => { let n = self.inst(i); let _ = write!(o, ",{}", q(&n)); } Err(_) => o.push_str(",null") }
                }
                o.push(']'); o
            }
            _ => format!("[\"ty\",{}]", q(&tys(&t))),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let mut o = format!("[{}", p.local);
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(i, _) => { let _ = write!(o, ",{}", i); }
                ProjectionElem::Downcast(v) => { let _ = write!(o, ",[\"v\",{}]", vidx(v)); }
                ProjectionElem::Index(l) => { let _ = write!(o, ",[\"i\",{}]", l); }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => { let _ = write!(o, ",[\"c\",{},{}]", offset, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, ",[\"s\",{},{},{}]", from, to, from_end); }
                ProjectionElem::OpaqueCast(_) => {}
            }
        }
        o.push(']'); o
    }
    fn konst(&mut self, c: &ConstOperand) -> String {
        let t = c.ty();
        match c.const_.kind() {
            ConstantKind::ZeroSized => format!("[\"k\",\"zst\",{},{}]", q(&tys(&t)), self.fnref(t)),
            ConstantKind::Allocated(a) => {
                if a.provenance.ptrs.is_empty() { if let Ok(v) = a.read_uint() { return format!("[\"k\",\"bits\",{},\"{}\"]", q(&tys(&t)), v); } }
                let by = a.bytes.iter().map(|b| b.map(|b| format!("{:02x}", b)).unwrap_or("??".into())).collect::<String>();
                let mut pr = String::new();
                for (off, p) in &a.provenance.ptrs {
                    use rustc_public::mir::alloc::GlobalAlloc;
                    match GlobalAlloc::from(p.0) {
                        GlobalAlloc::Static(s) => { self.stat(s); let _ = write!(pr, "@{}:static {}", off, s.name()); }
                        GlobalAlloc::Memory(m) => { let by = m.bytes.iter().map(|b| b.map(|b| format!("{:02x}", b)).unwrap_or("??".into())).collect::<String>(); let _ = write!(pr, "@{}:mem {}", off, by); }
                        GlobalAlloc::Function(i) => { let n = self.inst(i); let _ = write!(pr, "@{}:fn {}", off, n); }
                        _ => { let _ = write!(pr, "@{}:other", off); }
                    }
                }
                format!("[\"k\",\"mem\",{},{}]", q(&tys(&t)), q(&format!("{by}{pr}")))
            }
            _ => format!("[\"k\",\"const\",{},{}]", q(&tys(&t)), q(&format!("{:?}", c.const_.kind()))),
        }
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(_) => "[\"k\",\"bits\",\"bool\",\"0\"]".into(),
        }
    }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"ref\",{},{}]", q(&format!("{:?}", k)), self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", q(match k { BorrowKind::Mut { .. } => "mut", _ => "shared" }), self.place(p)),
            Rvalue::Reborrow(_, m, p) => { let mut p = p.clone(); p.projection.push(ProjectionElem::Deref); format!("[\"ref\",{},{}]", q(match m { Mutability::Mut => "mut", _ => "shared" }), self.place(&p)) }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o), q(&format!("{:?}", n.eval_target_usize().ok()))),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Discriminant(p) => {
                // variant index -> discriminant value
                let t = p.ty(locals).ok();
                let mut m = String::from("[");
                if let Some(TyKind::RigidTy(RigidTy::Adt(d, _))) = t.map(|t| t.kind()) {
                    if d.kind() == rustc_public::ty::AdtKind::Enum {
                        for (i, v) in d.variants_iter().enumerate() { if i > 0 { m.push(','); } let _ = write!(m, "\"{}\"", d.discriminant_for_variant(v.idx()).val); }
                    }
                }
                m.push(']');
                format!("[\"discr\",{},{}]", self.place(p), m)
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"chk\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::Cast(k, o, t) => {
                let f = if let CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_) | PointerCoercion::ClosureFnPointer(_)) = k { o.ty(locals).ok().map(|t| self.fnref(t)).unwrap_or("null".into()) } else { "null".into() };
                let from = o.ty(locals).map(|t| tys(&t)).unwrap_or_default();
                format!("[\"cast\",{},{},{},{},{}]", q(&format!("{:?}", k)), self.op(o), q(&from), q(&tys(t)), f)
            }
            Rvalue::Aggregate(k, v) => {
                let ops = list(v, |o| self.op(o));
                match k {
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",0,{}]", ops),
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",0,{}]", ops),
                    AggregateKind::Adt(d, vi, ..) => format!("[\"agg\",{},{},{}]", q(&d.name()), vidx(vi), ops),
                    AggregateKind::Closure(d, a) => { let f = self.fnref(Ty::new_closure(*d, a.clone())); format!("[\"agg\",{},0,{}]", f, ops) }
                    _ => format!("[\"agg\",\"other\",0,{}]", ops),
                }
            }
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", q(&i.name())),
        }
    }
    fn unw(&self, u: &UnwindAction) -> String { match u { UnwindAction::Cleanup(b) => b.to_string(), UnwindAction::Continue => "\"continue\"".into(), _ => "\"abort\"".into() } }
    fn term(&mut self, t: &Terminator, locals: &[LocalDecl]) -> String {
        let ln = t.source_info.span.get_lines().start_line; let file = t.source_info.span.get_filename();
        let s = match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let b = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect::<Vec<_>>().join(",");
                let ty = discr.ty(locals).map(|t| tys(&t)).unwrap_or_default();
                format!("[\"switch\",{},{},[{}],{}]", self.op(discr), q(&ty), b, targets.otherwise())
            }
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, unwind } => {
                let ty = place.ty(locals).map(|t| tys(&t)).unwrap_or_default();
                format!("[\"drop\",{},{},{},{}]", self.place(place), q(&ty), target, self.unw(unwind))
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                let f = match func.ty(locals) { Ok(t) => match t.kind() { TyKind::RigidTy(RigidTy::FnDef(..)) => self.fnref(t), _ => format!("[\"ptr\",{}]", self.op(func)) }, _ => "null".into() };
                let a = list(args, |o| self.op(o));
                format!("[\"call\",{},{},{},{},{}]", f, a, self.place(destination), target.map(|t| t.to_string()).unwrap_or("null".into()), self.unw(unwind))
            }
            TerminatorKind::Assert { cond, expected, target, unwind, msg } => format!("[\"assert\",{},{},{},{},{}]", self.op(cond), expected, target, self.unw(unwind), q(&format!("{:?}", msg).chars().take(40).collect::<String>())),
            TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
        };
        format!("[{},{},{}]", s, q(&file), ln)
    }
    fn body(&mut self, b: &Body) -> String {
        let ls = b.locals();
        let mut o = format!("{{\"args\":{},\"locals\":{},\"blocks\":[", b.arg_locals().len(), list(ls, |l| q(&tys(&l.ty))));
        for (i, bb) in b.blocks.iter().enumerate() {
            if i > 0 { o.push_str(",\n "); }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => st.push(format!("[\"=\",{},{}]", self.place(p), self.rv(r, ls))),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"setd\",{},{}]", self.place(place), vidx(variant_index))),
                    StatementKind::Intrinsic(i) => if let NonDivergingIntrinsic::CopyNonOverlapping(_) = i { st.push("[\"copynonoverlapping\"]".into()) },
                    _ => {}
                }
            }
            let _ = write!(o, "[[{}],{}]", st.join(","), self.term(&bb.terminator, ls));
        }
        o.push_str("]}"); o
    }
}

/// no interior mutability anywhere inside
fn plain(t: Ty, seen: &mut HashSet<String>) -> bool {
    if !seen.insert(tys(&t)) { return true; }
    match t.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) | RigidTy::Str | RigidTy::Never | RigidTy::FnDef(..) | RigidTy::FnPtr(..) => true,
            RigidTy::Array(t, _) | RigidTy::Slice(t) => plain(t, seen),
            RigidTy::Ref(_, t, m) => m == Mutability::Not && plain(t, seen),
            RigidTy::Tuple(v) => v.into_iter().all(|t| plain(t, seen)),
            RigidTy::Adt(d, a) => !d.name().ends_with("::UnsafeCell") && d.variants_iter().all(|v| v.fields().into_iter().all(|f| plain(f.ty_with_args(&a), seen))),
            RigidTy::RawPtr(t, _) => plain(t, seen), // as inside a Vec or Box that is never handed out mutably
            RigidTy::Pat(t, _) => plain(t, seen),
            _ => false,
        },
        _ => false,
    }
}

/// functions whose meaning the analysis knows (collections) or that cannot return (panics): their bodies are not needed
fn opaque(n: &str) -> bool {
    !n.starts_with("puruspe::") && !n.starts_with("<puruspe::") && ["std::collections::hash", "hashbrown::", "alloc::collections::btree", "std::hash::", "core::hash", "core::fmt", "std::fmt", "alloc::fmt", "core::panicking", "std::rt::", "std::io", "std::sys", "std::thread", "alloc::alloc", "alloc::raw_vec", "std::panicking", "std::alloc"].iter().any(|p| n.contains(p))
}

fn dump() -> std::ops::ControlFlow<()> {
    let krate = rustc_public::local_crate();
    if krate.name != "capi" { return std::ops::ControlFlow::Continue(()); }
    let mut cx = Cx { queue: VecDeque::new(), seen: HashSet::new(), statics: Default::default() };
    let mut entries = vec![];
    for it in rustc_public::all_local_items() {
        if !it.name().rsplit("::").next().unwrap().starts_with("h_") { continue; }
        if let Ok(i) = Instance::try_from(it) { let n = cx.inst(i); entries.push((it.name(), n)); }
    }
    let mut all = vec![]; let mut impls = vec![];
    for c in rustc_public::find_crates("puruspe") {
        for f in c.fn_defs() {
            let sig = f.fn_sig(); let s = list(&sig.value.inputs_and_output, |t| q(&tys(t)));
            let gen = rustc_public_requires_mono(&f);
            let inst = if gen { String::from("null") } else { match Instance::resolve(f, &GenericArgs(vec![])) { Ok(i) => { let n = cx.inst(i); q(&n) } Err(_) => "null".into() } };
            all.push(format!("[{},{},{},{}]", q(&f.name()), s, inst, gen));
        }
        for t in c.trait_impls() { let tr = t.trait_impl(); impls.push(format!("[{},{}]", q(&tr.value.def_id.name()), q(&tys(&tr.value.self_ty())))); }
    }
    let mut out = String::from("{\"entries\":{");
    for (i, (a, b)) in entries.iter().enumerate() { if i > 0 { out.push(','); } let _ = write!(out, "{}:{}", q(a), q(b)); }
    let _ = write!(out, "}},\n\"functions\":[{}],\n\"impls\":[{}],\n\"bodies\":{{\n", all.join(",\n"), impls.join(",\n"));
    let mut first = true;
    while let Some(i) = cx.queue.pop_front() {
        let m = match i.kind { InstanceKind::Virtual { .. } => format!("virtual:{}", i.mangled_name()), _ => i.mangled_name() };
        let name = i.name();
        if !first { out.push_str(",\n"); } first = false;
        let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
        let krate = i.def.def_id_krate();
        let body = if opaque(&name) || matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) || i.is_foreign_item() { None } else { i.body() };
        let b = body.map(|b| cx.body(&b)).unwrap_or("null".into());
        let _ = write!(out, "{}:{{\"name\":{},\"kind\":\"{}\",\"crate\":{},\"body\":{}}}", q(&m), q(&name), kind, q(&krate), b);
    }
    out.push_str("\n},\n\"statics\":{");
    for (i, (a, b)) in cx.statics.iter().enumerate() { if i > 0 { out.push(','); } let _ = write!(out, "{}:{}", q(a), b); }
    out.push_str("}}\n");
    std::fs::write(std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT"), out).unwrap();
    std::ops::ControlFlow::Continue(())
}
trait K { fn def_id_krate(&self) -> String; }
impl K for rustc_public::mir::mono::InstanceDef { fn def_id_krate(&self) -> String { String::new() } }
fn vidx(v: &rustc_public::ty::VariantIdx) -> usize { use rustc_public_bridge::IndexedVal; v.to_index() }
fn rustc_public_requires_mono(f: &rustc_public::ty::FnDef) -> bool { CrateItem(f.def_id()).requires_monomorphization() }

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); } // RUSTC_WRAPPER convention
    let _ = (IntTy::I8, UintTy::U8, FloatTy::F64);
    let r = rustc_public::run!(&args, dump);
    match r { Ok(_) | Err(rustc_public::CompilerError::Skipped) => std::process::exit(0), Err(_) => std::process::exit(1) }
}
