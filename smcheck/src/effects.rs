//! Effect analysis of a whole crate: the monomorphised call graph from every function of the crate
//! (type parameters at f64) is closed and every construct with an effect other than reading and
//! writing the caller's memory is reported with a call chain.
use crate::js;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Scan { insts: Vec<Instance>, bad: Vec<(String, Span)>, locals: Vec<LocalDecl>, unresolved: usize }
impl Scan {
    fn fn_ty(&mut self, t: Ty) {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                Ok(i) => self.insts.push(i),
                Err(_) => self.unresolved += 1,
            },
            TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                for k in [ClosureKind::FnOnce, ClosureKind::FnMut, ClosureKind::Fn] { if let Ok(i) = Instance::resolve_closure(d, &a, k) { self.insts.push(i); break; } }
            }
            _ => {}
        }
    }
    fn alloc(&mut self, a: &rustc_public::ty::Allocation, sp: Span, depth: usize) {
        if depth > 8 { return; }
        for (_, p) in &a.provenance.ptrs {
            match GlobalAlloc::from(p.0) {
                GlobalAlloc::Function(i) => self.insts.push(i),
                GlobalAlloc::Static(s) => self.stat(s, sp),
                GlobalAlloc::Memory(m) => self.alloc(&m, sp, depth + 1),
                _ => {}
            }
        }
    }
    fn vtable(&mut self, from: Ty, to: Ty) {
        let pointee = |t: Ty| match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, u, _)) | TyKind::RigidTy(RigidTy::RawPtr(u, _)) => Some(u), _ => None };
        let (Some(f), Some(t)) = (pointee(from), pointee(to)) else { return };
        if !matches!(t.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) || matches!(f.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) { return; }
        let found = rustc_middle::ty::tls::with(|tcx| {
            let (f, t) = (rustc_public::rustc_internal::internal(tcx, f), rustc_public::rustc_internal::internal(tcx, t));
            let rustc_middle::ty::TyKind::Dynamic(preds, ..) = t.kind() else { return vec![] };
            let Some(p) = preds.principal() else { return vec![] };
            let tr = tcx.instantiate_bound_regions_with_erased(p.with_self_ty(tcx, f));
            let tr = tcx.erase_and_anonymize_regions(tr);
            tcx.vtable_entries(tr).iter().filter_map(|e| match e { rustc_middle::ty::VtblEntry::Method(i) => Some(rustc_public::rustc_internal::stable(*i)), _ => None }).collect()
        });
        self.insts.extend(found);
    }
    fn stat(&mut self, s: mir_static::StaticDef, sp: Span) {
        if interior_mutable(s.ty(), 0) || s.name().contains("__getit") { self.bad.push((format!("uses the mutable global `{}`", s.name()), sp)); }
    }
}
use rustc_public::mir::mono as mir_static;
fn interior_mutable(t: Ty, depth: usize) -> bool {
    if depth > 12 { return true; }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            if d.name().ends_with("UnsafeCell") { return true; }
            d.variants().iter().any(|v| v.fields().iter().any(|f| interior_mutable(f.ty_with_args(&a), depth + 1)))
        }
        TyKind::RigidTy(RigidTy::Array(t, _)) | TyKind::RigidTy(RigidTy::Slice(t)) | TyKind::RigidTy(RigidTy::Ref(_, t, _)) => interior_mutable(t, depth + 1),
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().any(|t| interior_mutable(*t, depth + 1)),
        TyKind::RigidTy(RigidTy::RawPtr(..)) | TyKind::RigidTy(RigidTy::Dynamic(..)) => true,
        _ => false,
    }
}
impl MirVisitor for Scan {
    fn visit_terminator(&mut self, t: &Terminator, l: Location) {
        match &t.kind {
            TerminatorKind::Call { func, .. } => {
                if let Ok(ty) = func.ty(&self.locals) {
                    // a function pointer is the caller's, or names a function at the place where it is made,
                    // which is visited there (visit_const_operand)
                    if let TyKind::RigidTy(RigidTy::FnDef(..)) = ty.kind() { self.fn_ty(ty) }
                }
            }
            TerminatorKind::Drop { place, .. } => { if let Ok(ty) = place.ty(&self.locals) { self.insts.push(Instance::resolve_drop_in_place(ty)); } }
            TerminatorKind::InlineAsm { .. } => self.bad.push(("contains inline assembly".into(), t.source_info.span)),
            _ => {}
        }
        self.super_terminator(t, l);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        match r {
            Rvalue::ThreadLocalRef(i) => self.bad.push((format!("uses the thread-local `{}`", i.name()), l.span())),
            Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::Unsize), op, to) => {
                // a trait object: its functions can be called from here on
                if let Ok(from) = op.ty(&self.locals) { self.vtable(from, *to); }
            }
            Rvalue::Aggregate(AggregateKind::Closure(d, a), _) => {
                for k in [ClosureKind::FnOnce, ClosureKind::FnMut, ClosureKind::Fn] { if let Ok(i) = Instance::resolve_closure(*d, a, k) { self.insts.push(i); break; } }
            }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_const_operand(&mut self, c: &ConstOperand, l: Location) {
        self.fn_ty(c.const_.ty());
        if let ConstantKind::Allocated(a) = c.const_.kind() { let a = a.clone(); self.alloc(&a, l.span(), 0); }
        self.super_const_operand(c, l);
    }
}

/// std functions that only compute
fn std_pure(n: &str) -> bool {
    let n = n.replace(' ', "");
    (n.contains("f64") || n.contains("f32") || n.contains("cmath") || n.contains("std::num")) && !n.contains("::io::") && !n.contains("::fs::") && !n.contains("thread") && !n.contains("::env::")
}
fn krate_of(i: &Instance) -> String { i.def.krate().name.to_string() }

pub fn run(krate: &str) -> String {
    // the crate's types, at f64 (or f32)
    let narrow = std::env::var("SM_WIDTH").map_or(false, |w| w == "32");
    let f64t = Ty::from_rigid_kind(RigidTy::Float(if narrow { FloatTy::F32 } else { FloatTy::F64 }));
    let map = |a: &GenericArgs| GenericArgs(a.0.iter().map(|x| match x {
        GenericArgKind::Type(t) => match t.kind() { TyKind::Param(_) => GenericArgKind::Type(f64t), _ => x.clone() },
        // a constant parameter, the length of an array say
        GenericArgKind::Const(c) if matches!(c.kind(), TyConstKind::Param(_)) => TyConst::try_from_target_usize(3).map_or(x.clone(), GenericArgKind::Const),
        y => y.clone(),
    }).collect());
    // a function that has no meaning at these arguments has no instance
    let resolve = |d: FnDef, a: &GenericArgs| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::resolve(d, a).ok().filter(|i| i.body().is_some()))).unwrap_or(None);
    let items: Vec<CrateItem> = rustc_public::all_local_items();
    let mut obs: Vec<(String, bool, String, String)> = vec![]; // key, ok, detail, where
    let mut selfs: Vec<Ty> = vec![];
    let mut defs = vec![];
    for it in &items {
        match it.kind() {
            ItemKind::Static => {
                let bad = interior_mutable(it.ty(), 0);
                let (f, l) = at(it.span());
                obs.push((format!("static:{}", it.name()), !bad, if bad { format!("the crate has the mutable global `{}`", it.name()) } else { String::new() }, format!("{f}:{l}")));
            }
            ItemKind::Fn => {
                if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = it.ty().kind() {
                    defs.push((d, a, it.name().to_string(), it.span()));
                    for x in d.fn_sig().skip_binder().inputs_and_output.iter() {
                        let mut t = *x;
                        while let TyKind::RigidTy(RigidTy::Ref(_, u, _)) = t.kind() { t = u; }
                        if let TyKind::RigidTy(RigidTy::Adt(ad, aa)) = t.kind() {
                            if ad.krate().is_local { let n = Ty::from_rigid_kind(RigidTy::Adt(ad, map(&aa))); if !selfs.contains(&n) { selfs.push(n); } }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let mut seen: HashMap<String, (Instance, Option<String>, Span)> = HashMap::new();
    let mut q: VecDeque<String> = VecDeque::new();
    let mut edges: BTreeMap<String, HashSet<String>> = BTreeMap::new();
    let mut roots: Vec<(String, Vec<String>, Span)> = vec![];
    let mut unresolved = vec![];
    for (d, a, name, sp) in &defs {
        let mut got = vec![];
        if let Some(i) = resolve(*d, &map(a)) { got.push(i); }
        if got.is_empty() {
            // a default method: Self is one of the crate's types
            for s in &selfs {
                let mut m = map(a);
                if m.0.is_empty() { continue; }
                m.0[0] = GenericArgKind::Type(*s);
                if let Some(i) = resolve(*d, &m) { got.push(i); }
            }
        }
        // a private generic helper (one taking a closure, say) is analysed at its uses
        if got.is_empty() { if exported(d) { unresolved.push((name.clone(), *sp)); } continue; }
        let mut ks = vec![];
        for i in got {
            let k = i.mangled_name().to_string();
            if !seen.contains_key(&k) { seen.insert(k.clone(), (i, None, *sp)); q.push_back(k.clone()); }
            ks.push(k);
        }
        roots.push((name.clone(), ks, *sp));
    }
    let mut bad: Vec<(String, String, Span)> = vec![]; // instance key, what, where
    let mut sites = 0usize;
    let mut bodies = 0usize;
    while let Some(k) = q.pop_front() {
        let (i, _, at_span) = seen[&k].clone();
        let n = i.name().to_string();
        let kr = krate_of(&i);
        if let Some(intr) = i.intrinsic_name() {
            let s = intr.to_string();
            if s.starts_with("atomic_") || s.starts_with("volatile_") || s.contains("_volatile") || s.starts_with("unaligned_volatile") { bad.push((k.clone(), format!("uses the intrinsic `{s}`"), at_span)); }
            if matches!(i.kind, InstanceKind::Intrinsic) { continue; }
        }
        if matches!(i.kind, InstanceKind::Virtual { .. }) {
            // the functions of a trait object are visited where it is made (Scan::vtable); one that is handed in
            // (a formatter's destination, a closure) is the caller's
            continue;
        }
        let diverges = matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::FnDef(d, _)) if matches!(d.fn_sig().skip_binder().output().kind(), TyKind::RigidTy(RigidTy::Never)));
        if (diverges && kr == "core") || n.contains("begin_panic") || n.contains("panicking::") { continue; }
        if kr == "core" && n.contains("core::fmt") || n.contains("std::fmt::") { continue; }
        if kr == "libm" { continue; } // the mathematical functions of the no-std configuration
        if kr == "alloc" { bad.push((k.clone(), format!("reaches the heap allocator's crate: `{n}`"), at_span)); continue; }
        if kr == "std" && !std_pure(&n) { bad.push((k.clone(), format!("calls `{n}` of the standard library"), at_span)); continue; }
        if i.is_foreign_item() || i.is_empty_shim() {
            if i.is_foreign_item() && !std_pure(&n) && kr != "std" && kr != "compiler_builtins" { bad.push((k.clone(), format!("calls the foreign function `{n}`"), at_span)); }
            continue;
        }
        let Some(b) = i.body() else {
            if kr != "core" && kr != "std" { bad.push((k.clone(), format!("calls `{n}`, whose code is not available"), at_span)); }
            continue;
        };
        bodies += 1;
        let local = i.def.krate().is_local;
        let mut s = Scan { insts: vec![], bad: vec![], locals: b.locals().to_vec(), unresolved: 0 };
        s.visit_body(&b);
        for (w, sp) in s.bad { bad.push((k.clone(), w, sp)); }
        for c in s.insts {
            sites += 1;
            let ck = if matches!(c.kind, InstanceKind::Virtual { .. }) { format!("virtual {}", c.name()) } else { c.mangled_name().to_string() };
            edges.entry(ck.clone()).or_default().insert(k.clone());
            if !seen.contains_key(&ck) { seen.insert(ck.clone(), (c, Some(k.clone()), if local { b.span } else { at_span })); q.push_back(ck); }
        }
    }
    // which root reaches each bad instance
    let mut hit: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, what, sp) in &bad {
        let mut rs: HashSet<String> = HashSet::new();
        let mut st = vec![k.clone()];
        while let Some(x) = st.pop() {
            if !rs.insert(x.clone()) { continue; }
            if let Some(ps) = edges.get(&x) { st.extend(ps.iter().cloned()); }
        }
        // one shortest chain, from the parent links
        let mut chain = vec![seen[k].0.name().to_string()];
        let mut x = k.clone();
        while let Some(p) = seen[&x].1.clone() { chain.push(seen[&p].0.name().to_string()); x = p; }
        chain.reverse();
        let (f, l) = at(*sp);
        let d = format!("{what} (from {f}:{l}); call chain: {}", chain.join(" -> "));
        for (name, ks, _) in &roots { if ks.iter().any(|r| rs.contains(r)) { hit.entry(name.clone()).or_default().push(d.clone()); } }
    }
    for (name, ks, sp) in &roots {
        let (f, l) = at(*sp);
        let h = hit.get(name);
        let _ = ks;
        obs.push((name.clone(), h.is_none(), h.map_or(String::new(), |v| v.join("; ")), format!("{f}:{l}")));
    }
    for (name, sp) in &unresolved {
        let (f, l) = at(*sp);
        obs.push((name.clone(), false, "the function could not be instantiated for the analysis".into(), format!("{f}:{l}")));
    }
    for s in &selfs {
        let bad = interior_mutable(*s, 0);
        obs.push((format!("type:{s}"), !bad, if bad { "values of this type can change behind a shared reference".into() } else { String::new() }, String::new()));
    }
    // signatures that hand out a mutable view of a type's inside
    let mut views = vec![];
    for (d, _, name, sp) in &defs {
        if !exported(d) { continue; }
        let sig = d.fn_sig().skip_binder();
        let inner = |t: &Ty| match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, u, Mutability::Mut)) => match u.kind() { TyKind::RigidTy(RigidTy::Adt(a, _)) if a.krate().is_local => Some(a.name().rsplit("::").next().unwrap_or("").to_string()), _ => None }, _ => None };
        let Some(of) = sig.inputs().iter().find_map(inner) else { continue };
        let (f, l) = at(*sp);
        views.push(format!("[{},{},{},{}]", js(name), js(&of), has_mut_ref(sig.output(), 0), js(&format!("{f}:{l}"))));
    }
    let crates: Vec<String> = rustc_public::external_crates().iter().map(|c| js(&c.name.to_string())).collect();
    let fns: Vec<String> = defs.iter().filter(|d| exported(&d.0)).map(|d| js(&d.2)).collect();
    let mirs: Vec<String> = items.iter().filter(|i| matches!(i.kind(), ItemKind::Fn)).filter_map(|i| {
        let b = i.body()?;
        let mut v = vec![];
        b.dump(&mut v, "f").ok()?;
        Some(format!("[{},{}]", js(&i.name()), js(&String::from_utf8_lossy(&v))))
    }).collect();
    obs.sort();
    let o: Vec<String> = obs.iter().map(|(k, ok, d, w)| format!("{{\"key\":{},\"ok\":{},\"detail\":{},\"at\":{}}}", js(k), ok, js(&d.chars().take(1500).collect::<String>()), js(w))).collect();
    format!("{{\"crate\":{},\"instances\":{},\"bodies\":{},\"call_sites\":{},\"crates\":[{}],\"fns\":[{}],\"views\":[{}],\"mir\":[{}],\"obs\":[\n{}\n]}}\n", js(krate), seen.len(), bodies, sites, crates.join(","), fns.join(","), views.join(","), mirs.join(","), o.join(",\n"))
}
/// can a program that depends on the crate name or call this function?
fn exported(d: &FnDef) -> bool {
    rustc_middle::ty::tls::with(|tcx| {
        let id = rustc_public::rustc_internal::internal(tcx, d.def_id());
        id.as_local().map_or(true, |l| tcx.effective_visibilities(()).is_reachable(l))
    })
}
fn at(s: Span) -> (String, usize) { (s.get_filename().to_string(), s.get_lines().start_line) }
fn has_mut_ref(t: Ty, depth: usize) -> bool {
    if depth > 6 { return false; }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Mut)) => true,
        TyKind::RigidTy(RigidTy::Ref(_, u, _)) => has_mut_ref(u, depth + 1),
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().any(|t| has_mut_ref(*t, depth + 1)),
        TyKind::RigidTy(RigidTy::Array(u, _)) | TyKind::RigidTy(RigidTy::Slice(u)) => has_mut_ref(u, depth + 1),
        TyKind::RigidTy(RigidTy::RawPtr(_, Mutability::Mut)) => true,
        TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().any(|g| matches!(g, GenericArgKind::Type(t) if has_mut_ref(*t, depth + 1))),
        _ => false,
    }
}
