//! Forward abstract interpretation of monomorphised MIR over gated value numbers.
use crate::alg::*;
use crate::dd::*;
use num_traits::Signed;
use rustc_public_bridge::IndexedVal;
use rustc_public::abi::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type R<T> = Result<T, String>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cell { pub sz: u8, pub v: Dd, pub org: u32 }
#[derive(Clone, Debug, Default)]
pub struct Val { pub sz: u64, pub c: Vec<(u64, Cell)> }
pub type Obj = Rc<BTreeMap<u64, Cell>>;
#[derive(Clone)]
pub struct State { pub mem: HashMap<u32, Obj>, pub pc: Dd }

pub struct BodyInfo {
    pub body: Body,
    pub name: String,
    pub file: String,
    pub repo: bool,
    pub ipdom: Vec<Option<usize>>,
    pub inst: Instance,
}
pub struct Frame { pub b: Rc<BodyInfo>, pub base: u32, pub depth: usize }

#[derive(Clone)]
pub struct Place2 { pub ptr: Dd, pub meta: Option<Dd>, pub ty: Ty, pub variant: Option<usize> }

#[derive(Clone, Debug)]
pub struct Diverge { pub pc: Dd, pub what: String, pub at: String, pub stack: String }

#[derive(Clone, Debug)]
pub struct FmtEvent { pub pc: Dd, pub dest: Dd, pub what: String, pub vals: Vec<Dd>, pub fail: Option<Dd> }

/// obligations collected while a rule is analysed
#[derive(Clone, Debug)]
pub struct Ob { pub key: String, pub ok: bool, pub detail: String, pub method: &'static str }

pub struct Interp {
    pub d: Dds,
    bodies: HashMap<Instance, Rc<BodyInfo>>,
    kinds: HashMap<Ty, Rc<TyKind>>,
    layouts: HashMap<Ty, Rc<LayoutShape>>,
    globals: Vec<(GlobalAlloc, Option<Allocation>)>,
    global_ix: HashMap<rustc_public::mir::alloc::AllocId, u32>,
    static_ix: HashMap<String, u32>,
    pub funs: Vec<Instance>,
    fun_ix: HashMap<Instance, u32>,
    pub vts: Vec<Ty>,
    next_alloc: u32,
    pub orgs: Vec<(String, Option<Span>)>,
    org_ix: HashMap<(String, Option<Span>), u32>,
    pub cur_org: u32,
    pub diverges: Vec<Diverge>,
    pub allow: Vec<String>,
    /// the rule requires every operation of the crate to stay in the domain of the functions it uses
    pub total: bool,
    pub margin: Option<Dd>,
    /// square roots too
    pub total_sqrt: bool,
    pub total_ops: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub analysed: BTreeMap<String, (String, bool, u64)>,
    pub call_sites: u64,
    feas_memo: HashMap<Dd, bool>,
    pub repo_prefix: String,
    pub stack: Vec<String>,
    pub obs: Vec<Ob>,
    pub fmt_events: Vec<FmtEvent>,
    pub io_events: Vec<(Dd, String)>,
    pub rule_name: String,
    pub eq_no: u32,
    pub label: String,
    pub deadline: std::time::Instant,
    pub opaque_n: u32,
    pub joins: u64,
    pub fmt_calls: Vec<(Dd, Vec<Dd>)>,
    pub trace: bool,
    pub lists: Vec<(Dd, Dd)>,
    pub fmt_target: Option<Dd>,
    pub fmt_defs: Vec<Option<(rustc_public::ty::FnDef, GenericArgs)>>,
}

fn err<T>(s: impl Into<String>) -> R<T> { Err(s.into()) }

impl Interp {
    pub fn new(seed: u64, repo_prefix: &str) -> Interp {
        Interp {
            d: Dds::new(seed), bodies: HashMap::new(), kinds: HashMap::new(), layouts: HashMap::new(), globals: vec![], global_ix: HashMap::new(),
            static_ix: HashMap::new(), funs: vec![], fun_ix: HashMap::new(), vts: vec![], next_alloc: 1, orgs: vec![("".into(), None)], org_ix: HashMap::new(), cur_org: 0,
            diverges: vec![], allow: vec![], total: false, margin: None, total_sqrt: false, total_ops: 0, steps: 0, max_steps: 30_000_000, analysed: BTreeMap::new(), call_sites: 0, feas_memo: HashMap::new(),
            repo_prefix: repo_prefix.into(), stack: vec![], obs: vec![], fmt_events: vec![], io_events: vec![], rule_name: String::new(), eq_no: 0, label: String::new(),
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(600), opaque_n: 0, joins: 0, fmt_calls: vec![], trace: false, lists: vec![], fmt_target: None, fmt_defs: vec![],
        }
    }
    /// a fresh abstract domain for the next rule; caches of the program are kept
    pub fn reset(&mut self, seed: u64) {
        self.d = Dds::new(seed);
        self.diverges.clear(); self.allow.clear(); self.total = true; self.margin = None; self.total_sqrt = false; self.total_ops = 0; self.steps = 0; self.feas_memo.clear(); self.stack.clear();
        self.obs.clear(); self.fmt_events.clear(); self.io_events.clear(); self.eq_no = 0; self.label.clear(); self.opaque_n = 0; self.cur_org = 0;
        self.fmt_calls.clear(); self.lists.clear(); self.fmt_target = None; self.fmt_defs.clear();
    }

    // ------------------------------------------------------------ types
    pub fn kind(&mut self, t: Ty) -> Rc<TyKind> {
        if let Some(k) = self.kinds.get(&t) { return k.clone(); }
        let k = Rc::new(t.kind());
        self.kinds.insert(t, k.clone());
        k
    }
    pub fn layout(&mut self, t: Ty) -> R<Rc<LayoutShape>> {
        if let Some(k) = self.layouts.get(&t) { return Ok(k.clone()); }
        let l = t.layout().map_err(|e| format!("layout of {t:?}: {e:?}"))?.shape();
        let l = Rc::new(l);
        self.layouts.insert(t, l.clone());
        Ok(l)
    }
    pub fn size(&mut self, t: Ty) -> R<u64> { Ok(self.layout(t)?.size.bytes() as u64) }
    fn is_unsized_ptr(&mut self, pointee: Ty) -> bool {
        match &*self.kind(pointee) {
            TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str | RigidTy::Dynamic(..)) => true,
            TyKind::RigidTy(RigidTy::Adt(..)) => self.layout(pointee).map_or(false, |l| l.is_unsized()),
            _ => false,
        }
    }
    fn pointee(&mut self, t: Ty) -> Option<Ty> {
        match &*self.kind(t) {
            TyKind::RigidTy(RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _)) => Some(*t),
            TyKind::RigidTy(RigidTy::Pat(t, _)) => self.pointee(*t),
            _ => None,
        }
    }
    fn field_offset(&mut self, ty: Ty, variant: Option<usize>, f: usize) -> R<u64> {
        let l = self.layout(ty)?;
        if let (Some(v), VariantsShape::Multiple { variants, .. }) = (variant, &l.variants) {
            return Ok(variants[v].offsets[f].bytes() as u64);
        }
        match &l.fields {
            FieldsShape::Arbitrary { offsets } => Ok(offsets.get(f).ok_or("field index")?.bytes() as u64),
            FieldsShape::Union(_) => Ok(0),
            FieldsShape::Array { stride, .. } => Ok(stride.bytes() as u64 * f as u64),
            FieldsShape::Primitive => Ok(0),
        }
    }

    // ------------------------------------------------------------ bodies
    pub fn body_of(&mut self, inst: Instance) -> Option<Rc<BodyInfo>> {
        if let Some(b) = self.bodies.get(&inst) { return Some(b.clone()); }
        let body = inst.body()?;
        let name = inst.name();
        let file = body.span.get_filename();
        let repo = file.starts_with(&self.repo_prefix);
        let ipdom = ipdoms(&body);
        let b = Rc::new(BodyInfo { body, name, file, repo, ipdom, inst });
        self.bodies.insert(inst, b.clone());
        Some(b)
    }
    pub fn fun_leaf(&mut self, i: Instance) -> Dd {
        let n = match self.fun_ix.get(&i) { Some(&n) => n, None => { self.funs.push(i); let n = self.funs.len() as u32 - 1; self.fun_ix.insert(i, n); n } };
        self.d.leaf(Leaf::Fun(n))
    }
    fn adt_tail(&mut self, d: &AdtDef, args: &GenericArgs) -> R<Ty> {
        let vs = d.variants();
        let f = vs.first().ok_or("unsizing of an enum")?.fields();
        Ok(f.last().ok_or("unsizing of an empty struct")?.ty_with_args(args))
    }
    fn vt_leaf(&mut self, t: Ty) -> Dd {
        let n = match self.vts.iter().position(|x| *x == t) { Some(n) => n, None => { self.vts.push(t); self.vts.len() - 1 } };
        self.d.leaf(Leaf::VTable(n as u32))
    }
    pub fn new_alloc(&mut self) -> u32 { self.next_alloc += 1; self.next_alloc - 1 }
    pub fn ptr(&mut self, a: u32, off: i64) -> Dd { self.d.leaf(Leaf::Ptr(Base::Alloc(a), off)) }
    pub fn opaque(&mut self) -> Dd { self.opaque_n += 1; let n = self.opaque_n; self.d.leaf(Leaf::Opaque(n)) }
    pub fn scalar(&self, v: Dd, sz: u8) -> Val { Val { sz: sz as u64, c: vec![(0, Cell { sz, v, org: self.cur_org })] } }
    pub fn usize_val(&mut self, n: u64) -> Val { let v = self.d.int(n as u128, 8); self.scalar(v, 8) }
    pub fn bool_val(&self, b: Dd) -> Val { self.scalar(b, 1) }
    pub fn unit() -> Val { Val::default() }
    pub fn fat(&self, p: Dd, m: Dd) -> Val { Val { sz: 16, c: vec![(0, Cell { sz: 8, v: p, org: self.cur_org }), (8, Cell { sz: 8, v: m, org: self.cur_org })] } }
    pub fn sc(&self, v: &Val) -> R<Dd> {
        match v.c.first() {
            Some((0, c)) if v.c.len() == 1 || c.sz as u64 == v.sz => Ok(c.v),
            Some((_, c)) if v.c.len() == 1 => Ok(c.v),
            None => Ok(UNDEF),
            _ => err(format!("scalar expected, found aggregate of {} cells", v.c.len())),
        }
    }
    pub fn cell_at(&self, v: &Val, off: u64) -> Dd { v.c.iter().find(|x| x.0 == off).map_or(UNDEF, |x| x.1.v) }
    pub fn sub(&self, v: &Val, off: u64, sz: u64) -> Val {
        Val { sz, c: v.c.iter().filter(|x| x.0 >= off && x.0 < off + sz).map(|x| (x.0 - off, x.1)).collect() }
    }

    // ------------------------------------------------------------ constants
    fn global_of(&mut self, id: rustc_public::mir::alloc::AllocId) -> R<Dd> {
        let ga = GlobalAlloc::from(id);
        match &ga {
            GlobalAlloc::Function(i) => Ok(self.fun_leaf(*i)),
            GlobalAlloc::VTable(t, _) => Ok(self.vt_leaf(*t)),
            _ => {
                let n = match self.global_ix.get(&id) { Some(&n) => n, None => {
                    let mem = match &ga {
                        GlobalAlloc::Memory(a) => Some(a.clone()),
                        GlobalAlloc::Static(s) => s.eval_initializer().ok(),
                        _ => None,
                    };
                    self.globals.push((ga, mem));
                    let n = self.globals.len() as u32 - 1;
                    self.global_ix.insert(id, n);
                    n
                } };
                Ok(self.d.leaf(Leaf::Ptr(Base::Global(n), 0)))
            }
        }
    }
    fn scalar_from_alloc(&mut self, a: &Allocation, off: u64, sz: u8, float: bool) -> R<Option<Dd>> {
        let o = off as usize;
        if o + sz as usize > a.bytes.len() { return err("constant read out of range"); }
        if sz == 8 {
            if let Some((_, p)) = a.provenance.ptrs.iter().find(|x| x.0 as usize == o) {
                let add = a.read_partial_uint(o..o + 8).unwrap_or(0) as i64;
                let base = self.global_of(p.0)?;
                if add == 0 { return Ok(Some(base)); }
                return Ok(Some(self.ptr_add_const(base, add)));
            }
        }
        if a.bytes[o..o + sz as usize].iter().any(|b| b.is_none()) { return Ok(None); }
        let v = a.read_partial_uint(o..o + sz as usize).map_err(|e| format!("{e:?}"))?;
        if float {
            let (x, t) = if sz == 4 { let f = f32::from_bits(v as u32); (f as f64, format!("{f}")) } else { let f = f64::from_bits(v as u64); (f, format!("{f}")) };
            return Ok(Some(self.d.f_literal(x, &t, sz == 4)));
        }
        Ok(Some(self.d.int(v, sz)))
    }
    /// value of type ty at off inside a constant allocation
    pub fn val_from_alloc(&mut self, a: &Allocation, off: u64, ty: Ty) -> R<Val> {
        let sz = self.size(ty)?;
        let mut out = Val { sz, c: vec![] };
        self.walk_alloc(a, off, ty, 0, &mut out)?;
        out.c.sort_by_key(|x| x.0);
        out.c.dedup_by_key(|x| x.0);
        Ok(out)
    }
    fn push_sc(&mut self, a: &Allocation, off: u64, rel: u64, sz: u8, float: bool, out: &mut Val) -> R<()> {
        if let Some(v) = self.scalar_from_alloc(a, off + rel, sz, float)? { out.c.push((rel, Cell { sz, v, org: self.cur_org })); }
        Ok(())
    }
    fn walk_alloc(&mut self, a: &Allocation, off: u64, ty: Ty, rel: u64, out: &mut Val) -> R<()> {
        let k = self.kind(ty);
        let sz = self.size(ty)?;
        if sz == 0 { return Ok(()); }
        match &*k {
            TyKind::RigidTy(RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_)) => self.push_sc(a, off, rel, sz as u8, false, out),
            TyKind::RigidTy(RigidTy::Float(_)) => self.push_sc(a, off, rel, sz as u8, true, out),
            TyKind::RigidTy(RigidTy::FnPtr(_)) => self.push_sc(a, off, rel, 8, false, out),
            TyKind::RigidTy(RigidTy::Ref(..) | RigidTy::RawPtr(..) | RigidTy::Pat(..)) => {
                if sz == 8 || sz == 16 {
                    self.push_sc(a, off, rel, 8, false, out)?;
                    if sz == 16 { self.push_sc(a, off, rel + 8, 8, false, out)?; }
                    Ok(())
                } else { self.push_sc(a, off, rel, sz as u8, false, out) }
            }
            TyKind::RigidTy(RigidTy::Array(e, _)) => {
                let es = self.size(*e)?;
                if es == 0 { return Ok(()); }
                for i in 0..sz / es { self.walk_alloc(a, off, *e, rel + i * es, out)?; }
                Ok(())
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                for (i, t) in ts.iter().enumerate() { let o = self.field_offset(ty, None, i)?; self.walk_alloc(a, off, *t, rel + o, out)?; }
                Ok(())
            }
            TyKind::RigidTy(RigidTy::Closure(_, _)) => self.walk_words(a, off, rel, sz, out),
            TyKind::RigidTy(RigidTy::Adt(def, args)) => {
                let l = self.layout(ty)?;
                match def.kind() {
                    AdtKind::Struct => {
                        let v = def.variants();
                        for (i, f) in v[0].fields().iter().enumerate() {
                            let o = self.field_offset(ty, None, i)?;
                            let ft = f.ty_with_args(args);
                            self.walk_alloc(a, off, ft, rel + o, out)?;
                        }
                        Ok(())
                    }
                    AdtKind::Enum => {
                        let vi = match &l.variants {
                            VariantsShape::Empty => return Ok(()),
                            VariantsShape::Single { index } => index.to_index(),
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
                                let FieldsShape::Arbitrary { offsets } = &l.fields else { return err("enum layout") };
                                let to = offsets[*tag_field].bytes() as u64;
                                let ts = scalar_size(tag);
                                let fl = false;
                                self.push_sc(a, off, rel + to, ts, fl, out)?;
                                let Some(t) = self.scalar_from_alloc(a, off + rel + to, ts, false)? else { return Ok(()) };
                                let d = self.variant_of_tag(ty, def, &l, t)?;
                                match self.d.get(d) { Some(Leaf::Int(v, _)) => *v as usize, _ => return err("constant enum tag") }
                            }
                        };
                        let v = def.variants();
                        for (i, f) in v[vi].fields().iter().enumerate() {
                            let o = self.field_offset(ty, Some(vi), i)?;
                            let ft = f.ty_with_args(args);
                            self.walk_alloc(a, off, ft, rel + o, out)?;
                        }
                        Ok(())
                    }
                    AdtKind::Union => self.walk_words(a, off, rel, sz, out),
                }
            }
            x => err(format!("constant of type {x:?}")),
        }
    }
    fn walk_words(&mut self, a: &Allocation, off: u64, rel: u64, sz: u64, out: &mut Val) -> R<()> {
        let mut i = 0;
        while i < sz {
            let s = if sz - i >= 8 && (off + rel + i) % 8 == 0 { 8 } else if sz - i >= 4 && (off + rel + i) % 4 == 0 { 4 } else { 1 };
            self.push_sc(a, off, rel + i, s as u8, false, out)?;
            i += s;
        }
        Ok(())
    }
    pub fn constant(&mut self, c: &ConstOperand) -> R<Val> {
        let ty = c.const_.ty();
        match c.const_.kind() {
            ConstantKind::ZeroSized => Ok(Val::default()),
            ConstantKind::Allocated(a) => self.val_from_alloc(a, 0, ty),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.val_from_alloc(a, 0, *t),
                TyConstKind::ZSTValue(_) => Ok(Val::default()),
                x => err(format!("constant {x:?}")),
            },
            x => err(format!("unevaluated constant {x:?}")),
        }
    }

    // ------------------------------------------------------------ pointers and memory
    pub fn ptr_add_const(&mut self, p: Dd, n: i64) -> Dd {
        if n == 0 { return p; }
        self.d.op1("padd", n as u64, p, &mut |d, l| match l {
            Leaf::Ptr(b, o) => d.leaf(Leaf::Ptr(*b, o + n)),
            Leaf::Int(v, 8) => d.int((*v as u64).wrapping_add(n as u64) as u128, 8),
            _ => UNDEF,
        })
    }
    fn ptr_add(&mut self, p: Dd, i: Dd, stride: i64) -> Dd {
        self.d.op2("paddi", stride as u64, p, i, &mut |d, l, i| {
            let Leaf::Int(n, _) = i else { return UNDEF };
            let n = (*n as i64).wrapping_mul(stride);
            match l { Leaf::Ptr(b, o) => d.leaf(Leaf::Ptr(*b, o + n)), Leaf::Int(v, 8) => d.int((*v as u64).wrapping_add(n as u64) as u128, 8), _ => UNDEF }
        })
    }
    fn read_obj(&self, o: &BTreeMap<u64, Cell>, off: u64, sz: u64) -> Val {
        Val { sz, c: o.range(off..off + sz).map(|(k, c)| (k - off, *c)).collect() }
    }
    fn read_leaf(&mut self, st: &State, l: &Leaf, ty: Ty) -> R<Val> {
        let sz = self.size(ty)?;
        if sz == 0 { return Ok(Val::default()); }
        match l {
            Leaf::Ptr(Base::Alloc(a), o) => {
                let Some(m) = st.mem.get(a) else { return Ok(Val { sz, c: vec![] }) };
                if *o < 0 { return err("read before object"); }
                let v = self.read_obj(m, *o as u64, sz);
                // scalar read of differently sized constant cells
                let k = self.kind(ty);
                if k.is_primitive() && !(v.c.len() == 1 && v.c[0].0 == 0 && v.c[0].1.sz as u64 == sz) { return Ok(self.reslice(m, *o as u64, sz)); }
                Ok(v)
            }
            Leaf::Ptr(Base::Global(g), o) => {
                let Some(a) = self.globals[*g as usize].1.clone() else { return err("read of unknown global") };
                self.val_from_alloc(&a, *o as u64, ty)
            }
            Leaf::Undef => Ok(Val { sz, c: vec![] }),
            x => err(format!("read through {x:?}")),
        }
    }
    /// integer view of constant bytes
    fn reslice(&mut self, m: &BTreeMap<u64, Cell>, off: u64, sz: u64) -> Val {
        let lo = off.saturating_sub(16);
        let mut bytes: BTreeMap<u64, u8> = BTreeMap::new();
        for (k, c) in m.range(lo..off + sz) {
            if let Some(Leaf::Int(v, _)) = self.d.get(c.v) { for i in 0..c.sz as u64 { bytes.insert(k + i, (v >> (8 * i)) as u8); } }
        }
        let mut x: u128 = 0;
        for i in 0..sz { match bytes.get(&(off + i)) { Some(b) => x |= (*b as u128) << (8 * i), None => return Val { sz, c: vec![] } } }
        let v = self.d.int(x, sz as u8);
        self.scalar(v, sz as u8)
    }
    pub fn read(&mut self, st: &State, p: Dd, ty: Ty) -> R<Val> {
        if let Some(l) = self.d.get(p) { let l = l.clone(); return self.read_leaf(st, &l, ty); }
        // gated pointer: gate the values read through every target
        let p = self.d.restrict(p, st.pc);
        if let Some(l) = self.d.get(p) { let l = l.clone(); return self.read_leaf(st, &l, ty); }
        let lvs = self.d.leaves(p);
        let mut vals: HashMap<Dd, Val> = HashMap::new();
        let mut offs: BTreeMap<u64, Cell> = BTreeMap::new();
        let sz = self.size(ty)?;
        for l in lvs {
            let lf = self.d.get(l).unwrap().clone();
            let v = match &lf { Leaf::Ptr(..) => self.read_leaf(st, &lf, ty)?, _ => Val { sz, c: vec![] } };
            for (o, c) in &v.c { offs.entry(*o).or_insert(*c); }
            vals.insert(l, v);
        }
        let mut out = Val { sz, c: vec![] };
        for (o, c) in offs {
            let v = self.d.map1(p, &mut |d, l| {
                let id = d.leaf(l.clone());
                vals[&id].c.iter().find(|x| x.0 == o).map_or(UNDEF, |x| x.1.v)
            });
            out.c.push((o, Cell { sz: c.sz, v, org: c.org }));
        }
        Ok(out)
    }
    fn write_obj(&mut self, st: &mut State, a: u32, off: u64, v: &Val) {
        let m = st.mem.entry(a).or_default();
        let m = Rc::make_mut(m);
        if v.sz == 0 { return; }
        let kill: Vec<u64> = m.range(off.saturating_sub(16)..off + v.sz).filter(|(k, c)| **k + c.sz as u64 > off).map(|x| *x.0).collect();
        for k in kill { m.remove(&k); }
        for (o, c) in &v.c { m.insert(off + o, *c); }
    }
    pub fn write(&mut self, st: &mut State, p: Dd, v: &Val) -> R<()> {
        if v.sz == 0 { return Ok(()); }
        let p = if self.d.get(p).is_none() { self.d.restrict(p, st.pc) } else { p };
        match self.d.get(p).cloned() {
            Some(Leaf::Ptr(Base::Alloc(a), o)) => { self.write_obj(st, a, o as u64, v); Ok(()) }
            Some(Leaf::Ptr(Base::Global(_), _)) => { let pc = st.pc; self.io_events.push((pc, "write to global memory".into())); Ok(()) }
            Some(l) => err(format!("write through {l:?}")),
            None => {
                for l in self.d.leaves(p) {
                    let Some(Leaf::Ptr(Base::Alloc(a), o)) = self.d.get(l).cloned() else {
                        if l == UNDEF { continue; }
                        return err("gated write through non-pointer");
                    };
                    let cond = self.d.map1(p, &mut |d, x| { let id = d.leaf(x.clone()); d.boolean(id == l) });
                    let old = st.mem.get(&a).map(|m| self.read_obj(m, o as u64, v.sz)).unwrap_or_default();
                    let new = self.merge_val(cond, v, &old);
                    self.write_obj(st, a, o as u64, &new);
                }
                Ok(())
            }
        }
    }
    /// if cond then a else b, cell by cell; a cell absent on one side is uninitialised there (don't care)
    fn merge_val(&mut self, cond: Dd, a: &Val, b: &Val) -> Val {
        let mut m: BTreeMap<u64, Cell> = b.c.iter().cloned().collect();
        for (o, c) in &a.c {
            let n = match m.get(o) {
                Some(x) if x.sz == c.sz => Cell { sz: c.sz, v: self.d.ite(cond, c.v, x.v), org: if c.v == x.v { x.org } else { c.org } },
                _ => *c,
            };
            m.insert(*o, n);
        }
        Val { sz: a.sz.max(b.sz), c: m.into_iter().collect() }
    }
    fn merge_states(&mut self, g: Dd, a: State, b: State) -> State {
        self.joins += 1;
        let pc = self.d.or(a.pc, b.pc);
        let mut mem = b.mem;
        for (id, oa) in a.mem {
            match mem.get(&id) {
                Some(ob) if Rc::ptr_eq(&oa, ob) => {}
                Some(ob) => {
                    let ob = ob.clone();
                    let mut n: BTreeMap<u64, Cell> = (*ob).clone();
                    for (o, c) in oa.iter() {
                        let nc = match ob.get(o) {
                            Some(x) if x.v == c.v && x.sz == c.sz => continue,
                            Some(x) if x.sz == c.sz => Cell { sz: c.sz, v: self.d.ite(g, c.v, x.v), org: c.org },
                            Some(_) => *c,
                            None => *c,
                        };
                        n.insert(*o, nc);
                    }
                    mem.insert(id, Rc::new(n));
                }
                None => { mem.insert(id, oa); }
            }
        }
        State { mem, pc }
    }

    // ------------------------------------------------------------ enums
    fn variant_of_tag(&mut self, _ty: Ty, def: &AdtDef, l: &LayoutShape, tag: Dd) -> R<Dd> {
        let VariantsShape::Multiple { tag: ts, tag_encoding, .. } = &l.variants else { return err("single variant") };
        let tsz = scalar_size(ts);
        let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
        match tag_encoding {
            TagEncoding::Direct => {
                let vs = def.variants();
                let mut tab = vec![];
                for (i, v) in vs.iter().enumerate() { tab.push((def.discriminant_for_variant(v.idx()).val & mask, i as u128)); }
                Ok(self.d.map1(tag, &mut |d, l| match l {
                    Leaf::Int(v, _) => match tab.iter().find(|x| x.0 == *v) { Some(x) => d.int(x.1, 8), None => UNDEF },
                    _ => UNDEF,
                }))
            }
            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                let (u, s, e) = (untagged_variant.to_index() as u128, niche_variants.start().to_index() as u128, niche_variants.end().to_index() as u128);
                let ns = *niche_start;
                Ok(self.d.map1(tag, &mut |d, l| match l {
                    Leaf::Int(v, _) => { let r = v.wrapping_sub(ns) & mask; if r <= e - s { d.int(s + r, 8) } else { d.int(u, 8) } }
                    Leaf::Undef => UNDEF,
                    _ => d.int(u, 8),
                }))
            }
        }
    }
    fn discriminant(&mut self, st: &State, pl: &Place2) -> R<Val> {
        let ty = pl.ty;
        let k = self.kind(ty);
        let TyKind::RigidTy(RigidTy::Adt(def, _)) = &*k else { let v = self.d.int(0, 8); return Ok(self.scalar(v, 8)) };
        let dt = k.discriminant_ty().ok_or("discriminant type")?;
        let dsz = self.size(dt)? as u8;
        let mask = if dsz == 16 { u128::MAX } else { (1u128 << (8 * dsz)) - 1 };
        let l = self.layout(ty)?;
        match &l.variants {
            VariantsShape::Empty => err("discriminant of uninhabited type"),
            VariantsShape::Single { index } => {
                let v = if def.kind() == AdtKind::Enum { def.discriminant_for_variant(*index).val } else { 0 };
                let v = self.d.int(v & mask, dsz);
                Ok(self.scalar(v, dsz))
            }
            VariantsShape::Multiple { tag, tag_field, .. } => {
                let FieldsShape::Arbitrary { offsets } = &l.fields else { return err("enum layout") };
                let to = offsets[*tag_field].bytes() as i64;
                let ts = scalar_size(tag);
                let p = self.ptr_add_const(pl.ptr, to);
                let tty = match ts { 1 => Ty::unsigned_ty(UintTy::U8), 2 => Ty::unsigned_ty(UintTy::U16), 4 => Ty::unsigned_ty(UintTy::U32), 8 => Ty::unsigned_ty(UintTy::U64), _ => Ty::unsigned_ty(UintTy::U128) };
                let t = self.read(st, p, tty)?;
                let t = self.sc(&t)?;
                let v = self.variant_of_tag(ty, def, &l, t)?;
                let tab: Vec<u128> = def.variants().iter().map(|v| def.discriminant_for_variant(v.idx()).val & mask).collect();
                let v = self.d.map1(v, &mut |d, l| match l { Leaf::Int(i, _) => d.int(tab[*i as usize], dsz), _ => UNDEF });
                Ok(self.scalar(v, dsz))
            }
        }
    }
    /// tag cell for a variant, if the layout stores one
    fn tag_cell(&mut self, ty: Ty, def: &AdtDef, vi: usize) -> R<Option<(u64, Cell)>> {
        let l = self.layout(ty)?;
        let VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } = &l.variants else { return Ok(None) };
        let FieldsShape::Arbitrary { offsets } = &l.fields else { return err("enum layout") };
        let to = offsets[*tag_field].bytes() as u64;
        let ts = scalar_size(tag);
        let mask = if ts == 16 { u128::MAX } else { (1u128 << (8 * ts)) - 1 };
        let v = match tag_encoding {
            TagEncoding::Direct => { let vs = def.variants(); def.discriminant_for_variant(vs[vi].idx()).val & mask }
            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                if vi == untagged_variant.to_index() { return Ok(None); }
                niche_start.wrapping_add((vi - niche_variants.start().to_index()) as u128) & mask
            }
        };
        let v = self.d.int(v, ts);
        Ok(Some((to, Cell { sz: ts, v, org: self.cur_org })))
    }
    pub fn make_enum(&mut self, ty: Ty, vi: usize, fields: &[Val]) -> R<Val> {
        let k = self.kind(ty);
        let TyKind::RigidTy(RigidTy::Adt(def, _)) = &*k else { return err("make_enum") };
        let mut out = Val { sz: self.size(ty)?, c: vec![] };
        for (i, f) in fields.iter().enumerate() {
            let o = self.field_offset(ty, Some(vi), i)?;
            for (x, c) in &f.c { out.c.push((o + x, *c)); }
        }
        if let Some(t) = self.tag_cell(ty, def, vi)? { out.c.push(t); }
        out.c.sort_by_key(|x| x.0);
        Ok(out)
    }

    // ------------------------------------------------------------ places and operands
    fn local_ptr(&mut self, fr: &Frame, l: usize) -> Dd { self.ptr(fr.base + l as u32, 0) }
    pub fn place(&mut self, fr: &Frame, st: &State, p: &Place) -> R<Place2> {
        let mut cur = Place2 { ptr: self.local_ptr(fr, p.local), meta: None, ty: fr.b.body.locals()[p.local].ty, variant: None };
        for e in &p.projection {
            cur = match e {
                ProjectionElem::Deref => {
                    let k = self.kind(cur.ty);
                    if k.is_box() { return err("dereference of Box"); }
                    let t = self.pointee(cur.ty).ok_or_else(|| format!("deref of {:?}", cur.ty))?;
                    let v = self.read(st, cur.ptr, cur.ty)?;
                    let ptr = self.cell_at(&v, 0);
                    let meta = if self.is_unsized_ptr(t) { Some(self.cell_at(&v, 8)) } else { None };
                    Place2 { ptr, meta, ty: t, variant: None }
                }
                ProjectionElem::Field(i, ft) => {
                    let o = self.field_offset(cur.ty, cur.variant, *i)?;
                    let ptr = self.ptr_add_const(cur.ptr, o as i64);
                    let meta = if self.is_unsized_ptr(*ft) { cur.meta } else { None };
                    Place2 { ptr, meta, ty: *ft, variant: None }
                }
                ProjectionElem::Downcast(v) => Place2 { variant: Some(v.to_index()), ..cur },
                ProjectionElem::OpaqueCast(t) => Place2 { ty: *t, ..cur },
                ProjectionElem::Index(l) => {
                    let et = self.kind(cur.ty).builtin_index().ok_or("index of non-array")?;
                    let es = self.size(et)?;
                    let ip = self.local_ptr(fr, *l);
                    let iv = self.read(st, ip, Ty::usize_ty())?;
                    let i = self.sc(&iv)?;
                    let ptr = self.ptr_add(cur.ptr, i, es as i64);
                    Place2 { ptr, meta: None, ty: et, variant: None }
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let et = self.kind(cur.ty).builtin_index().ok_or("index of non-array")?;
                    let es = self.size(et)?;
                    let i = if *from_end { self.len_of(&cur)? - *offset } else { *offset };
                    let ptr = self.ptr_add_const(cur.ptr, (i * es) as i64);
                    Place2 { ptr, meta: None, ty: et, variant: None }
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let et = self.kind(cur.ty).builtin_index().ok_or("index of non-array")?;
                    let es = self.size(et)?;
                    let n = self.len_of(&cur)?;
                    let end = if *from_end { n - *to } else { *to };
                    let ptr = self.ptr_add_const(cur.ptr, (*from * es) as i64);
                    let nt = e.ty(cur.ty).map_err(|e| format!("{e:?}"))?;
                    let meta = if cur.meta.is_some() { Some(self.d.int((end - *from) as u128, 8)) } else { None };
                    Place2 { ptr, meta, ty: nt, variant: None }
                }
            };
        }
        Ok(cur)
    }
    fn len_of(&mut self, p: &Place2) -> R<u64> {
        match &*self.kind(p.ty) {
            TyKind::RigidTy(RigidTy::Array(_, n)) => n.eval_target_usize().map_err(|e| format!("{e:?}")),
            _ => match p.meta.and_then(|m| self.d.get(m).cloned()) { Some(Leaf::Int(n, _)) => Ok(n as u64), _ => err("slice of unknown length") },
        }
    }
    pub fn operand(&mut self, fr: &Frame, st: &State, o: &Operand) -> R<Val> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => { let pl = self.place(fr, st, p)?; self.read(st, pl.ptr, pl.ty) }
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(_) => Ok(self.bool_val(FALSE)),
        }
    }
    fn opty(&self, fr: &Frame, o: &Operand) -> R<Ty> { o.ty(fr.b.body.locals()).map_err(|e| format!("{e:?}")) }

    // ------------------------------------------------------------ operators
    fn int_info(&mut self, t: Ty) -> Option<(bool, u8)> {
        match &*self.kind(t) {
            TyKind::RigidTy(RigidTy::Int(i)) => Some((true, i.num_bytes() as u8)),
            TyKind::RigidTy(RigidTy::Uint(i)) => Some((false, i.num_bytes() as u8)),
            TyKind::RigidTy(RigidTy::Bool) => Some((false, 1)),
            TyKind::RigidTy(RigidTy::Char) => Some((false, 4)),
            _ => None,
        }
    }
    pub fn is_float(&mut self, t: Ty) -> bool { self.kind(t).is_float() }
    /// (result, overflowed)
    fn int_bin(&mut self, op: BinOp, signed: bool, sz: u8, a: Dd, b: Dd, bsigned: bool, bsz: u8) -> (Dd, Dd) {
        let key = (op as u64) << 32 | (signed as u64) << 16 | (sz as u64) << 8 | (bsigned as u64) << 5 | bsz as u64;
        let f = move |x: u128, y: u128| -> Option<(u128, bool)> {
            let bits = 8 * sz as u32;
            let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
            let sx = |v: u128, b: u32| -> i128 { if b == 128 { v as i128 } else { ((v << (128 - b)) as i128) >> (128 - b) } };
            use BinOp::*;
            let (r, ov): (i128, bool) = match op {
                Add | AddUnchecked | Sub | SubUnchecked | Mul | MulUnchecked => {
                    if bits == 128 {
                        let (r, o) = match op { Add | AddUnchecked => x.overflowing_add(y), Sub | SubUnchecked => x.overflowing_sub(y), _ => x.overflowing_mul(y) };
                        (r as i128, o)
                    } else {
                        let (p, q) = if signed { (sx(x, bits), sx(y, bits)) } else { (x as i128, y as i128) };
                        let r = match op { Add | AddUnchecked => p + q, Sub | SubUnchecked => p - q, _ => p.checked_mul(q)? };
                        let ov = if signed { r < -(1i128 << (bits - 1)) || r >= 1i128 << (bits - 1) } else { r < 0 || r > mask as i128 };
                        (r, ov)
                    }
                }
                Div | Rem => {
                    if y == 0 { return None; }
                    if signed { let (p, q) = (sx(x, bits), sx(y, bits)); (if op == Div { p / q } else { p % q }, false) }
                    else { ((if op == Div { x / y } else { x % y }) as i128, false) }
                }
                BitXor => ((x ^ y) as i128, false),
                BitAnd => ((x & y) as i128, false),
                BitOr => ((x | y) as i128, false),
                Shl | ShlUnchecked | Shr | ShrUnchecked => {
                    let s = if bsigned { sx(y, 8 * bsz as u32) } else { y as i128 };
                    let ov = s < 0 || s >= bits as i128;
                    let s = (s as u32) & (bits - 1);
                    let r = if matches!(op, Shl | ShlUnchecked) { (x << s) as i128 } else if signed { sx(x, bits) >> s } else { (x >> s) as i128 };
                    (r, ov)
                }
                Eq | Ne | Lt | Le | Gt | Ge => {
                    let o = if signed { sx(x, bits).cmp(&sx(y, bits)) } else { x.cmp(&y) };
                    let r = match op { Eq => o.is_eq(), Ne => o.is_ne(), Lt => o.is_lt(), Le => o.is_le(), Gt => o.is_gt(), _ => o.is_ge() };
                    return Some((r as u128, false));
                }
                Cmp => {
                    let o = if signed { sx(x, bits).cmp(&sx(y, bits)) } else { x.cmp(&y) };
                    return Some(((o as i8) as u8 as u128, false));
                }
                Offset => return None,
            };
            Some((r as u128 & mask, ov))
        };
        let cmp = matches!(op, BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Cmp);
        let rs = if cmp { 1 } else { sz };
        let r = self.d.op2("ibin", key, a, b, &mut |d, x, y| match (x, y) {
            (Leaf::Int(x, _), Leaf::Int(y, _)) => match f(*x, *y) { Some((r, _)) => d.int(r, rs), None => UNDEF },
            (x, y) if cmp => ptr_cmp(d, op, x, y),
            (Leaf::Ptr(p, o), Leaf::Int(n, _)) if op == BinOp::Add => d.leaf(Leaf::Ptr(*p, o + *n as i64)),
            (Leaf::Ptr(p, o), Leaf::Ptr(q, r)) if op == BinOp::Sub && p == q => d.int((o - r) as u64 as u128, 8),
            (Leaf::Ptr(..), Leaf::Int(n, _)) if op == BinOp::BitAnd && *n < 8 => d.int(0, 8),
            _ => UNDEF,
        });
        let ov = if cmp { FALSE } else { self.d.op2("iov", key, a, b, &mut |d, x, y| match (x, y) {
            (Leaf::Int(x, _), Leaf::Int(y, _)) => match f(*x, *y) { Some((_, o)) => d.boolean(o), None => UNDEF },
            _ => FALSE,
        }) };
        (r, ov)
    }
    fn binop(&mut self, op: BinOp, a: &Val, ta: Ty, b: &Val, tb: Ty) -> R<Dd> {
        if self.is_float(ta) {
            let (x, y) = (self.sc(a)?, self.sc(b)?);
            let d = &mut self.d;
            return Ok(match op {
                BinOp::Add => d.f_add(x, y),
                BinOp::Sub => d.f_sub(x, y),
                BinOp::Mul => d.f_mul(x, y),
                BinOp::Div => d.f_div(x, y),
                BinOp::Eq => d.f_cmp("feq", x, y, false, true, false),
                BinOp::Ne => d.f_cmp("fne", x, y, true, false, true),
                BinOp::Lt => d.f_cmp("flt", x, y, true, false, false),
                BinOp::Le => d.f_cmp("fle", x, y, true, true, false),
                BinOp::Gt => d.f_cmp("fgt", x, y, false, false, true),
                BinOp::Ge => d.f_cmp("fge", x, y, false, true, true),
                BinOp::Rem => d.f_fun2("rem", x, y),
                _ => return err(format!("float operator {op:?}")),
            });
        }
        if op == BinOp::Offset {
            let t = self.pointee(ta).ok_or("offset of non-pointer")?;
            let es = self.size(t)?;
            let (x, y) = (self.sc(a)?, self.sc(b)?);
            return Ok(self.ptr_add(x, y, es as i64));
        }
        let (s, z) = match self.int_info(ta) { Some(x) => x, None => (false, 8) };
        let (bs, bz) = self.int_info(tb).unwrap_or((false, 8));
        // wide pointers: compare address and metadata
        if a.c.len() == 2 && b.c.len() == 2 && matches!(op, BinOp::Eq | BinOp::Ne) {
            let (p, _) = self.int_bin(BinOp::Eq, false, 8, self.cell_at(a, 0), self.cell_at(b, 0), false, 8);
            let (m, _) = self.int_bin(BinOp::Eq, false, 8, self.cell_at(a, 8), self.cell_at(b, 8), false, 8);
            let r = self.d.and(p, m);
            return Ok(if op == BinOp::Eq { r } else { self.d.not(r) });
        }
        let (x, y) = (self.sc(a)?, self.sc(b)?);
        if z == 1 && op == BinOp::BitAnd && self.kind(ta).is_bool() { return Ok(self.d.and(x, y)); }
        if z == 1 && op == BinOp::BitOr && self.kind(ta).is_bool() { return Ok(self.d.or(x, y)); }
        Ok(self.int_bin(op, s, z, x, y, bs, bz).0)
    }
    pub fn cast(&mut self, kind: &CastKind, v: Val, from: Ty, to: Ty) -> R<Val> {
        let tsz = self.size(to)?;
        match kind {
            CastKind::IntToInt => {
                let (s, z) = self.int_info(from).or_else(|| Some((false, 8))).unwrap();
                let x = self.sc(&v)?;
                let bits = 8 * z as u32;
                let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                let r = self.d.map1(x, &mut |d, l| match l {
                    Leaf::Int(v, _) => { let w = if s && bits < 128 { (((*v << (128 - bits)) as i128) >> (128 - bits)) as u128 } else { *v }; d.int(w & mask, tsz as u8) }
                    Leaf::Ptr(..) if tsz == 8 => d.leaf(l.clone()),
                    _ => UNDEF,
                });
                Ok(self.scalar(r, tsz as u8))
            }
            CastKind::IntToFloat => {
                let (s, z) = self.int_info(from).ok_or("int cast")?;
                let bits = 8 * z as u32;
                let x = self.sc(&v)?;
                let r = self.d.map1(x, &mut |d, l| match l {
                    Leaf::Int(v, _) => { let w = if s && bits < 128 { ((*v << (128 - bits)) as i128) >> (128 - bits) } else { *v as i128 }; d.f_const(Rat::from_integer(w.into())) }
                    _ => UNDEF,
                });
                Ok(self.scalar(r, tsz as u8))
            }
            CastKind::FloatToFloat => { let x = self.sc(&v)?; let fsz = self.size(from)?; let r = match (fsz, tsz) { (8, 4) => self.d.f_narrow(x), (4, 8) => self.d.f_widen(x), _ => x }; Ok(self.scalar(r, tsz as u8)) }
            CastKind::FloatToInt => {
                let x = self.sc(&v)?;
                let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                let r = self.d.map1(x, &mut |d, l| match l {
                    Leaf::Num(p) => match d.alg.as_const(*p) { Some(c) => { let t = c.to_integer(); let w: i128 = t.to_string().parse().unwrap_or(0); d.int(w as u128 & mask, tsz as u8) } None => UNDEF },
                    _ => UNDEF,
                });
                if self.d.leaves(r).contains(&UNDEF) { return err("float to integer conversion of an unknown value"); }
                Ok(self.scalar(r, tsz as u8))
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::PointerExposeAddress | CastKind::PointerWithExposedProvenance => {
                Ok(self.sub(&v, 0, tsz))
            }
            CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                let (Some(f), Some(t)) = (self.pointee(from), self.pointee(to)) else { return err("unsize of a non-reference") };
                let p = self.cell_at(&v, 0);
                let fk = self.kind(f);
                let tk = self.kind(t);
                match (&*fk, &*tk) {
                    (TyKind::RigidTy(RigidTy::Array(_, n)), TyKind::RigidTy(RigidTy::Slice(_))) => {
                        let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
                        let m = self.d.int(n as u128, 8);
                        Ok(self.fat(p, m))
                    }
                    (TyKind::RigidTy(RigidTy::Dynamic(..)), TyKind::RigidTy(RigidTy::Dynamic(..))) => Ok(v),
                    (_, TyKind::RigidTy(RigidTy::Dynamic(..))) => { let m = self.vt_leaf(f); Ok(self.fat(p, m)) }
                    (TyKind::RigidTy(RigidTy::Adt(fd, fa)), TyKind::RigidTy(RigidTy::Adt(td, ta))) if fd == td => {
                        // the tail of the struct loses its size
                        let (mut a, mut b) = (self.adt_tail(fd, fa)?, self.adt_tail(td, ta)?);
                        loop {
                            let (ka, kb) = (self.kind(a), self.kind(b));
                            match (&*ka, &*kb) {
                                (TyKind::RigidTy(RigidTy::Array(_, n)), TyKind::RigidTy(RigidTy::Slice(_))) => {
                                    let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
                                    let m = self.d.int(n as u128, 8);
                                    return Ok(self.fat(p, m));
                                }
                                (TyKind::RigidTy(RigidTy::Adt(x, xa)), TyKind::RigidTy(RigidTy::Adt(y, ya))) if x == y => {
                                    a = self.adt_tail(x, xa)?;
                                    b = self.adt_tail(y, ya)?;
                                }
                                (_, TyKind::RigidTy(RigidTy::Dynamic(..))) => { let m = self.vt_leaf(a); return Ok(self.fat(p, m)); }
                                _ => return err("unsupported unsizing"),
                            }
                        }
                    }
                    _ => err("unsupported unsizing"),
                }
            }
            CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => match &*self.kind(from) {
                TyKind::RigidTy(RigidTy::FnDef(def, args)) => {
                    let i = Instance::resolve_for_fn_ptr(*def, args).map_err(|e| format!("{e:?}"))?;
                    let l = self.fun_leaf(i);
                    Ok(self.scalar(l, 8))
                }
                _ => err("reify"),
            },
            CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => match &*self.kind(from) {
                TyKind::RigidTy(RigidTy::Closure(def, args)) => {
                    let i = Instance::resolve_closure(*def, args, ClosureKind::FnOnce).map_err(|e| format!("{e:?}"))?;
                    let l = self.fun_leaf(i);
                    Ok(self.scalar(l, 8))
                }
                _ => err("closure to fn pointer"),
            },
            CastKind::PointerCoercion(_) | CastKind::Subtype => Ok(Val { sz: tsz, c: v.c }),
            CastKind::Transmute | CastKind::BoxDerefTransmute => self.transmute(v, from, to),
        }
    }
    fn transmute(&mut self, v: Val, from: Ty, to: Ty) -> R<Val> {
        let (ff, tf) = (self.is_float(from), self.is_float(to));
        let tsz = self.size(to)?;
        if ff != tf {
            let x = self.sc(&v)?;
            let k = self.kind(to);
            let kf = self.kind(from);
            if ff && k.is_integral() {
                // bits of a float: constants only
                let mut bad = false;
                let r = self.d.map1(x, &mut |d, l| match l {
                    Leaf::Num(p) => match d.alg.as_const(*p) {
                        Some(c) => { let f = rat_f64(&c); let b = if tsz == 4 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }; d.int(b, tsz as u8) }
                        None => { bad = true; UNDEF }
                    },
                    _ => UNDEF,
                });
                if bad { return err("bit pattern of a symbolic float"); }
                return Ok(self.scalar(r, tsz as u8));
            }
            if tf && kf.is_integral() {
                let mut bad = false;
                let r = self.d.map1(x, &mut |d, l| match l {
                    Leaf::Int(b, _) => { let (f, t) = if tsz == 4 { let f = f32::from_bits(*b as u32); (f as f64, format!("{f}")) } else { let f = f64::from_bits(*b as u64); (f, format!("{f}")) }; d.f_literal(f, &t, tsz == 4) }
                    _ => { bad = true; UNDEF }
                });
                if bad { return err("float from unknown bits"); }
                return Ok(self.scalar(r, tsz as u8));
            }
        }
        Ok(Val { sz: tsz, c: v.c })
    }
    fn rvalue(&mut self, fr: &Frame, st: &State, r: &Rvalue, dty: Ty) -> R<Val> {
        match r {
            Rvalue::Use(o, _) => self.operand(fr, st, o),
            Rvalue::CopyForDeref(p) => { let pl = self.place(fr, st, p)?; self.read(st, pl.ptr, pl.ty) }
            Rvalue::Reborrow(_, _, p) => { let pl = self.place(fr, st, p)?; self.read(st, pl.ptr, pl.ty) }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => {
                let pl = self.place(fr, st, p)?;
                Ok(match pl.meta { Some(m) => self.fat(pl.ptr, m), None => self.scalar(pl.ptr, 8) })
            }
            Rvalue::BinaryOp(op, a, b) => {
                let (x, y) = (self.operand(fr, st, a)?, self.operand(fr, st, b)?);
                let (tx, ty) = (self.opty(fr, a)?, self.opty(fr, b)?);
                if self.total && *op == BinOp::Div && self.is_float(tx) { let q = self.sc(&y)?; self.in_domain(st.pc, "div", q); }
                let v = self.binop(*op, &x, tx, &y, ty)?;
                let sz = self.size(dty)?;
                Ok(self.scalar(v, sz as u8))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (x, y) = (self.operand(fr, st, a)?, self.operand(fr, st, b)?);
                let (tx, ty) = (self.opty(fr, a)?, self.opty(fr, b)?);
                let (s, z) = self.int_info(tx).ok_or("checked op on non-integer")?;
                let (bs, bz) = self.int_info(ty).ok_or("checked op on non-integer")?;
                let (xx, yy) = (self.sc(&x)?, self.sc(&y)?);
                let (v, o) = self.int_bin(*op, s, z, xx, yy, bs, bz);
                let o1 = self.field_offset(dty, None, 1)?;
                let o0 = self.field_offset(dty, None, 0)?;
                let org = self.cur_org;
                Ok(Val { sz: self.size(dty)?, c: vec![(o0, Cell { sz: z, v, org }), (o1, Cell { sz: 1, v: o, org })] })
            }
            Rvalue::UnaryOp(op, a) => {
                let x = self.operand(fr, st, a)?;
                let t = self.opty(fr, a)?;
                match op {
                    UnOp::Neg if self.is_float(t) => { let v = self.sc(&x)?; let r = self.d.f_neg(v); Ok(self.scalar(r, x.sz as u8)) }
                    UnOp::Neg => {
                        let (s, z) = self.int_info(t).ok_or("neg")?;
                        let zero = self.d.int(0, z);
                        let v = self.sc(&x)?;
                        let r = self.int_bin(BinOp::Sub, s, z, zero, v, s, z).0;
                        Ok(self.scalar(r, z))
                    }
                    UnOp::Not => {
                        let v = self.sc(&x)?;
                        let k = self.kind(t);
                        if k.is_bool() { let r = self.d.not(v); return Ok(self.bool_val(r)); }
                        let (s, z) = self.int_info(t).ok_or("not")?;
                        let m = self.d.int(if z == 16 { u128::MAX } else { (1u128 << (8 * z)) - 1 }, z);
                        let r = self.int_bin(BinOp::BitXor, s, z, v, m, s, z).0;
                        Ok(self.scalar(r, z))
                    }
                    UnOp::PtrMetadata => {
                        if x.sz == 16 { let m = self.cell_at(&x, 8); Ok(self.scalar(m, 8)) } else { Ok(Val::default()) }
                    }
                }
            }
            Rvalue::Cast(k, o, t) => { let v = self.operand(fr, st, o)?; let f = self.opty(fr, o)?; self.cast(k, v, f, *t) }
            Rvalue::Discriminant(p) => { let pl = self.place(fr, st, p)?; self.discriminant(st, &pl) }
            Rvalue::Len(p) => { let pl = self.place(fr, st, p)?; if let Some(m) = pl.meta { return Ok(self.scalar(m, 8)); } let n = self.len_of(&pl)?; Ok(self.usize_val(n)) }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(fr, st, o)?;
                let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
                let mut out = Val { sz: v.sz * n, c: vec![] };
                for i in 0..n { for (o, c) in &v.c { out.c.push((i * v.sz + o, *c)); } }
                Ok(out)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut out = Val { sz: self.size(dty)?, c: vec![] };
                let mut fields = vec![];
                for o in ops { fields.push(self.operand(fr, st, o)?); }
                match k {
                    AggregateKind::Array(t) => { let es = self.size(*t)?; for (i, f) in fields.iter().enumerate() { for (o, c) in &f.c { out.c.push((i as u64 * es + o, *c)); } } }
                    AggregateKind::Tuple | AggregateKind::Closure(..) => {
                        for (i, f) in fields.iter().enumerate() { let o = self.field_offset(dty, None, i)?; for (x, c) in &f.c { out.c.push((o + x, *c)); } }
                        out.c.sort_by_key(|x| x.0);
                    }
                    AggregateKind::Adt(def, v, _, _, active) => {
                        if let Some(_) = active { let f = &fields[0]; out.c = f.c.clone(); return Ok(out); }
                        if def.kind() == AdtKind::Enum { return self.make_enum(dty, v.to_index(), &fields); }
                        for (i, f) in fields.iter().enumerate() { let o = self.field_offset(dty, None, i)?; for (x, c) in &f.c { out.c.push((o + x, *c)); } }
                        out.c.sort_by_key(|x| x.0);
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let p = self.sc(&fields[0])?;
                        if self.is_unsized_ptr(*t) { let m = self.sc(&fields[1])?; return Ok(self.fat(p, m)); }
                        return Ok(self.scalar(p, 8));
                    }
                    x => return err(format!("aggregate {x:?}")),
                }
                Ok(out)
            }
            Rvalue::ThreadLocalRef(_) => err("thread-local state accessed"),
        }
    }

    // ------------------------------------------------------------ execution
    pub fn feas(&mut self, c: Dd) -> bool {
        if c == FALSE { return false; }
        if c == TRUE { return true; }
        if let Some(&b) = self.feas_memo.get(&c) { return b; }
        let b = self.d.feasible(c).is_some();
        self.feas_memo.insert(c, b);
        b
    }
    fn set_org(&mut self, fr: &Frame, span: Span) {
        if !fr.b.repo { return; }
        let key = (fr.b.name.clone(), Some(span));
        self.cur_org = match self.org_ix.get(&key) { Some(&i) => i, None => { self.orgs.push(key.clone()); let i = self.orgs.len() as u32 - 1; self.org_ix.insert(key, i); i } };
    }
    pub fn show_org(&self, o: u32) -> String {
        match &self.orgs[o as usize] { (n, Some(s)) => format!("{} ({}:{})", n, short(&s.get_filename()), s.get_lines().start_line), (n, None) => n.clone() }
    }
    fn tick(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > self.max_steps { return err("analysis step limit exceeded"); }
        if self.steps & 0xff == 0 && std::time::Instant::now() > self.deadline { return err("analysis time limit exceeded"); }
        if let Some(g) = &self.d.giveup { return err(g.clone()); }
        Ok(())
    }
    fn constructor(&mut self, inst: Instance, args: &[Val]) -> R<Option<Val>> {
        let Ok(abi) = inst.fn_abi() else { return Ok(None) };
        let ty = abi.ret.ty;
        let k = self.kind(ty);
        let TyKind::RigidTy(RigidTy::Adt(def, _)) = &*k else { return Ok(None) };
        let full = inst.name();
        // the last path segment, without its generic arguments
        let (mut depth, mut cut) = (0, vec![]);
        for c in full.chars() { match c { '<' => depth += 1, '>' => depth -= 1, c if depth == 0 => cut.push(c), _ => {} } }
        let plain: String = cut.into_iter().collect();
        let plain = plain.trim_end_matches("::");
        let last = plain.rsplit("::").next().unwrap_or("");
        let vs = def.variants();
        if def.kind() == AdtKind::Enum {
            let Some(i) = vs.iter().position(|v| v.name() == last && v.fields().len() == args.len()) else { return Ok(None) };
            return self.make_enum(ty, i, args).map(Some);
        }
        if def.kind() != AdtKind::Struct || def.name().rsplit("::").next() != Some(last) || vs.first().map_or(true, |v| v.fields().len() != args.len()) { return Ok(None); }
        let mut out = Val { sz: self.size(ty)?, c: vec![] };
        for (i, f) in args.iter().enumerate() { let o = self.field_offset(ty, None, i)?; for (x, c) in &f.c { out.c.push((o + x, *c)); } }
        out.c.sort_by_key(|x| x.0);
        Ok(Some(out))
    }
    pub fn call_instance(&mut self, inst: Instance, args: Vec<Val>, arg_tys: Option<Vec<Ty>>, mut st: State, depth: usize) -> R<Option<(Val, State)>> {
        if depth > 220 { return err("call depth limit exceeded"); }
        let Some(b) = self.body_of(inst) else {
            // a constructor of another crate, called through a function value
            if let Some(v) = self.constructor(inst, &args)? { return Ok(Some((v, st))); }
            return err(format!("no MIR body for {}", inst.name()));
        };
        let e = self.analysed.entry(b.name.clone()).or_insert_with(|| (String::new(), b.repo, 0));
        if e.2 == 0 { e.0 = if b.repo { format!("{}:{}", short(&b.file), b.body.span.get_lines().start_line) } else { String::new() }; }
        e.2 += 1;
        let n = b.body.locals().len() as u32;
        let base = self.next_alloc;
        self.next_alloc += n;
        let fr = Frame { b: b.clone(), base, depth };
        let want = b.body.arg_locals().len();
        let mut args = args;
        let callee_ty = self.kind(inst.ty());
        if callee_ty.is_closure() && b.body.spread_arg().is_none() && !args.is_empty() {
            let untuple = match &arg_tys {
                Some(t) => {
                    let last = *t.last().unwrap();
                    let is_tuple = matches!(&*self.kind(last), TyKind::RigidTy(RigidTy::Tuple(_)));
                    is_tuple && (args.len() != want || *t.last().unwrap() != b.body.locals()[want].ty)
                }
                None => args.len() != want,
            };
            if untuple {
                let last = args.pop().unwrap();
                let lt = *arg_tys.as_ref().unwrap().last().unwrap();
                if let TyKind::RigidTy(RigidTy::Tuple(ts)) = &*self.kind(lt) {
                    for (i, t) in ts.iter().enumerate() {
                        let o = self.field_offset(lt, None, i)?;
                        let sz = self.size(*t)?;
                        args.push(self.sub(&last, o, sz));
                    }
                }
            }
        }
        if args.len() != want { return err(format!("argument count mismatch calling {} ({} vs {})", b.name, args.len(), want)); }
        for (i, a) in args.iter().enumerate() {
            let p = self.ptr(base + 1 + i as u32, 0);
            self.write(&mut st, p, a)?;
        }
        if b.repo { self.stack.push(b.name.clone()); }
        let save = self.cur_org;
        let out = self.exec(&fr, 0, st, None);
        self.cur_org = save;
        if b.repo { self.stack.pop(); }
        let Some(mut st) = out.map_err(|e| if e.contains(" [in ") { e } else { format!("{e} [in {}]", b.name) })? else { return Ok(None) };
        let rt = b.body.locals()[0].ty;
        let rp = self.ptr(base, 0);
        let v = self.read(&st, rp, rt)?;
        for l in 0..n { st.mem.remove(&(base + l)); }
        Ok(Some((v, st)))
    }
    fn exec(&mut self, fr: &Frame, start: usize, st: State, stop: Option<usize>) -> R<Option<State>> {
        let mut bb = start;
        let mut st = st;
        let b = fr.b.clone();
        loop {
            if Some(bb) == stop { return Ok(Some(st)); }
            let blk = &b.body.blocks[bb];
            for s in &blk.statements {
                self.tick()?;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        self.set_org(fr, s.source_info.span);
                        let dty = p.ty(b.body.locals()).map_err(|e| format!("{e:?}"))?;
                        let v = self.rvalue(fr, &st, r, dty)?;
                        let pl = self.place(fr, &st, p)?;
                        let v = Val { sz: self.size(pl.ty)?, c: v.c };
                        self.write(&mut st, pl.ptr, &v)?;
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(fr, &st, place)?;
                        if let TyKind::RigidTy(RigidTy::Adt(def, _)) = &*self.kind(pl.ty) {
                            if let Some((o, c)) = self.tag_cell(pl.ty, def, variant_index.to_index())? {
                                let p = self.ptr_add_const(pl.ptr, o as i64);
                                let v = Val { sz: c.sz as u64, c: vec![(0, c)] };
                                self.write(&mut st, p, &v)?;
                            }
                        }
                    }
                    StatementKind::StorageDead(l) => { st.mem.remove(&(fr.base + *l as u32)); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let t = self.opty(fr, &c.src)?;
                        let t = self.pointee(t).ok_or("copy_nonoverlapping")?;
                        let (s, d, n) = (self.operand(fr, &st, &c.src)?, self.operand(fr, &st, &c.dst)?, self.operand(fr, &st, &c.count)?);
                        self.copy(&mut st, t, s, d, n)?;
                    }
                    _ => {}
                }
            }
            self.tick()?;
            let term = &blk.terminator;
            match &term.kind {
                TerminatorKind::Goto { target } => bb = *target,
                TerminatorKind::Return => { if stop.is_some() { return err("return inside a join region"); } return Ok(Some(st)); }
                TerminatorKind::Unreachable => {
                    if self.feas(st.pc) { self.diverge(&st, "unreachable code reached".into(), fr, term.source_info.span); }
                    return Ok(None);
                }
                TerminatorKind::Resume | TerminatorKind::Abort => return Ok(None),
                TerminatorKind::Drop { target, place, .. } => {
                    let t = place.ty(b.body.locals()).map_err(|e| format!("{e:?}"))?;
                    let i = Instance::resolve_drop_in_place(t);
                    if !i.is_empty_shim() && self.body_of(i).is_some() {
                        let pl = self.place(fr, &st, place)?;
                        let a = match pl.meta { Some(m) => self.fat(pl.ptr, m), None => self.scalar(pl.ptr, 8) };
                        match self.call_instance(i, vec![a], None, st, fr.depth + 1)? { Some((_, s)) => st = s, None => return Ok(None) }
                    }
                    bb = *target;
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    self.set_org(fr, term.source_info.span);
                    let c = self.operand(fr, &st, cond)?;
                    let c = self.sc(&c)?;
                    let c = if *expected { c } else { self.d.not(c) };
                    if c != TRUE {
                        let nc = self.d.map1(c, &mut |d, l| match l { Leaf::Int(v, _) => d.boolean(*v == 0), _ => TRUE });
                        let bad = self.d.and(st.pc, nc);
                        if self.feas(bad) {
                            let m = msg.description().unwrap_or("assertion").to_string();
                            let s2 = State { mem: HashMap::new(), pc: bad };
                            self.diverge(&s2, m, fr, term.source_info.span);
                        }
                        st.pc = self.d.and(st.pc, c);
                        if !self.feas(st.pc) { return Ok(None); }
                    }
                    bb = *target;
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = self.opty(fr, discr)?;
                    let v = self.operand(fr, &st, discr)?;
                    let mut x = self.sc(&v)?;
                    let _ = dt;
                    if self.d.get(x).is_none() { x = self.d.restrict(x, st.pc); }
                    if let Some(Leaf::Int(n, _)) = self.d.get(x) {
                        let n = *n;
                        bb = targets.branches().find(|t| t.0 == n).map_or(targets.otherwise(), |t| t.1);
                        continue;
                    }
                    // undefined discriminants must be unreachable
                    let und = self.d.map1(x, &mut |d, l| d.boolean(!matches!(l, Leaf::Int(..))));
                    if und != FALSE {
                        let u = self.d.and(und, st.pc);
                        if self.feas(u) { return err(format!("branch on an undefined value ({})", self.d.show_leaf(x))); }
                    }
                    let mut order: Vec<(usize, Dd)> = vec![];
                    let mut rest = TRUE;
                    for (val, t) in targets.branches() {
                        let g = self.d.map1(x, &mut |d, l| match l { Leaf::Int(n, _) => d.boolean(*n == val), _ => FALSE });
                        let ng = self.d.not(g);
                        rest = self.d.and(rest, ng);
                        match order.iter_mut().find(|o| o.0 == t) { Some(o) => o.1 = self.d.or(o.1, g), None => order.push((t, g)) }
                    }
                    let nu = self.d.not(und);
                    rest = self.d.and(rest, nu);
                    let t = targets.otherwise();
                    match order.iter_mut().find(|o| o.0 == t) { Some(o) => o.1 = self.d.or(o.1, rest), None => order.push((t, rest)) }
                    let mut live = vec![];
                    for (t, g) in order {
                        if g == FALSE { continue; }
                        let gp = self.d.and(st.pc, g);
                        if gp == FALSE || !self.feas(gp) { continue; }
                        let dead = matches!(b.body.blocks[t].terminator.kind, TerminatorKind::Unreachable) && b.body.blocks[t].statements.is_empty();
                        if dead && !fr.b.repo { continue; }
                        live.push((t, g, gp));
                    }
                    if live.is_empty() { return Ok(None); }
                    if live.len() == 1 { bb = live[0].0; st.pc = live[0].2; continue; }
                    let join = b.ipdom[bb];
                    if self.trace { eprintln!("{}fork in {} bb{} join {:?} on {} targets", " ".repeat(fr.depth), b.name, bb, join, live.len()); }
                    let mut acc: Option<State> = None;
                    for (t, g, gp) in live.into_iter().rev() {
                        let s = State { mem: st.mem.clone(), pc: gp };
                        let org = self.cur_org;
                        let r = self.exec(fr, t, s, join)?;
                        self.cur_org = org;
                        if let Some(r) = r {
                            acc = Some(match acc { None => r, Some(a) => self.merge_states(g, r, a) });
                        }
                    }
                    match (acc, join) {
                        (None, _) => return Ok(None),
                        (Some(a), Some(j)) => { st = a; bb = j; }
                        (Some(a), None) => return Ok(Some(a)),
                    }
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    self.set_org(fr, term.source_info.span);
                    self.call_sites += 1;
                    let ft = self.opty(fr, func)?;
                    let mut vals = vec![];
                    let mut tys = vec![];
                    for a in args { vals.push(self.operand(fr, &st, a)?); tys.push(self.opty(fr, a)?); }
                    let dty = destination.ty(b.body.locals()).map_err(|e| format!("{e:?}"))?;
                    let inst = match &*self.kind(ft) {
                        TyKind::RigidTy(RigidTy::FnDef(def, ga)) => Instance::resolve(*def, ga).map_err(|e| format!("{e:?}"))?,
                        TyKind::RigidTy(RigidTy::FnPtr(_)) => {
                            let f = self.operand(fr, &st, func)?;
                            let f = self.sc(&f)?;
                            let inst = match self.d.get(f) { Some(Leaf::Fun(n)) => self.funs[*n as usize], _ => return err("call through an unknown function pointer") };
                            // a closure behind a function pointer: its (empty) environment is implicit
                            if let Some(tb) = self.body_of(inst) {
                                let want: Vec<Ty> = tb.body.arg_locals().iter().map(|l| l.ty).collect();
                                if want.first().map_or(false, |t| self.kind(*t).is_closure()) {
                                    let (ct, tt) = (want[0], *want.last().unwrap());
                                    if want.len() == 2 && tb.body.spread_arg().is_some() {
                                        let mut tup = Val { sz: self.size(tt)?, c: vec![] };
                                        for (i, a) in vals.iter().enumerate() { let o = self.field_offset(tt, None, i)?; for (x, c) in &a.c { tup.c.push((o + x, *c)); } }
                                        tup.c.sort_by_key(|x| x.0);
                                        vals = vec![Val::default(), tup];
                                        tys = vec![ct, tt];
                                    } else { vals.insert(0, Val::default()); tys.insert(0, ct); }
                                }
                            }
                            inst
                        }
                        x => return err(format!("call of {x:?}")),
                    };
                    let r = self.call(fr, inst, vals, tys, dty, st, term.source_info.span, target.is_some())?;
                    match (r, target) {
                        (Some((v, s)), Some(t)) => {
                            st = s;
                            let pl = self.place(fr, &st, destination)?;
                            let v = Val { sz: self.size(pl.ty)?, c: v.c };
                            self.write(&mut st, pl.ptr, &v)?;
                            bb = *t;
                        }
                        _ => return Ok(None),
                    }
                }
                TerminatorKind::InlineAsm { .. } => return err("inline assembly"),
            }
        }
    }
    pub fn diverge(&mut self, st: &State, what: String, fr: &Frame, span: Span) {
        let at = if fr.b.repo { format!("{} ({}:{})", fr.b.name, short(&fr.b.file), span.get_lines().start_line) } else { self.show_org(self.cur_org) };
        let stack = self.stack.join(" > ");
        self.diverges.push(Diverge { pc: st.pc, what, at, stack });
    }
    /// record where an operation can leave the domain of the function it applies
    pub fn in_domain(&mut self, pc: Dd, f: &str, x: Dd) {
        if !self.total || (f == "sqrt" && !self.total_sqrt) || self.d.opaque.is_some() || !self.stack.iter().any(|s| s.contains("static_math::")) { return; }
        self.total_ops += 1;
        let zero = self.d.num(ZERO);
        let one = self.d.num(ONE);
        let (what, bad) = match f {
            "div" => ("divides by zero", self.d.f_vanishes(x)),
            "sqrt" => match self.margin {
                Some(m) => ("square root of a number that is not well above zero", self.d.f_cmp("fle", x, m, true, true, false)),
                None => ("square root of a negative number", self.d.f_negative(x)),
            },
            "log" => ("logarithm of zero or a negative number", self.d.f_cmp("fle", x, zero, true, true, false)),
            _ => {
                let m = self.d.f_neg(one);
                let (a, b) = (self.d.f_cmp("fgt", x, one, false, false, true), self.d.f_cmp("flt", x, m, true, false, false));
                ("inverse sine or cosine of a number beyond one", self.d.or(a, b))
            }
        };
        let bad = self.d.map1(bad, &mut |d, l| match l { Leaf::Int(v, _) => d.boolean(*v != 0), _ => FALSE });
        let pc = self.d.and(pc, bad);
        if pc == FALSE { return; }
        let at = self.show_org(self.cur_org);
        let stack = self.stack.join(" > ");
        self.diverges.push(Diverge { pc, what: what.to_string(), at, stack });
    }
    pub fn copy(&mut self, st: &mut State, t: Ty, s: Val, d: Val, n: Val) -> R<()> {
        let n = self.sc(&n)?;
        let Some(Leaf::Int(n, _)) = self.d.get(n).cloned() else { return err("copy of unknown length") };
        let es = self.size(t)?;
        let (s, d) = (self.sc(&s)?, self.sc(&d)?);
        let mut vals = vec![];
        for i in 0..n as u64 { let p = self.ptr_add_const(s, (i * es) as i64); vals.push(self.read(st, p, t)?); }
        for (i, v) in vals.into_iter().enumerate() { let p = self.ptr_add_const(d, (i as u64 * es) as i64); let v = Val { sz: es, c: v.c }; self.write(st, p, &v)?; }
        Ok(())
    }
    fn call(&mut self, fr: &Frame, inst: Instance, vals: Vec<Val>, tys: Vec<Ty>, dty: Ty, st: State, span: Span, returns: bool) -> R<Option<(Val, State)>> {
        let mut inst = inst;
        let mut vals = vals;
        if let InstanceKind::Virtual { .. } = inst.kind {
            // dynamic dispatch: the metadata names the concrete type
            let m = self.cell_at(&vals[0], 8);
            let Some(Leaf::VTable(n)) = self.d.get(m).cloned() else { return self.hook_virtual(fr, inst, vals, dty, st) };
            let t = self.vts[n as usize];
            inst = self.resolve_virtual(inst, t)?;
            let p = self.cell_at(&vals[0], 0);
            vals[0] = self.scalar(p, 8);
        }
        let st2;
        match self.hook(fr, inst, &vals, &tys, dty, st, span, returns)? {
            Hook::Done(r) => return Ok(r),
            Hook::Pass(s) => st2 = s,
        }
        self.call_instance(inst, vals, Some(tys), st2, fr.depth + 1)
    }
    fn resolve_virtual(&mut self, inst: Instance, t: Ty) -> R<Instance> {
        let mut ga = inst.args();
        if ga.0.is_empty() { return err("virtual call without Self"); }
        ga.0[0] = GenericArgKind::Type(t);
        let def = match &*self.kind(inst.ty()) { TyKind::RigidTy(RigidTy::FnDef(d, _)) => *d, _ => return err("virtual call type") };
        Instance::resolve(def, &ga).map_err(|e| format!("{e:?}"))
    }
}
pub enum Hook { Done(Option<(Val, State)>), Pass(State) }

fn ptr_cmp(d: &mut Dds, op: BinOp, x: &Leaf, y: &Leaf) -> Dd {
    use std::cmp::Ordering;
    let o = match (x, y) {
        (Leaf::Ptr(a, i), Leaf::Ptr(b, j)) if a == b => Some(i.cmp(j)),
        (Leaf::Undef, _) | (_, Leaf::Undef) => return UNDEF,
        (Leaf::Ptr(..), Leaf::Int(0, _)) => Some(Ordering::Greater),
        (Leaf::Int(0, _), Leaf::Ptr(..)) => Some(Ordering::Less),
        (a, b) if a == b => Some(Ordering::Equal),
        _ => None,
    };
    match (op, o) {
        (BinOp::Eq, Some(o)) => d.boolean(o.is_eq()),
        (BinOp::Ne, Some(o)) => d.boolean(o.is_ne()),
        (BinOp::Eq, None) => FALSE,
        (BinOp::Ne, None) => TRUE,
        (BinOp::Lt, Some(o)) => d.boolean(o.is_lt()),
        (BinOp::Le, Some(o)) => d.boolean(o.is_le()),
        (BinOp::Gt, Some(o)) => d.boolean(o.is_gt()),
        (BinOp::Ge, Some(o)) => d.boolean(o.is_ge()),
        _ => UNDEF,
    }
}
pub fn scalar_size(s: &Scalar) -> u8 {
    let p = match s { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
    (match p { Primitive::Int { length, .. } => length.bits(), Primitive::Float { length } => length.bits(), Primitive::Pointer(_) => 64 } / 8) as u8
}
pub fn short(f: &str) -> String { f.rsplit_once("/src/").map_or(f.to_string(), |x| format!("src/{}", x.1)) }

/// immediate postdominators on the part of the flow graph that can reach a return
fn ipdoms(body: &Body) -> Vec<Option<usize>> {
    let n = body.blocks.len();
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, b) in body.blocks.iter().enumerate() {
        match &b.terminator.kind {
            TerminatorKind::Goto { target } => succ[i].push(*target),
            TerminatorKind::SwitchInt { targets, .. } => succ[i].extend(targets.all_targets()),
            TerminatorKind::Return => succ[i].push(n),
            TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => succ[i].push(*target),
            TerminatorKind::Call { target: Some(t), .. } => succ[i].push(*t),
            TerminatorKind::InlineAsm { destination: Some(t), .. } => succ[i].push(*t),
            _ => {}
        }
        succ[i].sort();
        succ[i].dedup();
    }
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for i in 0..=n { for &s in &succ[i] { pred[s].push(i); } }
    let mut reach = vec![false; n + 1];
    let mut post = vec![];
    // reverse graph postorder from exit
    let mut stack = vec![(n, 0usize)];
    reach[n] = true;
    while let Some((v, i)) = stack.pop() {
        if i < pred[v].len() {
            stack.push((v, i + 1));
            let w = pred[v][i];
            if !reach[w] { reach[w] = true; stack.push((w, 0)); }
        } else { post.push(v); }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, &v) in post.iter().enumerate() { num[v] = i; }
    let mut idom: Vec<Option<usize>> = vec![None; n + 1];
    idom[n] = Some(n);
    let mut changed = true;
    while changed {
        changed = false;
        for &v in post.iter().rev() {
            if v == n { continue; }
            let mut new: Option<usize> = None;
            for &s in &succ[v] {
                if !reach[s] || idom[s].is_none() { continue; }
                new = Some(match new { None => s, Some(x) => {
                    let (mut a, mut b) = (x, s);
                    while a != b {
                        while num[a] < num[b] { a = idom[a].unwrap(); }
                        while num[b] < num[a] { b = idom[b].unwrap(); }
                    }
                    a
                } });
            }
            if new.is_some() && idom[v] != new { idom[v] = new; changed = true; }
        }
    }
    (0..n).map(|i| match idom[i] { Some(j) if j < n => Some(j), _ => None }).collect()
}

impl Interp {
    /// build an abstract input of type ty: floats become inputs, booleans free variables
    pub fn input_val(&mut self, st: &mut State, ty: Ty, name: &str) -> R<Val> {
        let k = self.kind(ty);
        let sz = self.size(ty)?;
        match &*k {
            TyKind::RigidTy(RigidTy::Float(_)) => { let p = self.d.alg.input(name); let v = self.d.num(p); Ok(self.scalar(v, sz as u8)) }
            TyKind::RigidTy(RigidTy::Bool) => { let v = self.d.bool_var(name); Ok(self.bool_val(v)) }
            TyKind::RigidTy(RigidTy::Array(e, n)) => {
                let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
                let es = self.size(*e)?;
                let mut out = Val { sz, c: vec![] };
                for i in 0..n { let v = self.input_val(st, *e, &format!("{name}[{i}]"))?; for (o, c) in v.c { out.c.push((i * es + o, c)); } }
                Ok(out)
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let mut out = Val { sz, c: vec![] };
                for (i, t) in ts.iter().enumerate() {
                    let off = self.field_offset(ty, None, i)?;
                    let v = self.input_val(st, *t, &format!("{name}.{i}"))?;
                    for (o, c) in v.c { out.c.push((off + o, c)); }
                }
                out.c.sort_by_key(|x| x.0);
                Ok(out)
            }
            TyKind::RigidTy(RigidTy::Adt(def, args)) if def.kind() == AdtKind::Struct => {
                let mut out = Val { sz, c: vec![] };
                let fs = def.variants()[0].fields();
                let one = fs.len() == 1;
                for (i, f) in fs.iter().enumerate() {
                    let off = self.field_offset(ty, None, i)?;
                    let n = if one { name.to_string() } else { format!("{name}.{}", f.name) };
                    let ft = f.ty_with_args(args);
                    let v = self.input_val(st, ft, &n)?;
                    for (o, c) in v.c { out.c.push((off + o, c)); }
                }
                out.c.sort_by_key(|x| x.0);
                Ok(out)
            }
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) => {
                let a = self.new_alloc();
                let v = self.input_val(st, *t, name)?;
                let p = self.ptr(a, 0);
                self.write(st, p, &v)?;
                Ok(self.scalar(p, 8))
            }
            x => err(format!("cannot build an abstract input of type {x:?}")),
        }
    }
    /// scalars of a value of type ty, with access paths; enums contribute their variant
    pub fn scalars(&mut self, ty: Ty, path: &str, off: u64, out: &mut Vec<(String, u64, u8, Ty)>) -> R<()> {
        let k = self.kind(ty);
        let sz = self.size(ty)?;
        if sz == 0 { return Ok(()); }
        match &*k {
            TyKind::RigidTy(RigidTy::Array(e, n)) => {
                let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
                let es = self.size(*e)?;
                for i in 0..n { self.scalars(*e, &format!("{path}[{i}]"), off + i * es, out)?; }
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                for (i, t) in ts.iter().enumerate() { let o = self.field_offset(ty, None, i)?; self.scalars(*t, &format!("{path}.{i}"), off + o, out)?; }
            }
            TyKind::RigidTy(RigidTy::Adt(def, args)) if def.kind() == AdtKind::Struct => {
                let fs = def.variants()[0].fields();
                for (i, f) in fs.iter().enumerate() {
                    let o = self.field_offset(ty, None, i)?;
                    let n = if fs.len() == 1 { path.to_string() } else { format!("{path}.{}", f.name) };
                    let ft = f.ty_with_args(args);
                    self.scalars(ft, &n, off + o, out)?;
                }
            }
            TyKind::RigidTy(RigidTy::Adt(def, _)) if def.kind() == AdtKind::Enum => return err(format!("comparison of enum values ({path})")),
            _ => out.push((path.to_string(), off, sz as u8, ty)),
        }
        Ok(())
    }
    pub fn repo_functions(&self) -> BTreeSet<(String, String)> {
        self.analysed.iter().filter(|x| x.1 .1).map(|x| (x.0.clone(), x.1 .0.clone())).collect()
    }
    pub fn is_item_fn(i: &rustc_public::CrateItem) -> bool { matches!(i.kind(), ItemKind::Fn) }
    pub fn const_of(&self, v: Dd) -> Option<Rat> { match self.d.get(v) { Some(Leaf::Num(p)) => self.d.alg.as_const(*p), _ => None } }
    pub fn neg_const(&self, r: &Rat) -> bool { r.is_negative() }
}
#[allow(dead_code)]
fn _u(_: &dyn CrateDef) {}
impl Interp {
    pub fn vt_of(&mut self, t: Ty) -> Dd { self.vt_leaf(t) }
    /// an opaque handle on a slice (pointer, length)
    pub fn list_leaf(&mut self, p: Dd, n: Dd) -> Dd { self.lists.push((p, n)); let k = self.lists.len() as u32 - 1; self.d.leaf(Leaf::Opaque(LIST_BASE + k)) }
    pub fn global_alloc(&self, g: u32) -> Option<Allocation> { self.globals.get(g as usize).and_then(|x| x.1.clone()) }
    pub fn int_op(&mut self, op: BinOp, signed: bool, sz: u8, x: Dd, y: Dd) -> (Dd, Dd) { self.int_bin(op, signed, sz, x, y, signed, sz) }
    pub fn field_off(&mut self, ty: Ty, i: usize) -> R<u64> { self.field_offset(ty, None, i) }
    pub fn ptr_index(&mut self, p: Dd, i: Dd, stride: i64) -> Dd { self.ptr_add(p, i, stride) }
    pub fn discr(&mut self, st: &State, p: Dd, ty: Ty) -> R<Val> { self.discriminant(st, &Place2 { ptr: p, meta: None, ty, variant: None }) }
}
pub const LIST_BASE: u32 = 1 << 24;
