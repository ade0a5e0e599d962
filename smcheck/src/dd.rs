//! Gated values: canonical decision diagrams over sign predicates (and free booleans) whose
//! leaves are value numbers. Joins of the dataflow analysis are diagram selections.
use crate::alg::*;
use num_traits::{One, Signed, Zero};
use std::collections::HashMap;

pub type Dd = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Base { Alloc(u32), Global(u32) }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Leaf {
    Undef,
    Num(PolyId),
    /// a computed float in the trace mode (rounding errors)
    Tr(u32),
    Int(u128, u8),
    Ptr(Base, i64),
    Fun(u32),
    VTable(u32),
    Opaque(u32),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Node { Leaf(Leaf), Br { var: u32, kids: [Dd; 3] } }

#[derive(Clone, Debug)]
pub enum Var {
    /// sign of a polynomial: kids = [negative, zero, positive]
    Sign { p: PolyId, q: PolyId, c0: Rat, den: String },
    /// free boolean: kids = [false, true, true]
    Bool(String),
}

pub struct Dds {
    pub alg: Alg,
    nodes: Vec<Node>,
    ix: HashMap<Node, Dd>,
    pub vars: Vec<Var>,
    sign_ix: HashMap<PolyId, u32>,
    bool_ix: HashMap<String, u32>,
    sel_memo: HashMap<(u32, [Dd; 3]), Dd>,
    pub op_memo: HashMap<(&'static str, Dd, Dd, u64), Dd>,
    sign_memo: HashMap<PolyId, Dd>,
    facts_nonneg: HashMap<PolyId, ()>,
    /// declared open ranges of inputs
    facts_range: HashMap<AtomId, (f64, f64)>,
    big_range: std::cell::RefCell<HashMap<PolyId, Iv>>,
    pub giveup: Option<String>,
    /// any-value mode: the value that stands for every computed float
    pub opaque: Option<Dd>,
    pub any_n: usize,
    /// computed values are not told apart
    pub forget: bool,
    /// zero times infinity is kept apart as no number
    pub poison: bool,
    /// values that may be infinite or NaN
    pub computed: std::collections::HashSet<PolyId>,
    pub ordered_set: std::collections::HashSet<PolyId>,
    pub nonneg_set: std::collections::HashSet<PolyId>,
    pub node_cap: usize,
    pub tr: crate::round::Trace,
}

#[derive(Clone, Debug)]
struct Iv { lo: f64, lo_open: bool, hi: f64, hi_open: bool }
impl Iv {
    const ALL: Iv = Iv { lo: f64::NEG_INFINITY, lo_open: true, hi: f64::INFINITY, hi_open: true };
    fn pt(x: f64) -> Iv { Iv { lo: x, lo_open: false, hi: x, hi_open: false } }
    fn empty(&self) -> bool { self.lo > self.hi || (self.lo == self.hi && (self.lo_open || self.hi_open)) }
    fn meet(&self, o: &Iv) -> Iv {
        let (lo, lo_open) = if self.lo > o.lo { (self.lo, self.lo_open) } else if o.lo > self.lo { (o.lo, o.lo_open) } else { (self.lo, self.lo_open || o.lo_open) };
        let (hi, hi_open) = if self.hi < o.hi { (self.hi, self.hi_open) } else if o.hi < self.hi { (o.hi, o.hi_open) } else { (self.hi, self.hi_open || o.hi_open) };
        Iv { lo, lo_open, hi, hi_open }
    }
    fn add(&self, o: &Iv) -> Iv {
        Iv { lo: self.lo + o.lo, lo_open: self.lo_open || o.lo_open, hi: self.hi + o.hi, hi_open: self.hi_open || o.hi_open }
    }
    fn scale(&self, c: f64) -> Iv {
        if c == 0.0 { return Iv::pt(0.0); }
        let m = |x: f64| if x == 0.0 { 0.0 } else { x * c };
        if c > 0.0 { Iv { lo: m(self.lo), lo_open: self.lo_open, hi: m(self.hi), hi_open: self.hi_open } }
        else { Iv { lo: m(self.hi), lo_open: self.hi_open, hi: m(self.lo), hi_open: self.lo_open } }
    }
    fn mul(&self, o: &Iv) -> Iv {
        let f = |a: f64, b: f64| if a == 0.0 || b == 0.0 { 0.0 } else { a * b };
        // (value, open)
        let mut c = vec![];
        for (a, ao) in [(self.lo, self.lo_open), (self.hi, self.hi_open)] {
            for (b, bo) in [(o.lo, o.lo_open), (o.hi, o.hi_open)] {
                let v = f(a, b);
                // a product is attained if both ends are, or if one attained end is zero
                let open = if v == 0.0 { !((a == 0.0 && !ao) || (b == 0.0 && !bo)) } else { ao || bo };
                c.push((v, open));
            }
        }
        let lo = c.iter().fold(f64::INFINITY, |m, x| m.min(x.0));
        let hi = c.iter().fold(f64::NEG_INFINITY, |m, x| m.max(x.0));
        let lo_open = !c.iter().any(|x| x.0 == lo && !x.1);
        let hi_open = !c.iter().any(|x| x.0 == hi && !x.1);
        Iv { lo, lo_open, hi, hi_open }
    }
    fn recip(&self) -> Iv {
        if self.lo > 0.0 || (self.lo == 0.0 && self.lo_open) {
            Iv { lo: if self.hi.is_infinite() { 0.0 } else { 1.0 / self.hi }, lo_open: self.hi_open, hi: if self.lo == 0.0 { f64::INFINITY } else { 1.0 / self.lo }, hi_open: self.lo_open || self.lo == 0.0 }
        } else if self.lo == 0.0 {
            // zero excluded by division
            Iv { lo: if self.hi.is_infinite() { 0.0 } else { 1.0 / self.hi }, lo_open: true, hi: f64::INFINITY, hi_open: true }
        } else if self.hi < 0.0 || self.hi == 0.0 {
            self.scale(-1.0).recip().scale(-1.0)
        } else { Iv::ALL }
    }
    fn powi(&self, e: i32) -> Iv {
        if e < 0 { return self.powi(-e).recip(); }
        if e == 0 { return Iv::pt(1.0); }
        let mut r = self.clone();
        if e % 2 == 0 {
            // square of the range
            let sq = if self.lo >= 0.0 { self.mul(self) } else if self.hi <= 0.0 { self.mul(self) } else {
                let (m, o) = if -self.lo > self.hi { (-self.lo, self.lo_open) } else if self.hi > -self.lo { (self.hi, self.hi_open) } else { (self.hi, self.lo_open && self.hi_open) };
                Iv { lo: 0.0, lo_open: false, hi: m * m, hi_open: o }
            };
            let mut r = sq.clone();
            for _ in 1..e / 2 { r = r.mul(&sq); }
            return r;
        }
        for _ in 1..e { r = r.mul(self); }
        r
    }
    fn monotone(&self, f: impl Fn(f64) -> f64) -> Iv { Iv { lo: f(self.lo), lo_open: self.lo_open, hi: f(self.hi), hi_open: self.hi_open } }
}

/// path context: what the sign constraints collected so far say about polynomials
#[derive(Clone, Default)]
pub struct PathCtx { b: HashMap<PolyId, Iv>, nonzero: HashMap<PolyId, Vec<f64>> }

impl Dds {
    pub fn new(seed: u64) -> Dds {
        let mut d = Dds {
            alg: Alg::new(seed), nodes: vec![], ix: HashMap::new(), vars: vec![], sign_ix: HashMap::new(), bool_ix: HashMap::new(),
            sel_memo: HashMap::new(), op_memo: HashMap::new(), sign_memo: HashMap::new(), facts_nonneg: HashMap::new(), facts_range: HashMap::new(), big_range: Default::default(), opaque: None, any_n: 0, forget: false, poison: true, computed: Default::default(), ordered_set: Default::default(), nonneg_set: Default::default(), giveup: None, node_cap: 3_000_000, tr: Default::default(),
        };
        assert_eq!(d.leaf(Leaf::Undef), UNDEF);
        assert_eq!(d.leaf(Leaf::Int(0, 1)), FALSE);
        assert_eq!(d.leaf(Leaf::Int(1, 1)), TRUE);
        d
    }
    fn node(&mut self, n: Node) -> Dd {
        if let Some(&i) = self.ix.get(&n) { return i; }
        let i = self.nodes.len() as Dd;
        if self.nodes.len() > self.node_cap && self.giveup.is_none() {
            self.giveup = Some("decision diagram size limit exceeded".into());
        }
        self.nodes.push(n.clone());
        self.ix.insert(n, i);
        i
    }
    pub fn n_nodes(&self) -> usize { self.nodes.len() }
    pub fn leaf(&mut self, l: Leaf) -> Dd { self.node(Node::Leaf(l)) }
    pub fn num(&mut self, p: PolyId) -> Dd { self.leaf(Leaf::Num(p)) }
    pub fn int(&mut self, v: u128, size: u8) -> Dd { self.leaf(Leaf::Int(v, size)) }
    pub fn boolean(&mut self, b: bool) -> Dd { if b { TRUE } else { FALSE } }
    pub fn get(&self, d: Dd) -> Option<&Leaf> { match &self.nodes[d as usize] { Node::Leaf(l) => Some(l), _ => None } }
    fn var_of(&self, d: Dd) -> u32 { match &self.nodes[d as usize] { Node::Br { var, .. } => *var, _ => u32::MAX } }
    pub fn branch(&self, d: Dd) -> Option<(u32, [Dd; 3])> { match &self.nodes[d as usize] { Node::Br { var, kids } => Some((*var, *kids)), _ => None } }
    fn cof(&self, d: Dd, w: u32, j: usize) -> Dd {
        match &self.nodes[d as usize] { Node::Br { var, kids } if *var == w => kids[j], _ => d }
    }
    pub fn bool_var(&mut self, name: &str) -> Dd {
        let v = match self.bool_ix.get(name) { Some(&v) => v, None => {
            let v = self.vars.len() as u32;
            self.vars.push(Var::Bool(name.into()));
            self.bool_ix.insert(name.into(), v);
            v
        } };
        self.select(v, [FALSE, TRUE, TRUE])
    }
    /// the diagram "branch on var, then kids", restoring the variable order
    pub fn select(&mut self, var: u32, kids: [Dd; 3]) -> Dd {
        // undefined values are don't-cares
        if kids[0] == kids[1] && kids[1] == kids[2] { return kids[0]; }
        let top = kids.iter().map(|&k| self.var_of(k)).min().unwrap();
        if top > var {
            return self.node(Node::Br { var, kids });
        }
        if top == var {
            let k = [self.cof(kids[0], var, 0), self.cof(kids[1], var, 1), self.cof(kids[2], var, 2)];
            return self.select(var, k);
        }
        if let Some(&r) = self.sel_memo.get(&(var, kids)) { return r; }
        if self.giveup.is_some() { return UNDEF; }
        let mut out = [0; 3];
        for j in 0..3 {
            let k = [self.cof(kids[0], top, j), self.cof(kids[1], top, j), self.cof(kids[2], top, j)];
            out[j] = self.select(var, k);
        }
        let r = if out[0] == out[1] && out[1] == out[2] { out[0] } else { self.node(Node::Br { var: top, kids: out }) };
        self.sel_memo.insert((var, kids), r);
        r
    }
    pub fn map1(&mut self, a: Dd, f: &mut dyn FnMut(&mut Dds, &Leaf) -> Dd) -> Dd {
        let mut memo = HashMap::new();
        self.map1_rec(a, f, &mut memo)
    }
    fn map1_rec(&mut self, a: Dd, f: &mut dyn FnMut(&mut Dds, &Leaf) -> Dd, memo: &mut HashMap<Dd, Dd>) -> Dd {
        if let Some(&r) = memo.get(&a) { return r; }
        if self.giveup.is_some() { return UNDEF; }
        let r = match self.nodes[a as usize].clone() {
            Node::Leaf(l) => f(self, &l),
            Node::Br { var, kids } => {
                let k = [self.map1_rec(kids[0], f, memo), self.map1_rec(kids[1], f, memo), self.map1_rec(kids[2], f, memo)];
                self.select(var, k)
            }
        };
        memo.insert(a, r);
        r
    }
    pub fn map2(&mut self, a: Dd, b: Dd, f: &mut dyn FnMut(&mut Dds, &Leaf, &Leaf) -> Dd) -> Dd {
        let mut memo = HashMap::new();
        self.map2_rec(a, b, f, &mut memo)
    }
    fn map2_rec(&mut self, a: Dd, b: Dd, f: &mut dyn FnMut(&mut Dds, &Leaf, &Leaf) -> Dd, memo: &mut HashMap<(Dd, Dd), Dd>) -> Dd {
        if let Some(&r) = memo.get(&(a, b)) { return r; }
        if self.giveup.is_some() { return UNDEF; }
        let v = self.var_of(a).min(self.var_of(b));
        let r = if v == u32::MAX {
            let (Node::Leaf(x), Node::Leaf(y)) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone()) else { unreachable!() };
            f(self, &x, &y)
        } else {
            let mut k = [0; 3];
            for j in 0..3 {
                let (x, y) = (self.cof(a, v, j), self.cof(b, v, j));
                k[j] = self.map2_rec(x, y, f, memo);
            }
            self.select(v, k)
        };
        memo.insert((a, b), r);
        r
    }
    pub fn op1(&mut self, name: &'static str, key: u64, a: Dd, f: &mut dyn FnMut(&mut Dds, &Leaf) -> Dd) -> Dd {
        if let Some(&r) = self.op_memo.get(&(name, a, u32::MAX, key)) { return r; }
        let r = self.map1(a, f);
        self.op_memo.insert((name, a, u32::MAX, key), r);
        r
    }
    pub fn op2(&mut self, name: &'static str, key: u64, a: Dd, b: Dd, f: &mut dyn FnMut(&mut Dds, &Leaf, &Leaf) -> Dd) -> Dd {
        if let Some(&r) = self.op_memo.get(&(name, a, b, key)) { return r; }
        let r = self.map2(a, b, f);
        self.op_memo.insert((name, a, b, key), r);
        r
    }
    pub fn not(&mut self, a: Dd) -> Dd {
        self.op1("not", 0, a, &mut |d, l| match l { Leaf::Int(v, 1) => d.boolean(*v == 0), _ => UNDEF })
    }
    pub fn and(&mut self, a: Dd, b: Dd) -> Dd {
        if a == TRUE { return b; }
        if b == TRUE { return a; }
        if a == FALSE || b == FALSE { return FALSE; }
        if a == b { return a; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.and_rec(a, b)
    }
    fn and_rec(&mut self, a: Dd, b: Dd) -> Dd {
        if a == FALSE || b == FALSE { return FALSE; }
        if a == TRUE { return b; }
        if b == TRUE { return a; }
        if a == b { return a; }
        if a == UNDEF || b == UNDEF { return UNDEF; }
        let key = if a < b { ("and", a, b, 0) } else { ("and", b, a, 0) };
        if let Some(&r) = self.op_memo.get(&key) { return r; }
        if self.giveup.is_some() { return UNDEF; }
        let v = self.var_of(a).min(self.var_of(b));
        let mut k = [0; 3];
        for j in 0..3 {
            let (x, y) = (self.cof(a, v, j), self.cof(b, v, j));
            k[j] = self.and_rec(x, y);
        }
        let r = self.select(v, k);
        self.op_memo.insert(key, r);
        r
    }
    pub fn or(&mut self, a: Dd, b: Dd) -> Dd {
        let (x, y) = (self.not(a), self.not(b));
        let z = self.and(x, y);
        self.not(z)
    }
    pub fn ite(&mut self, c: Dd, a: Dd, b: Dd) -> Dd {
        if c == TRUE || a == b { return a; }
        if c == FALSE { return b; }
        let mut memo = HashMap::new();
        self.ite_rec(c, a, b, &mut memo)
    }
    fn ite_rec(&mut self, c: Dd, a: Dd, b: Dd, memo: &mut HashMap<(Dd, Dd, Dd), Dd>) -> Dd {
        if c == TRUE || a == b { return a; }
        if c == FALSE { return b; }
        if c == UNDEF { return UNDEF; }
        if let Some(&r) = memo.get(&(c, a, b)) { return r; }
        if self.giveup.is_some() { return UNDEF; }
        let v = self.var_of(c).min(self.var_of(a)).min(self.var_of(b));
        let mut k = [0; 3];
        for j in 0..3 {
            let (x, y, z) = (self.cof(c, v, j), self.cof(a, v, j), self.cof(b, v, j));
            k[j] = self.ite_rec(x, y, z, memo);
        }
        let r = self.select(v, k);
        memo.insert((c, a, b), r);
        r
    }
    /// simplify a under the assumption that care holds (drop variables decided by care)
    pub fn restrict(&mut self, a: Dd, care: Dd) -> Dd {
        let mut memo = HashMap::new();
        self.restrict_rec(a, care, &mut memo)
    }
    fn restrict_rec(&mut self, a: Dd, care: Dd, memo: &mut HashMap<(Dd, Dd), Dd>) -> Dd {
        if care == TRUE || care == FALSE || self.get(a).is_some() { return a; }
        if let Some(&r) = memo.get(&(a, care)) { return r; }
        let v = self.var_of(a).min(self.var_of(care));
        let live: Vec<usize> = (0..3).filter(|&j| self.cof(care, v, j) != FALSE).collect();
        let r = if live.is_empty() { a } else if self.var_of(a) != v {
            // care tests v, a does not: weaken care to the union
            let mut u = FALSE;
            for &j in &live { let k = self.cof(care, v, j); u = self.or(u, k); }
            self.restrict_rec(a, u, memo)
        } else {
            let mut out = [None; 3];
            for &j in &live {
                let (x, y) = (self.cof(a, v, j), self.cof(care, v, j));
                out[j] = Some(self.restrict_rec(x, y, memo));
            }
            let d = out.iter().flatten().next().copied().unwrap();
            self.select(v, [out[0].unwrap_or(d), out[1].unwrap_or(d), out[2].unwrap_or(d)])
        };
        memo.insert((a, care), r);
        r
    }
    pub fn leaves(&self, a: Dd) -> Vec<Dd> {
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut st = vec![a];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            match &self.nodes[x as usize] { Node::Leaf(_) => out.push(x), Node::Br { kids, .. } => st.extend(kids.iter().rev()) }
        }
        out
    }

    // ------------------------------------------------------------------ signs
    fn huge(r: &Rat) -> bool {
        static NARROW: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
        let narrow = *NARROW.get_or_init(|| std::env::var("SM_WIDTH").map_or(false, |w| w == "32"));
        r.numer().bits() > r.denom().bits() + if narrow { 100 } else { 990 }
    }

    fn atom_nonneg(&self, a: AtomId) -> bool {
        match &self.alg.atoms[a as usize].kind {
            AtomKind::Sqrt(_) | AtomKind::Pi | AtomKind::Inf => true,
            AtomKind::Fun(n, _) => matches!(*n, "exp" | "acos"),
            AtomKind::Den(p) => self.manifest_nonneg(*p),
            AtomKind::Input(_) => self.alg.atoms[a as usize].sq.is_none() && false,
            _ => false,
        }
    }
    fn atom_pos(&self, a: AtomId) -> bool {
        match &self.alg.atoms[a as usize].kind {
            AtomKind::Pi | AtomKind::Inf => true,
            AtomKind::Fun(n, _) => matches!(*n, "exp"),
            AtomKind::Sqrt(p) => self.manifest_pos(*p),
            _ => false,
        }
    }
    fn mono_nonneg(&self, m: &Mono) -> bool { m.0.iter().all(|&(a, e)| e % 2 == 0 || self.atom_nonneg(a)) }
    pub fn mono_nonneg_pub(&self, m: &Mono) -> bool { self.mono_nonneg(m) }
    fn mono_pos(&self, m: &Mono) -> bool { m.0.iter().all(|&(a, _)| self.atom_pos(a)) }
    pub fn manifest_nonneg(&self, p: PolyId) -> bool {
        self.facts_nonneg.contains_key(&p) || self.alg.poly(p).t.iter().all(|(m, c)| c.is_positive() && self.mono_nonneg(m))
    }
    fn manifest_pos(&self, p: PolyId) -> bool {
        let pp = self.alg.poly(p);
        !pp.t.is_empty() && pp.t.iter().all(|(m, c)| c.is_positive() && self.mono_nonneg(m)) && pp.t.iter().any(|(m, _)| self.mono_pos(m))
    }
    fn has_inf(&self, p: PolyId) -> Option<i32> {
        // Inf atom occurring linearly: sign of its coefficient decides
        for (m, c) in &self.alg.poly(p).t {
            for &(a, e) in &m.0 {
                if self.alg.atoms[a as usize].kind == AtomKind::Inf && e == 1 && m.0.len() == 1 {
                    return Some(if c.is_positive() { 1 } else { -1 });
                }
            }
        }
        None
    }
    /// sign of p as a diagram with leaves Int 0 (negative), 1 (zero), 2 (positive)
    pub fn sign(&mut self, p: PolyId) -> Dd {
        if let Some(&r) = self.sign_memo.get(&p) { return r; }
        let r = self.sign0(p);
        self.sign_memo.insert(p, r);
        r
    }
    fn s3(&mut self, i: u128) -> Dd { self.int(i, 9) }
    fn sign0(&mut self, p: PolyId) -> Dd {
        if let Some(c) = self.alg.as_const(p) {
            return self.s3(if c.is_zero() { 1 } else if c.is_positive() { 2 } else { 0 });
        }
        if !self.facts_range.is_empty() {
            let r = self.range(p, &PathCtx::default(), 0);
            // a margin keeps the rounding of the interval bounds out of the decision
            let m = 1e-9 * (1.0 + if r.lo.is_finite() { r.lo.abs() } else { 0.0 }.max(if r.hi.is_finite() { r.hi.abs() } else { 0.0 }));
            if r.lo > m { return self.s3(2); }
            if r.hi < -m { return self.s3(0); }
        }
        if let Some(s) = self.has_inf(p) { return self.s3(if s > 0 { 2 } else { 0 }); }
        let pp = self.alg.poly(p);
        if let Some((_, c)) = pp.t.iter().find(|(m, _)| m.is_one()) {
            // values are assumed to be of magnitude below 1e298 (1e30 when the rules are analysed at f32)
            if Dds::huge(c) { return self.s3(if c.is_positive() { 2 } else { 0 }); }
        }
        // single monomial: product of atom signs
        if pp.t.len() == 1 {
            let (m, c) = pp.t[0].clone();
            let mut r = self.s3(if c.is_positive() { 2 } else { 0 });
            for (a, e) in m.0 {
                let s = self.atom_sign(a);
                let s = if e % 2 == 0 { self.op1("sgnsq", 0, s, &mut |d, l| match l { Leaf::Int(1, _) => d.s3(1), Leaf::Int(_, _) => d.s3(2), _ => UNDEF }) } else { s };
                r = self.op2("sgnmul", 0, r, s, &mut |d, x, y| match (x, y) {
                    (Leaf::Int(a, _), Leaf::Int(b, _)) => { let v = (*a as i32 - 1) * (*b as i32 - 1) + 1; d.s3(v as u128) }
                    _ => UNDEF,
                });
            }
            return r;
        }
        // clear denominators
        let (n, dens) = match self.alg.num_den(p) { Some(x) => x, None => (p, vec![]) };
        if !dens.is_empty() {
            let mut r = self.sign(n);
            for (d, k) in dens {
                if k % 2 == 0 || self.manifest_nonneg(d) { continue; }
                let s = self.sign(d);
                r = self.op2("sgnmul", 0, r, s, &mut |d, x, y| match (x, y) {
                    (Leaf::Int(a, _), Leaf::Int(b, _)) => { let v = (*a as i32 - 1) * (*b as i32 - 1) + 1; d.s3(v as u128) }
                    _ => UNDEF,
                });
            }
            return r;
        }
        // common monomial factor
        let (c, m, prim) = self.alg.primitive(&pp);
        if !m.is_one() {
            let mm = Poly { t: vec![(m, c)] };
            let mid = self.raw(mm);
            let pid = self.raw(prim);
            let (a, b) = (self.sign(mid), self.sign(pid));
            return self.op2("sgnmul", 0, a, b, &mut |d, x, y| match (x, y) {
                (Leaf::Int(a, _), Leaf::Int(b, _)) => { let v = (*a as i32 - 1) * (*b as i32 - 1) + 1; d.s3(v as u128) }
                _ => UNDEF,
            });
        }
        // a*sqrt(q) + const
        if pp.t.len() == 2 {
            let k = pp.t.iter().find(|(m, _)| m.is_one()).map(|x| x.1.clone());
            let s = pp.t.iter().find(|(m, _)| !m.is_one()).cloned();
            if let (Some(k), Some((m, a))) = (k, s) {
                if m.0.len() == 1 && m.0[0].1 == 1 {
                    if let AtomKind::Sqrt(q) = self.alg.atoms[m.0[0].0 as usize].kind {
                        // sign(a*s + k), s = sqrt(q) >= 0
                        if a.is_positive() == k.is_positive() { return self.s3(if k.is_positive() { 2 } else { 0 }); }
                        let a2q = self.alg.scale(q, &(&a * &a));
                        let k2 = self.alg.konst(&k * &k);
                        let diff = self.alg.sub(a2q, k2);
                        let s = self.sign(diff);
                        if a.is_positive() { return s; }
                        return self.op1("sgnneg", 0, s, &mut |d, l| match l { Leaf::Int(v, _) => d.s3(2 - *v), _ => UNDEF });
                    }
                }
            }
        }
        if let Some((k, f, g)) = self.split_square(p) {
            let (x, y) = (self.sign(f), self.sign(g));
            let k = if k { 1i32 } else { -1 };
            return self.op2(if k > 0 { "sgnmul" } else { "sgnmulneg" }, 0, x, y, &mut |d, x, y| match (x, y) {
                (Leaf::Int(a, _), Leaf::Int(b, _)) => { let v = k * (*a as i32 - 1) * (*b as i32 - 1) + 1; d.s3(v as u128) }
                _ => UNDEF,
            });
        }
        // normalise: leading coefficient of the non-constant part = 1
        let lead = pp.t.iter().find(|(m, _)| !m.is_one()).unwrap().1.clone();
        let flip = lead.is_negative();
        let np = self.alg.scale(p, &lead.recip());
        if np != p {
            let s = self.sign(np);
            return if flip { self.op1("sgnneg", 0, s, &mut |d, l| match l { Leaf::Int(v, _) => d.s3(2 - *v), _ => UNDEF }) } else { s };
        }
        if self.manifest_pos(p) { return self.s3(2); }
        let z = self.s3(1);
        let pos = if !self.facts_nonneg.is_empty() && { let n = self.alg.neg(p); self.facts_nonneg.contains_key(&n) } { z } else { self.s3(2) };
        let neg = if self.manifest_nonneg(p) { z } else { self.s3(0) };
        let v = self.sign_var(p);
        self.select(v, [neg, z, pos])
    }
    /// p = k (L - r)(L - s) for a linear form L of several atoms: the sign of k and the two factors
    fn split_square(&mut self, p: PolyId) -> Option<(bool, PolyId, PolyId)> {
        let pp = self.alg.poly(p);
        if pp.t.len() < 3 || pp.t.len() > 21 { return None; }
        if pp.t.iter().any(|(m, _)| m.0.len() > 2 || m.0.iter().any(|&(_, e)| e < 0) || m.0.iter().map(|x| x.1).sum::<i32>() > 2) { return None; }
        let coef = |m: &[(AtomId, i32)]| pp.t.iter().find(|(x, _)| x.0 == m).map(|x| x.1.clone());
        let squares: Vec<AtomId> = pp.t.iter().filter(|(m, _)| m.0.len() == 1 && m.0[0].1 == 2).map(|(m, _)| m.0[0].0).collect();
        if squares.len() < 2 { return None; }
        let x = squares[0];
        let c = coef(&[(x, 2)])?;
        let b = coef(&[(x, 1)]).unwrap_or_else(Rat::zero);
        let k = pp.t.iter().find(|(m, _)| m.is_one()).map(|x| x.1.clone()).unwrap_or_else(Rat::zero);
        let mut l = self.alg.atom_poly(x);
        for &y in &squares[1..] {
            let e = coef(&[(x.min(y), 1), (x.max(y), 1)])? / (Rat::from_integer(2.into()) * &c);
            let ap = self.alg.atom_poly(y);
            let t = self.alg.scale(ap, &e);
            l = self.alg.add(l, t);
        }
        // c L^2 + b L + k
        let sq = self.alg.mul(l, l);
        let mut q = self.alg.scale(sq, &c);
        let bl = self.alg.scale(l, &b);
        q = self.alg.add(q, bl);
        let kp = self.alg.konst(k.clone());
        q = self.alg.add(q, kp);
        if q != p { return None; }
        let disc = &b * &b - Rat::from_integer(4.into()) * &c * &k;
        if disc.is_negative() { return None; }
        let (n, d) = (disc.numer().sqrt(), disc.denom().sqrt());
        if &(&n * &n) != disc.numer() || &(&d * &d) != disc.denom() { return None; }
        let s = Rat::new(n, d);
        let two_c = Rat::from_integer(2.into()) * &c;
        let mut fac = |root: Rat| { let r = self.alg.konst(-root); self.alg.add(l, r) };
        let f = fac((-&b + &s) / &two_c);
        let g = fac((-&b - &s) / &two_c);
        Some((c.is_positive(), f, g))
    }
    fn raw(&mut self, p: Poly) -> PolyId {
        // p is already reduced (sub-poly or monomial quotient of a reduced poly)
        let mut acc = ZERO;
        for (m, c) in p.t {
            let mut t = self.alg.konst(c);
            for (a, e) in m.0 {
                let ap = self.alg.atom_poly(a);
                let f = if e < 0 { let i = self.alg.inv(ap); self.alg.powi(i, -e as i64) } else { self.alg.powi(ap, e as i64) };
                t = self.alg.mul(t, f);
            }
            acc = self.alg.add(acc, t);
        }
        acc
    }
    fn sign_var(&mut self, p: PolyId) -> u32 {
        if let Some(&v) = self.sign_ix.get(&p) { return v; }
        let pp = self.alg.poly(p);
        let c0 = pp.t.iter().find(|(m, _)| m.is_one()).map(|x| x.1.clone()).unwrap_or_else(Rat::zero);
        let k = self.alg.konst(-c0.clone());
        let q = self.alg.add(p, k);
        let v = self.vars.len() as u32;
        self.vars.push(Var::Sign { p, q, c0, den: String::new() });
        self.sign_ix.insert(p, v);
        v
    }
    fn atom_sign(&mut self, a: AtomId) -> Dd {
        if self.atom_pos(a) { return self.s3(2); }
        let kind = self.alg.atoms[a as usize].kind.clone();
        match kind {
            AtomKind::Den(p) => self.sign(p),
            AtomKind::Sqrt(q) => {
                let s = self.sign(q);
                self.op1("sgnsqrt", 0, s, &mut |d, l| match l { Leaf::Int(2, _) => d.s3(2), Leaf::Int(_, _) => d.s3(1), _ => UNDEF })
            }
            AtomKind::Div0 => self.s3(2),
            _ => {
                let p = self.alg.atom_poly(a);
                let (z, pos) = (self.s3(1), self.s3(2));
                let neg = if self.atom_nonneg(a) { z } else { self.s3(0) };
                let v = self.sign_var(p);
                self.select(v, [neg, z, pos])
            }
        }
    }
    pub fn sign_select(&mut self, p: PolyId, neg: Dd, zero: Dd, pos: Dd) -> Dd {
        let s = self.sign(p);
        self.map1(s, &mut |_, l| match l { Leaf::Int(0, _) => neg, Leaf::Int(1, _) => zero, Leaf::Int(2, _) => pos, _ => UNDEF })
    }

    // ------------------------------------------------------------------ feasibility of paths
    fn atom_range(&self, a: AtomId, cx: &PathCtx, depth: u32) -> Iv {
        let info = &self.alg.atoms[a as usize];
        let mut r = match &info.kind {
            AtomKind::Pi => Iv::pt(std::f64::consts::PI),
            AtomKind::Inf => Iv::pt(f64::INFINITY),
            AtomKind::Sqrt(p) => {
                let x = self.range(*p, cx, depth + 1).meet(&Iv { lo: 0.0, lo_open: false, hi: f64::INFINITY, hi_open: true });
                if x.empty() { Iv { lo: 0.0, lo_open: false, hi: f64::INFINITY, hi_open: true } } else { x.monotone(f64::sqrt) }
            }
            AtomKind::Den(p) => self.range(*p, cx, depth + 1),
            AtomKind::Input(_) => match self.facts_range.get(&a) { Some(&(lo, hi)) => Iv { lo, lo_open: true, hi, hi_open: true }, None => Iv::ALL },
            AtomKind::Big(op, args) if !self.facts_range.is_empty() => {
                let f = |p: PolyId| -> Iv {
                    if let Some(r) = self.big_range.borrow().get(&p) { return r.clone(); }
                    let r = self.range(p, &PathCtx::default(), 0);
                    self.big_range.borrow_mut().insert(p, r.clone());
                    r
                };
                match *op { "add" => f(args[0]).add(&f(args[1])), "mul" => f(args[0]).mul(&f(args[1])), "inv" => f(args[0]).recip(), _ => Iv::ALL }
            }
            AtomKind::Fun(n, args) => match *n {
                "sin" | "cos" => {
                    let all = Iv { lo: -1.0, lo_open: false, hi: 1.0, hi_open: false };
                    let x = if self.facts_range.is_empty() { Iv::ALL } else { self.range(args[0], cx, depth + 2) };
                    let pi = std::f64::consts::PI;
                    let z = |v: f64| if v.abs() < 1e-15 { 0.0 } else { v };
                    if x.empty() || !x.lo.is_finite() || !x.hi.is_finite() { all }
                    else if *n == "cos" && x.lo >= 0.0 && x.hi <= pi.next_up() { Iv { lo: z(x.hi.cos()), lo_open: x.hi_open, hi: z(x.lo.cos()), hi_open: x.lo_open } }
                    else if *n == "cos" && x.lo >= -pi.next_up() && x.hi <= 0.0 { Iv { lo: z(x.lo.cos()), lo_open: x.lo_open, hi: z(x.hi.cos()), hi_open: x.hi_open } }
                    else if *n == "cos" && x.lo >= -pi.next_up() && x.hi <= pi.next_up() {
                        let (a, b) = (z(x.lo.cos()), z(x.hi.cos()));
                        let open = if a < b { x.lo_open } else if b < a { x.hi_open } else { x.lo_open && x.hi_open };
                        Iv { lo: a.min(b), lo_open: open, hi: 1.0, hi_open: false }
                    }
                    else if *n == "sin" && x.lo >= -pi / 2.0 && x.hi <= (pi / 2.0).next_up() { Iv { lo: z(x.lo.sin()), lo_open: x.lo_open, hi: z(x.hi.sin()), hi_open: x.hi_open } }
                    else if *n == "sin" && x.lo >= 0.0 && x.hi <= pi.next_up() {
                        let (a, b) = (z(x.lo.sin()), z(x.hi.sin()));
                        let open = if a < b { x.lo_open } else if b < a { x.hi_open } else { x.lo_open && x.hi_open };
                        Iv { lo: a.min(b), lo_open: open, hi: 1.0, hi_open: false }
                    }
                    else { all }
                }
                "acos" => {
                    let x = self.range(args[0], cx, depth + 1);
                    let (mut lo, mut lo_open, mut hi, mut hi_open) = (0.0, false, std::f64::consts::PI, false);
                    if x.hi == 1.0 { lo_open = x.hi_open } else if x.hi < 1.0 && x.hi > -1.0 { lo = x.hi.acos() * (1.0 - 1e-12); }
                    if x.lo == -1.0 { hi_open = x.lo_open } else if x.lo > -1.0 && x.lo < 1.0 { hi = x.lo.acos() * (1.0 + 1e-12); }
                    Iv { lo, lo_open, hi, hi_open }
                }
                "asin" => {
                    let x = self.range(args[0], cx, depth + 1);
                    let h = std::f64::consts::FRAC_PI_2;
                    let (mut lo, mut hi) = (-h, h);
                    if x.lo > -1.0 && x.lo < 1.0 { lo = x.lo.asin(); lo -= lo.abs() * 1e-12; }
                    if x.hi > -1.0 && x.hi < 1.0 { hi = x.hi.asin(); hi += hi.abs() * 1e-12; }
                    Iv { lo, lo_open: false, hi, hi_open: false }
                }
                "atan2" => Iv { lo: -std::f64::consts::PI, lo_open: false, hi: std::f64::consts::PI, hi_open: false },
                "exp" => { let _ = args; Iv { lo: 0.0, lo_open: true, hi: f64::INFINITY, hi_open: true } }
                _ => Iv::ALL,
            },
            _ => Iv::ALL,
        };
        if let Some(s) = info.sq {
            if depth < 6 && !matches!(info.kind, AtomKind::Sqrt(_)) {
                let sr = self.range(s, cx, depth + 3);
                if sr.hi.is_finite() && sr.hi >= 0.0 {
                    let m = sr.hi.sqrt();
                    r = r.meet(&Iv { lo: -m, lo_open: sr.hi_open, hi: m, hi_open: sr.hi_open });
                }
            }
        }
        r
    }
    fn range(&self, p: PolyId, cx: &PathCtx, depth: u32) -> Iv {
        if depth > 8 { return Iv::ALL; }
        let pp = self.alg.poly(p);
        if pp.t.len() > if self.facts_range.is_empty() { 60 } else { 5000 } { return cx.b.get(&p).cloned().unwrap_or(Iv::ALL); }
        let mut tot = Iv::pt(0.0);
        for (m, c) in &pp.t {
            let mut x = Iv::pt(1.0);
            for &(a, e) in &m.0 {
                let mut ar = self.atom_range(a, cx, depth);
                if let Some(b) = self.ctx_atom(a, cx) { ar = ar.meet(&b); }
                let mut t = ar.powi(e);
                // monomials a^2 may be bounded directly
                if e % 2 == 0 && e > 0 && t.lo < 0.0 { t.lo = 0.0; t.lo_open = false; }
                x = x.mul(&t);
            }
            tot = tot.add(&x.scale(rat_f64(c)));
        }
        // p = q + c0 with a bound on q
        let c0 = pp.t.iter().find(|(m, _)| m.is_one()).map(|x| rat_f64(&x.1)).unwrap_or(0.0);
        if let Some(b) = self.ctx_poly(p, cx) { tot = tot.meet(&b.add(&Iv::pt(c0))); }
        tot
    }
    /// (lower bound, open, upper bound, open)
    pub fn range_pub(&self, p: PolyId, cx: &PathCtx) -> (f64, bool, f64, bool) { let r = self.range(p, cx, 0); (r.lo, r.lo_open, r.hi, r.hi_open) }
    fn ctx_atom(&self, a: AtomId, cx: &PathCtx) -> Option<Iv> {
        for (q, iv) in &cx.b {
            let pp = self.alg.poly(*q);
            if pp.t.len() == 1 && pp.t[0].1.is_one() && pp.t[0].0 .0.len() == 1 && pp.t[0].0 .0[0] == (a, 1) { return Some(iv.clone()); }
        }
        None
    }
    /// bound on the non-constant part of p, up to scaling, from the context
    /// the same, after taking out a multiple of each bounded combination of the path
    pub fn range_lin(&mut self, p: PolyId, cx: &PathCtx) -> (f64, f64) {
        let mut tot = self.range(p, cx, 0);
        if self.alg.poly(p).t.len() <= 24 {
            let bounds: Vec<(PolyId, Iv)> = cx.b.iter().filter(|(q, _)| { let n = self.alg.poly(**q).t.len(); (2..=12).contains(&n) }).map(|(q, b)| (*q, b.clone())).collect();
            for (q, b) in bounds {
                let mut ks: Vec<Rat> = vec![];
                let (pp, qq) = (self.alg.poly(p).clone(), self.alg.poly(q).clone());
                for (m, c) in &qq.t {
                    if let Some((_, d)) = pp.t.iter().find(|(n, _)| n == m) { let k = d / c; if !ks.contains(&k) { ks.push(k); } }
                }
                for k in ks {
                    let kq = self.alg.scale(q, &k);
                    let rest = self.alg.sub(p, kq);
                    tot = tot.meet(&self.range(rest, cx, 0).add(&b.scale(rat_f64(&k))));
                }
            }
        }
        // and of two of them
        if tot.lo <= 0.0 && tot.hi >= 0.0 && self.alg.poly(p).t.len() <= 8 {
            let bounds: Vec<(PolyId, Iv)> = cx.b.iter().filter(|(q, _)| { let n = self.alg.poly(**q).t.len(); (2..=4).contains(&n) }).map(|(q, b)| (*q, b.clone())).take(8).collect();
            let coef = |d: &Dds, q: PolyId, m: &Mono| d.alg.poly(q).t.iter().find(|(n, _)| n == m).map(|x| x.1.clone()).unwrap_or_else(Rat::zero);
            for i in 0..bounds.len() {
                for j in 0..i {
                    let (q, w) = (bounds[i].0, bounds[j].0);
                    let mut ms: Vec<Mono> = vec![];
                    for x in [q, w] { for (m, _) in &self.alg.poly(x).t { if !m.is_one() && !ms.contains(m) { ms.push(m.clone()); } } }
                    for x in 0..ms.len() {
                        for y in 0..x {
                            let (a, b, c, d) = (coef(self, q, &ms[x]), coef(self, w, &ms[x]), coef(self, q, &ms[y]), coef(self, w, &ms[y]));
                            let (e, f) = (coef(self, p, &ms[x]), coef(self, p, &ms[y]));
                            let det = &a * &d - &b * &c;
                            if det.is_zero() { continue; }
                            let (k, l) = ((&e * &d - &b * &f) / &det, (&a * &f - &e * &c) / &det);
                            if k.is_zero() || l.is_zero() { continue; }
                            let (kq, lw) = (self.alg.scale(q, &k), self.alg.scale(w, &l));
                            let rest = self.alg.sub(p, kq);
                            let rest = self.alg.sub(rest, lw);
                            tot = tot.meet(&self.range(rest, cx, 0).add(&bounds[i].1.scale(rat_f64(&k))).add(&bounds[j].1.scale(rat_f64(&l))));
                        }
                    }
                }
            }
        }
        (tot.lo, tot.hi)
    }
    fn ctx_poly(&self, p: PolyId, cx: &PathCtx) -> Option<Iv> {
        let pp = self.alg.poly(p);
        let (_, lead) = pp.t.iter().find(|(m, _)| !m.is_one())?;
        for (q, iv) in &cx.b {
            let qq = self.alg.poly(*q);
            let np: Vec<_> = pp.t.iter().filter(|(m, _)| !m.is_one()).collect();
            if qq.t.len() == np.len() && qq.t.iter().zip(&np).all(|(x, y)| x.0 == y.0 && &x.1 * lead == y.1) {
                return Some(iv.scale(rat_f64(lead)));
            }
        }
        None
    }
    /// add "sign(var) = j" to the context; false if contradictory
    pub fn assume_sign(&self, cx: &mut PathCtx, var: u32, j: usize) -> bool {
        let Var::Sign { p, q, c0, .. } = &self.vars[var as usize] else { return true };
        let b = rat_f64(&-c0.clone());
        let iv = match j {
            0 => Iv { lo: f64::NEG_INFINITY, lo_open: true, hi: b, hi_open: true },
            1 => Iv::pt(b),
            _ => Iv { lo: b, lo_open: true, hi: f64::INFINITY, hi_open: true },
        };
        let old = cx.b.get(q).cloned().unwrap_or(Iv::ALL);
        let new = old.meet(&iv);
        if new.empty() { return false; }
        let r = self.range(*q, cx, 0).meet(&iv);
        if r.empty() { return false; }
        cx.b.insert(*q, new.clone());
        let _ = p;
        // sums of non-negative terms: bound every term
        let qq = self.alg.poly(*q);
        if new.hi.is_finite() && qq.t.len() <= 12 && qq.t.iter().all(|(m, c)| c.is_positive() && self.mono_nonneg(m)) {
            for (m, c) in &qq.t {
                let u = new.hi / rat_f64(c);
                if m.0.len() == 1 {
                    let (a, e) = m.0[0];
                    let bound = if e == 2 && u >= 0.0 { Some((-u.sqrt(), u.sqrt())) } else if e == 1 { Some((0.0, u)) } else { None };
                    if let Some((lo, hi)) = bound {
                        if let Some(&ap) = self.atom_poly_ix(a).as_ref() {
                            let iv = Iv { lo, lo_open: e == 2 && new.hi_open, hi, hi_open: new.hi_open };
                            let o = cx.b.get(&ap).cloned().unwrap_or(Iv::ALL).meet(&iv);
                            if o.empty() { return false; }
                            cx.b.insert(ap, o);
                        }
                    }
                }
            }
        }
        if j != 1 && new.lo == new.hi && new.lo == b { return false; }
        cx.nonzero.len();
        true
    }
    fn atom_poly_ix(&self, a: AtomId) -> Option<PolyId> { self.alg.find_atom_poly(a) }

    /// some theory-feasible path of `cond` to TRUE: its constraints, rendered
    pub fn feasible(&self, cond: Dd) -> Option<Vec<(u32, usize)>> {
        let mut budget = 200_000usize;
        let mut path = vec![];
        let cx = PathCtx::default();
        if self.feas_rec(cond, &cx, &mut path, &mut budget) { Some(path) } else { None }
    }
    fn feas_rec(&self, d: Dd, cx: &PathCtx, path: &mut Vec<(u32, usize)>, budget: &mut usize) -> bool {
        if d == FALSE || d == UNDEF { return false; }
        if d == TRUE { return self.recheck(path); }
        if *budget == 0 { return true; }
        *budget -= 1;
        let Node::Br { var, kids } = &self.nodes[d as usize] else { return false };
        let isbool = matches!(self.vars[*var as usize], Var::Bool(_));
        for j in 0..(if isbool { 2 } else { 3 }) {
            if kids[j] == FALSE || kids[j] == UNDEF { continue; }
            let mut c = cx.clone();
            if !self.assume_sign(&mut c, *var, j) { continue; }
            path.push((*var, j));
            if !isbool && self.lin_contradiction(path) { path.pop(); continue; }
            if self.feas_rec(kids[j], &c, path, budget) { return true; }
            path.pop();
        }
        false
    }
    /// re-examine a complete path: constraints met late may contradict earlier ones
    fn recheck(&self, path: &[(u32, usize)]) -> bool {
        let mut cx = PathCtx::default();
        for _ in 0..3 {
            for &(v, j) in path {
                if !self.assume_sign(&mut cx, v, j) { return false; }
            }
        }
        true
    }
    pub fn show_path(&self, path: &[(u32, usize)]) -> String {
        if path.is_empty() { return "always".into(); }
        path.iter().map(|&(v, j)| match &self.vars[v as usize] {
            Var::Bool(n) => format!("{}{}", if j == 0 { "!" } else { "" }, n),
            Var::Sign { p, .. } => format!("{} {} 0", self.alg.show(*p), ["<", "=", ">"][j]),
        }).collect::<Vec<_>>().join(" and ")
    }
    pub fn eval_path(&self, d: Dd, path: &[(u32, usize)]) -> Dd {
        let mut x = d;
        loop {
            match &self.nodes[x as usize] {
                Node::Leaf(_) => return x,
                Node::Br { var, kids } => match path.iter().find(|p| p.0 == *var) {
                    Some(p) => x = kids[p.1],
                    None => x = kids[2],
                },
            }
        }
    }
    pub fn show_leaf(&self, d: Dd) -> String {
        match self.get(d) {
            Some(Leaf::Undef) => "undefined".into(),
            Some(Leaf::Num(p)) => self.alg.show(*p),
            Some(Leaf::Tr(t)) => self.alg.show(self.tr.nodes[*t as usize].p),
            Some(Leaf::Int(v, _)) => format!("{v}"),
            Some(x) => format!("{x:?}"),
            None => "<gated>".into(),
        }
    }
    pub fn declare_range(&mut self, a: AtomId, lo: f64, hi: f64) {
        self.facts_range.insert(a, (lo, hi));
        self.sign_memo.clear();
    }
    /// multiples of inputs with a declared range inside [lo, hi]: candidates for undoing sines and cosines
    pub fn ranged_angles(&mut self, lo: f64, hi: f64) -> Vec<PolyId> {
        let mut v: Vec<_> = self.facts_range.iter().map(|(&a, &r)| (a, r)).collect();
        v.sort_by_key(|x| x.0);
        let mut out = vec![];
        for (a, (l, h)) in v {
            for (n, d) in [(1, 1), (1, 2), (2, 1)] {
                let k = n as f64 / d as f64;
                if l * k >= lo && h * k <= hi.next_up() { let p = self.alg.atom_poly(a); out.push(self.alg.scale(p, &rat(n, d))); }
            }
        }
        out
    }
    pub fn declare_nonneg(&mut self, p: PolyId) { self.facts_nonneg.insert(p, ()); }
    pub fn nonneg_facts(&self) -> impl Iterator<Item = PolyId> + '_ { self.facts_nonneg.keys().copied() }
}
pub const UNDEF: Dd = 0;
pub const FALSE: Dd = 1;
pub const TRUE: Dd = 2;
