//! Algebraic value numbers: rational functions over hash-consed atoms in a normal form,
//! identified up to equality by an exact comparison indexed by a finite-field fingerprint.
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::HashMap;
use std::rc::Rc;

pub type Rat = BigRational;
pub type PolyId = u32;
pub type AtomId = u32;

// ---------------------------------------------------------------- field F_{p^2}, p = 2^61-1
pub const P: u64 = (1 << 61) - 1;
fn madd(a: u64, b: u64) -> u64 {
    let s = a + b;
    if s >= P { s - P } else { s }
}
fn msub(a: u64, b: u64) -> u64 {
    if a >= b { a - b } else { a + P - b }
}
fn mmul(a: u64, b: u64) -> u64 {
    let x = (a as u128) * (b as u128);
    let lo = (x & (P as u128)) as u64;
    let hi = (x >> 61) as u64;
    madd(lo, hi)
}
fn mpow(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 { r = mmul(r, a); }
        a = mmul(a, a);
        e >>= 1;
    }
    r
}
fn minv(a: u64) -> u64 { mpow(a, P - 2) }
fn is_qr(a: u64) -> bool { a == 0 || mpow(a, (P - 1) / 2) == 1 }
// p = 3 mod 4
fn msqrt(a: u64) -> u64 { mpow(a, (P + 1) / 4) }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Fp(pub u64, pub u64);
impl Fp {
    pub const ZERO: Fp = Fp(0, 0);
    pub const ONE: Fp = Fp(1, 0);
    pub fn add(self, o: Fp) -> Fp { Fp(madd(self.0, o.0), madd(self.1, o.1)) }
    pub fn sub(self, o: Fp) -> Fp { Fp(msub(self.0, o.0), msub(self.1, o.1)) }
    pub fn neg(self) -> Fp { Fp::ZERO.sub(self) }
    pub fn mul(self, o: Fp) -> Fp {
        let ac = mmul(self.0, o.0);
        let bd = mmul(self.1, o.1);
        let ad = mmul(self.0, o.1);
        let bc = mmul(self.1, o.0);
        Fp(msub(ac, bd), madd(ad, bc))
    }
    pub fn inv(self) -> Fp {
        let n = madd(mmul(self.0, self.0), mmul(self.1, self.1));
        let i = minv(n);
        Fp(mmul(self.0, i), mmul(msub(0, self.1), i))
    }
    pub fn pow(self, e: i64) -> Fp {
        let mut b = if e < 0 { self.inv() } else { self };
        let mut e = e.unsigned_abs();
        let mut r = Fp::ONE;
        while e > 0 {
            if e & 1 == 1 { r = r.mul(b); }
            b = b.mul(b);
            e >>= 1;
        }
        r
    }
    pub fn sqrt(self) -> Option<Fp> {
        let Fp(a, b) = self;
        let canon = |x: Fp| { let y = x.neg(); if x <= y { x } else { y } };
        if b == 0 {
            return Some(canon(if is_qr(a) { Fp(msqrt(a), 0) } else { Fp(0, msqrt(msub(0, a))) }));
        }
        let n = madd(mmul(a, a), mmul(b, b));
        if !is_qr(n) { return None; }
        let s = msqrt(n);
        let half = minv(2);
        for t in [mmul(madd(a, s), half), mmul(msub(a, s), half)] {
            if is_qr(t) && t != 0 {
                let x = msqrt(t);
                let y = mmul(b, minv(madd(x, x)));
                let r = Fp(x, y);
                if r.mul(r) == self { return Some(canon(r)); }
            }
        }
        None
    }
}

fn hash64(s: &str, seed: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 33;
    h = h.wrapping_mul(0xc4ceb9fe1a85ec53);
    h ^= h >> 33;
    h
}
fn big_mod(b: &BigInt) -> u64 {
    let p = BigInt::from(P);
    b.mod_floor(&p).to_u64().unwrap()
}
fn rat_fp(r: &Rat) -> Fp {
    let n = big_mod(r.numer());
    let d = big_mod(r.denom());
    Fp(mmul(n, minv(d)), 0)
}

// ---------------------------------------------------------------- monomials
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Mono(pub Vec<(AtomId, i32)>);
impl Mono {
    pub fn is_one(&self) -> bool { self.0.is_empty() }
    pub fn mul(&self, o: &Mono) -> Mono {
        let (a, b) = (&self.0, &o.0);
        if a.is_empty() { return o.clone(); }
        if b.is_empty() { return self.clone(); }
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            if a[i].0 < b[j].0 { r.push(a[i]); i += 1; }
            else if a[i].0 > b[j].0 { r.push(b[j]); j += 1; }
            else {
                let e = a[i].1 + b[j].1;
                if e != 0 { r.push((a[i].0, e)); }
                i += 1; j += 1;
            }
        }
        r.extend_from_slice(&a[i..]);
        r.extend_from_slice(&b[j..]);
        Mono(r)
    }
    pub fn inv(&self) -> Mono { Mono(self.0.iter().map(|&(a, e)| (a, -e)).collect()) }
    pub fn exp(&self, a: AtomId) -> i32 {
        self.0.iter().find(|x| x.0 == a).map_or(0, |x| x.1)
    }
    /// lexicographic group order (larger first atom exponent = larger)
    pub fn cmp(&self, o: &Mono) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        let (a, b) = (&self.0, &o.0);
        let (mut i, mut j) = (0, 0);
        loop {
            match (a.get(i), b.get(j)) {
                (None, None) => return Equal,
                (Some(x), None) => return if x.1 > 0 { Greater } else { Less },
                (None, Some(y)) => return if y.1 > 0 { Less } else { Greater },
                (Some(x), Some(y)) => {
                    if x.0 < y.0 { return if x.1 > 0 { Greater } else { Less }; }
                    if x.0 > y.0 { return if y.1 > 0 { Less } else { Greater }; }
                    if x.1 != y.1 { return x.1.cmp(&y.1); }
                    i += 1; j += 1;
                }
            }
        }
    }
}

/// terms sorted in descending monomial order, no zero coefficients
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Poly { pub t: Vec<(Mono, Rat)> }
impl Poly {
    pub fn konst(r: Rat) -> Poly {
        if r.is_zero() { Poly { t: vec![] } } else { Poly { t: vec![(Mono::default(), r)] } }
    }
    pub fn is_zero(&self) -> bool { self.t.is_empty() }
    pub fn as_const(&self) -> Option<Rat> {
        match self.t.len() {
            0 => Some(Rat::zero()),
            1 if self.t[0].0.is_one() => Some(self.t[0].1.clone()),
            _ => None,
        }
    }
    fn from_map(m: HashMap<Mono, Rat>) -> Poly {
        let mut t: Vec<_> = m.into_iter().filter(|x| !x.1.is_zero()).collect();
        t.sort_by(|a, b| b.0.cmp(&a.0));
        Poly { t }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        use std::cmp::Ordering::*;
        let (a, b) = (&self.t, &o.t);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            match a[i].0.cmp(&b[j].0) {
                Greater => { r.push(a[i].clone()); i += 1; }
                Less => { r.push(b[j].clone()); j += 1; }
                Equal => {
                    let c = &a[i].1 + &b[j].1;
                    if !c.is_zero() { r.push((a[i].0.clone(), c)); }
                    i += 1; j += 1;
                }
            }
        }
        r.extend_from_slice(&a[i..]);
        r.extend_from_slice(&b[j..]);
        Poly { t: r }
    }
    pub fn scale(&self, c: &Rat) -> Poly {
        if c.is_zero() { return Poly::default(); }
        Poly { t: self.t.iter().map(|(m, k)| (m.clone(), k * c)).collect() }
    }
    pub fn mul_mono(&self, m: &Mono, c: &Rat) -> Poly {
        Poly { t: self.t.iter().map(|(n, k)| (n.mul(m), k * c)).collect() }
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if self.t.len() == 1 { return o.mul_mono(&self.t[0].0, &self.t[0].1); }
        if o.t.len() == 1 { return self.mul_mono(&o.t[0].0, &o.t[0].1); }
        let mut m: HashMap<Mono, Rat> = HashMap::with_capacity(self.t.len() * o.t.len());
        for (a, x) in &self.t {
            for (b, y) in &o.t {
                let e = m.entry(a.mul(b)).or_insert_with(Rat::zero);
                *e += x * y;
            }
        }
        Poly::from_map(m)
    }
}

/// the coefficients have grown so long that the product is not worth computing
fn costly(p: &Poly, q: &Poly) -> bool {
    let w = |p: &Poly| p.t.iter().map(|t| (t.1.numer().bits() + t.1.denom().bits()) / 64 + 1).max().unwrap_or(0);
    (p.t.len() * q.t.len()) as u64 * w(p) * w(q) > 4_000_000
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AtomKind {
    Input(String),
    Sqrt(PolyId),
    Fun(&'static str, Vec<PolyId>),
    /// stands for a multi-term polynomial; occurs with negative exponents only
    Den(PolyId),
    /// an expression too large to expand (identified by its fingerprint)
    Big(&'static str, Vec<PolyId>),
    Pi,
    Inf,
    Div0,
}
pub struct AtomInfo {
    pub kind: AtomKind,
    pub fp: Fp,
    /// value of the atom's square, when it has a quadratic reduction rule
    pub sq: Option<PolyId>,
}
pub struct PolyInfo { pub poly: Rc<Poly>, pub fp: Fp }

pub struct Alg {
    pub seed: u64,
    pub atoms: Vec<AtomInfo>,
    atom_ix: HashMap<AtomKind, AtomId>,
    pub polys: Vec<PolyInfo>,
    by_fp: HashMap<Fp, Vec<PolyId>>,
    inv_memo: HashMap<PolyId, PolyId>,
    mul_memo: HashMap<(PolyId, PolyId), PolyId>,
    add_memo: HashMap<(PolyId, PolyId), PolyId>,
    atom_memo: HashMap<AtomId, PolyId>,
    alias: HashMap<PolyId, Vec<Poly>>,
    pub n_exact: u64,
    pub n_hash: u64,
    pub inconsistent: bool,
    pub mul_cap: usize,
    pub len_cap: usize,
    pub clear_cap: usize,
}
pub const ZERO: PolyId = 0;
pub const ONE: PolyId = 1;

pub fn rat(n: i64, d: i64) -> Rat { Rat::new(BigInt::from(n), BigInt::from(d)) }

/// the rational a decimal float literal denotes (shortest round-trip decimal)
pub fn rat_of_decimal(s: &str) -> Rat {
    let s = s.trim();
    let (mant, exp) = match s.find(|c| c == 'e' || c == 'E') {
        Some(i) => (&s[..i], s[i + 1..].parse::<i32>().unwrap()),
        None => (s, 0),
    };
    let (neg, mant) = match mant.strip_prefix('-') { Some(m) => (true, m), None => (false, mant) };
    let (ip, fpart) = match mant.find('.') { Some(i) => (&mant[..i], &mant[i + 1..]), None => (mant, "") };
    let digits = format!("{}{}", ip, fpart);
    let n: BigInt = digits.parse().unwrap();
    let e = exp - fpart.len() as i32;
    let ten = BigInt::from(10);
    let mut r = if e >= 0 { Rat::from_integer(n * ten.pow(e as u32)) } else { Rat::new(n, ten.pow((-e) as u32)) };
    if neg { r = -r; }
    r
}

impl Alg {
    pub fn new(seed: u64) -> Alg {
        let mut a = Alg {
            seed, atoms: vec![], atom_ix: HashMap::new(), polys: vec![], by_fp: HashMap::new(),
            inv_memo: HashMap::new(), mul_memo: HashMap::new(), add_memo: HashMap::new(),
            atom_memo: HashMap::new(), alias: HashMap::new(), n_exact: 0, n_hash: 0, inconsistent: false, mul_cap: 40_000, len_cap: 4_000, clear_cap: 20_000,
        };
        let z = a.intern(Poly::default());
        assert_eq!(z, ZERO);
        let o = a.intern(Poly::konst(Rat::one()));
        assert_eq!(o, ONE);
        for i in [-1i64, 2, -2, 3, 4] { a.konst(rat(i, 1)); }
        a.konst(rat(1, 2));
        a.pi();
        a
    }
    pub fn poly(&self, p: PolyId) -> Rc<Poly> { self.polys[p as usize].poly.clone() }
    pub fn fp(&self, p: PolyId) -> Fp { self.polys[p as usize].fp }
    pub fn as_const(&self, p: PolyId) -> Option<Rat> { self.polys[p as usize].poly.as_const() }

    fn rnd(&self, key: &str) -> Fp { Fp(hash64(key, self.seed) % P, 0) }

    pub fn atom(&mut self, kind: AtomKind) -> AtomId {
        if let Some(&a) = self.atom_ix.get(&kind) { return a; }
        let mut sq = None;
        let fp = match &kind {
            AtomKind::Input(s) => self.rnd(&format!("in:{s}")),
            AtomKind::Pi => self.rnd("pi"),
            AtomKind::Inf => self.rnd("inf"),
            AtomKind::Div0 => self.rnd("div0"),
            AtomKind::Den(p) => self.fp(*p),
            AtomKind::Big(op, args) => {
                let f: Vec<Fp> = args.iter().map(|&x| self.fp(x)).collect();
                match *op {
                    "add" => f[0].add(f[1]),
                    "mul" => f[0].mul(f[1]),
                    "inv" => f[0].inv(),
                    _ => unreachable!(),
                }
            }
            AtomKind::Sqrt(p) => {
                sq = Some(*p);
                match self.fp(*p).sqrt() {
                    Some(x) => x,
                    None => { self.inconsistent = true; self.rnd(&format!("sqrt{:?}", self.fp(*p))) }
                }
            }
            AtomKind::Fun(n, args) => {
                let key: Vec<Fp> = args.iter().map(|&x| self.fp(x)).collect();
                if *n == "sin" || *n == "cos" {
                    let t = self.rnd(&format!("angle{:?}", key));
                    let d = Fp::ONE.add(t.mul(t)).inv();
                    if *n == "sin" { t.add(t).mul(d) } else { Fp::ONE.sub(t.mul(t)).mul(d) }
                } else {
                    self.rnd(&format!("{n}{:?}", key))
                }
            }
        };
        let id = self.atoms.len() as AtomId;
        self.atoms.push(AtomInfo { kind: kind.clone(), fp, sq });
        self.atom_ix.insert(kind.clone(), id);
        if let AtomKind::Fun("cos", args) = &kind {
            let s = self.fun("sin", args.clone());
            let s2 = self.mul(s, s);
            let r = self.sub(ONE, s2);
            self.atoms[id as usize].sq = Some(r);
        }
        id
    }
    pub fn atom_poly(&mut self, a: AtomId) -> PolyId {
        if let AtomKind::Den(p) = self.atoms[a as usize].kind { return p; }
        if let Some(&p) = self.atom_memo.get(&a) { return p; }
        let p = self.intern(Poly { t: vec![(Mono(vec![(a, 1)]), Rat::one())] });
        self.atom_memo.insert(a, p);
        p
    }
    pub fn input(&mut self, name: &str) -> PolyId {
        let a = self.atom(AtomKind::Input(name.to_string()));
        self.atom_poly(a)
    }
    pub fn fun(&mut self, n: &'static str, args: Vec<PolyId>) -> PolyId {
        let a = self.atom(AtomKind::Fun(n, args));
        self.atom_poly(a)
    }
    pub fn pi(&mut self) -> PolyId { let a = self.atom(AtomKind::Pi); self.atom_poly(a) }
    pub fn pi_atom(&self) -> Option<AtomId> { self.atom_ix.get(&AtomKind::Pi).copied() }
    pub fn inf(&mut self) -> PolyId { let a = self.atom(AtomKind::Inf); self.atom_poly(a) }
    /// declare x*x == v for the single-atom poly x
    pub fn set_square(&mut self, x: PolyId, v: PolyId) -> Result<(), String> {
        let p = self.poly(x);
        if p.t.len() == 1 && p.t[0].1.is_one() && p.t[0].0 .0.len() == 1 && p.t[0].0 .0[0].1 == 1 {
            let a = p.t[0].0 .0[0].0;
            match self.fp(v).sqrt() {
                Some(f) => {
                    self.atoms[a as usize].fp = f;
                    // x itself was interned under its old fingerprint
                    let old = self.polys[x as usize].fp;
                    if let Some(l) = self.by_fp.get_mut(&old) { l.retain(|&q| q != x); }
                    self.polys[x as usize].fp = f;
                    self.by_fp.entry(f).or_default().push(x);
                }
                None => self.inconsistent = true,
            }
            self.atoms[a as usize].sq = Some(v);
            Ok(())
        } else {
            Err("sqr_is: first argument is not an input atom".into())
        }
    }
    pub fn konst(&mut self, r: Rat) -> PolyId { self.intern(Poly::konst(r)) }
    pub fn int(&mut self, i: i64) -> PolyId { self.konst(rat(i, 1)) }

    fn poly_fp(&self, p: &Poly) -> Fp {
        let mut s = Fp::ZERO;
        for (m, c) in &p.t {
            let mut x = rat_fp(c);
            for &(a, e) in &m.0 { x = x.mul(self.atoms[a as usize].fp.pow(e as i64)); }
            s = s.add(x);
        }
        s
    }
    fn has_den(&self, p: &Poly) -> bool {
        p.t.iter().any(|(m, _)| m.0.iter().any(|&(a, _)| matches!(self.atoms[a as usize].kind, AtomKind::Den(_))))
    }
    fn has_big(&self, p: &Poly) -> bool {
        p.t.iter().any(|(m, _)| m.0.iter().any(|&(a, _)| matches!(self.atoms[a as usize].kind, AtomKind::Big(..))))
    }

    /// intern a *reduced* polynomial, up to semantic equality
    fn intern(&mut self, p: Poly) -> PolyId {
        let fp = self.poly_fp(&p);
        if let Some(l) = self.by_fp.get(&fp) {
            for &q in &l.clone() {
                if *self.polys[q as usize].poly == p { return q; }
                let qp = self.poly(q);
                if self.alias.get(&q).map_or(false, |l| l.contains(&p)) { return q; }
                if self.exact_equal(&p, &qp) {
                    let l = self.alias.entry(q).or_default();
                    if l.len() < 8 && p.t.len() <= 64 { l.push(p.clone()); }
                    if p.t.len() < qp.t.len() && !self.has_den(&p) && !self.has_big(&p) { self.polys[q as usize].poly = Rc::new(p); }
                    return q;
                }
            }
        }
        let id = self.polys.len() as PolyId;
        self.polys.push(PolyInfo { poly: Rc::new(p), fp });
        self.by_fp.entry(fp).or_default().push(id);
        id
    }
    /// p and q have equal fingerprints: confirm by cross-multiplication when that is affordable;
    /// otherwise (or when opaque atoms are involved) rely on the fingerprint.
    fn exact_equal(&mut self, p: &Poly, q: &Poly) -> bool {
        if self.has_big(p) || self.has_big(q) { self.n_hash += 1; return true; }
        let d = p.add(&q.scale(&rat(-1, 1)));
        match self.clear(&d, self.clear_cap) {
            Some((n, _)) => { self.n_exact += 1; n.is_zero() }
            None => { self.n_hash += 1; true }
        }
    }
    /// multiply out all Den atoms: p = N / prod(D^k); returns N reduced and the list (D, k)
    fn clear(&mut self, p: &Poly, cap: usize) -> Option<(Poly, Vec<(AtomId, i32)>)> {
        let mut cur = p.clone();
        let mut dens = vec![];
        loop {
            let mut found: Option<(AtomId, i32)> = None;
            for (m, _) in &cur.t {
                for &(a, e) in &m.0 {
                    if let AtomKind::Den(_) = self.atoms[a as usize].kind {
                        match found {
                            None => found = Some((a, e)),
                            Some((fa, fe)) if fa == a && e < fe => found = Some((a, e)),
                            _ => {}
                        }
                    }
                }
            }
            let Some((a, e)) = found else { break };
            let k = -e;
            if k < 1 || k > 60 || dens.len() > 40 { return None; }
            let AtomKind::Den(dp) = self.atoms[a as usize].kind else { unreachable!() };
            let dpoly = self.poly(dp);
            // powers of the denominator
            let mut pw = vec![Poly::konst(Rat::one())];
            for i in 0..k as usize {
                if pw[i].t.len() * dpoly.t.len() > cap || costly(&pw[i], &dpoly) { return None; }
                let nx = pw[i].mul(&dpoly);
                let nx = self.reduce_raw(nx)?;
                pw.push(nx);
            }
            let mut groups: HashMap<i32, Vec<(Mono, Rat)>> = HashMap::new();
            for (m, c) in &cur.t {
                let me = m.exp(a);
                let mut mm = m.clone();
                mm.0.retain(|x| x.0 != a);
                groups.entry(me + k).or_default().push((mm, c.clone()));
            }
            let mut acc = Poly::default();
            let mut ks: Vec<_> = groups.keys().copied().collect();
            ks.sort();
            for g in ks {
                let t = groups.remove(&g).unwrap();
                let mut q = Poly { t };
                q.t.sort_by(|a, b| b.0.cmp(&a.0));
                if g as usize >= pw.len() { return None; }
                if q.t.len() * pw[g as usize].t.len() > cap || costly(&q, &pw[g as usize]) { return None; }
                let prod = q.mul(&pw[g as usize]);
                let prod = self.reduce_raw(prod)?;
                acc = acc.add(&prod);
                if acc.t.len() > cap { return None; }
            }
            cur = acc;
            dens.push((a, k));
        }
        Some((cur, dens))
    }
    /// apply quadratic reduction rules; None if it gets too large
    fn reduce_raw(&mut self, p: Poly) -> Option<Poly> {
        let mut cur = p;
        let mut guard = 0;
        loop {
            let need = cur.t.iter().any(|(m, _)| m.0.iter().any(|&(a, e)| (e < 0 || e > 1) && self.atoms[a as usize].sq.is_some()));
            if !need { return Some(cur); }
            guard += 1;
            if guard > 40 { return None; }
            let mut acc: HashMap<Mono, Rat> = HashMap::new();
            for (m, c) in &cur.t {
                let bad: Vec<(AtomId, i32)> = m.0.iter().copied().filter(|&(a, e)| (e < 0 || e > 1) && self.atoms[a as usize].sq.is_some()).collect();
                if bad.is_empty() {
                    *acc.entry(m.clone()).or_insert_with(Rat::zero) += c;
                    continue;
                }
                let mut base = m.clone();
                let mut fac = Poly::konst(Rat::one());
                for (a, e) in bad {
                    base.0.retain(|x| x.0 != a);
                    let r = e.rem_euclid(2);
                    let k = (e - r) / 2;
                    if r == 1 { base = base.mul(&Mono(vec![(a, 1)])); }
                    let s = self.atoms[a as usize].sq.unwrap();
                    let sp = if k < 0 { self.inv(s) } else { s };
                    let sp = self.poly(sp);
                    for _ in 0..k.abs() {
                        if fac.t.len() * sp.t.len() > self.clear_cap { return None; }
                        fac = fac.mul(&sp);
                    }
                }
                for (fm, fc) in &fac.t {
                    *acc.entry(base.mul(fm)).or_insert_with(Rat::zero) += fc * c;
                }
                if acc.len() > self.clear_cap * 5 / 2 { return None; }
            }
            cur = Poly::from_map(acc);
        }
    }
    fn finish(&mut self, p: Poly, op: &'static str, a: PolyId, b: PolyId) -> PolyId {
        if p.t.len() > self.len_cap { return self.big(op, vec![a, b]); }
        match self.reduce_raw(p) {
            Some(r) => {
                if r.t.len() > self.len_cap { return self.big(op, vec![a, b]); }
                let r = self.cancel(r);
                self.intern(r)
            }
            None => self.big(op, vec![a, b]),
        }
    }
    fn big(&mut self, op: &'static str, args: Vec<PolyId>) -> PolyId {
        let k = AtomKind::Big(op, args.clone());
        if !self.atom_ix.contains_key(&k) {
            // reuse an existing value with this fingerprint
            let f: Vec<Fp> = args.iter().map(|&x| self.fp(x)).collect();
            let fp = match op { "add" => f[0].add(f[1]), "mul" => f[0].mul(f[1]), _ => f[0].inv() };
            if let Some(l) = self.by_fp.get(&fp) {
                if let Some(&q) = l.first() { self.n_hash += 1; return q; }
            }
        }
        let a = self.atom(k);
        self.atom_poly(a)
    }
    /// cancel a denominator common to all terms when it divides the numerator exactly
    fn cancel(&mut self, p: Poly) -> Poly {
        if p.t.len() < 2 || !self.has_den(&p) { return p; }
        let mut cur = p;
        'outer: loop {
            let cands: Vec<AtomId> = match cur.t.first() {
                Some((m, _)) => m.0.iter().filter(|&&(a, _)| matches!(self.atoms[a as usize].kind, AtomKind::Den(_))).map(|x| x.0).collect(),
                None => return cur,
            };
            for a in cands {
                if !cur.t.iter().all(|(m, _)| m.exp(a) <= -1) { continue; }
                let AtomKind::Den(dp) = self.atoms[a as usize].kind else { unreachable!() };
                let d = self.poly(dp);
                if d.t.len() > cur.t.len() || self.has_den(&d) { continue; }
                let num = cur.mul_mono(&Mono(vec![(a, 1)]), &Rat::one());
                if let Some(q) = div_exact(&num, &d) {
                    // quotient may need reduction; only accept if already reduced
                    if let Some(q2) = self.reduce_raw(q) { cur = q2; continue 'outer; }
                }
            }
            return cur;
        }
    }

    pub fn add(&mut self, a: PolyId, b: PolyId) -> PolyId {
        if a == ZERO { return b; }
        if b == ZERO { return a; }
        let key = if a <= b { (a, b) } else { (b, a) };
        if let Some(&r) = self.add_memo.get(&key) { return r; }
        let (pa, pb) = (self.poly(a), self.poly(b));
        let r = if pa.t.len() + pb.t.len() > 2 * self.len_cap { self.big("add", vec![key.0, key.1]) } else {
            let s = pa.add(&pb);
            self.finish(s, "add", key.0, key.1)
        };
        self.add_memo.insert(key, r);
        r
    }
    pub fn scale(&mut self, a: PolyId, c: &Rat) -> PolyId {
        let p = self.poly(a).scale(c);
        self.intern(p)
    }
    pub fn neg(&mut self, a: PolyId) -> PolyId { self.scale(a, &rat(-1, 1)) }
    pub fn sub(&mut self, a: PolyId, b: PolyId) -> PolyId {
        if a == b { return ZERO; }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, a: PolyId, b: PolyId) -> PolyId {
        if a == ZERO || b == ZERO { return ZERO; }
        if a == ONE { return b; }
        if b == ONE { return a; }
        let key = if a <= b { (a, b) } else { (b, a) };
        if let Some(&r) = self.mul_memo.get(&key) { return r; }
        let (pa, pb) = (self.poly(a), self.poly(b));
        let r = if pa.t.len() * pb.t.len() > self.mul_cap { self.big("mul", vec![key.0, key.1]) } else {
            let s = pa.mul(&pb);
            self.finish(s, "mul", key.0, key.1)
        };
        self.mul_memo.insert(key, r);
        r
    }
    pub fn inv(&mut self, a: PolyId) -> PolyId {
        if let Some(&r) = self.inv_memo.get(&a) { return r; }
        let p = self.poly(a);
        let r = if p.is_zero() {
            let at = self.atom(AtomKind::Div0);
            self.atom_poly(at)
        } else if p.t.len() == 1 && p.t[0].0 .0.len() == 1 && p.t[0].0 .0[0].1 > 0 && self.atoms[p.t[0].0 .0[0].0 as usize].kind == AtomKind::Inf {
            ZERO
        } else if p.t.len() == 1 {
            let q = Poly { t: vec![(p.t[0].0.inv(), p.t[0].1.recip())] };
            // a Den with positive exponent must be expanded
            self.expand_pos_dens(q, a)
        } else {
            match self.clear(&p, self.clear_cap) {
                None => self.big("inv", vec![a]),
                Some((n, _)) if n.is_zero() => {
                    let at = self.atom(AtomKind::Div0);
                    self.atom_poly(at)
                }
                Some((n, dens)) => {
                    let (c, m, prim) = self.primitive(&n);
                    let mut r = if prim.t.len() == 1 {
                        self.konst(c.recip())
                    } else {
                        let pid = self.intern(prim);
                        let at = self.atom(AtomKind::Den(pid));
                        let raw = Poly { t: vec![(Mono(vec![(at, -1)]), c.recip())] };
                        self.intern(raw)
                    };
                    let minv = Poly { t: vec![(m.inv(), Rat::one())] };
                    let minv = match self.reduce_raw(minv) { Some(x) => self.intern(x), None => return self.big("inv", vec![a]) };
                    r = self.mul(r, minv);
                    for (d, k) in dens {
                        let AtomKind::Den(dp) = self.atoms[d as usize].kind else { unreachable!() };
                        for _ in 0..k { r = self.mul(r, dp); }
                    }
                    r
                }
            }
        };
        self.inv_memo.insert(a, r);
        r
    }
    fn expand_pos_dens(&mut self, q: Poly, orig: PolyId) -> PolyId {
        let (m, c) = q.t[0].clone();
        let mut rest = Mono::default();
        let mut facs = vec![];
        for &(a, e) in &m.0 {
            if let AtomKind::Den(dp) = self.atoms[a as usize].kind {
                if e > 0 { for _ in 0..e { facs.push(dp); } continue; }
            }
            rest = rest.mul(&Mono(vec![(a, e)]));
        }
        let base = Poly { t: vec![(rest, c)] };
        let mut r = match self.reduce_raw(base) { Some(x) => self.intern(x), None => return self.big("inv", vec![orig]) };
        for f in facs { r = self.mul(r, f); }
        r
    }
    /// n = c * m * prim, prim with leading coefficient 1 and no common monomial factor
    pub fn primitive(&self, n: &Poly) -> (Rat, Mono, Poly) {
        let c = n.t[0].1.clone();
        let mut common: HashMap<AtomId, i32> = n.t[0].0 .0.iter().copied().collect();
        for (m, _) in &n.t[1..] {
            let mm: HashMap<AtomId, i32> = m.0.iter().copied().collect();
            for (a, e) in common.iter_mut() {
                let o = mm.get(a).copied().unwrap_or(0);
                if o < *e { *e = o; }
            }
            for (a, e) in mm {
                if e < 0 && !common.contains_key(&a) { common.insert(a, e); }
            }
        }
        let mut v: Vec<(AtomId, i32)> = common.into_iter().filter(|x| x.1 != 0).collect();
        v.sort();
        let m = Mono(v);
        let prim = n.mul_mono(&m.inv(), &c.recip());
        (c, m, prim)
    }
    pub fn div(&mut self, a: PolyId, b: PolyId) -> PolyId {
        let i = self.inv(b);
        self.mul(a, i)
    }
    pub fn powi(&mut self, a: PolyId, n: i64) -> PolyId {
        let b = if n < 0 { self.inv(a) } else { a };
        let mut r = ONE;
        for _ in 0..n.unsigned_abs() { r = self.mul(r, b); }
        r
    }

    /// p = N/D with N free of denominators and D a product (D, k)
    pub fn num_den(&mut self, p: PolyId) -> Option<(PolyId, Vec<(PolyId, i32)>)> {
        let pp = self.poly(p);
        let (n, d) = self.clear(&pp, self.clear_cap)?;
        // negative exponents of plain atoms
        let nid = self.intern(n);
        let mut dv = vec![];
        for (a, k) in d {
            if let AtomKind::Den(dp) = self.atoms[a as usize].kind { dv.push((dp, k)); }
        }
        Some((nid, dv))
    }

    /// n = (1 - s^2) * q for the sine or cosine s of some angle: q and the other one of the pair
    pub fn pythagorean(&mut self, n: &Poly) -> Option<(Poly, PolyId)> {
        let cand: Vec<AtomId> = { let mut v: Vec<AtomId> = n.t.iter().flat_map(|(m, _)| m.0.iter().filter(|x| x.1 >= 2).map(|x| x.0)).collect(); v.sort(); v.dedup(); v };
        for a in cand {
            let (other, args) = match &self.atoms[a as usize].kind { AtomKind::Fun("sin", v) => ("cos", v.clone()), AtomKind::Fun("cos", v) => ("sin", v.clone()), _ => continue };
            let Some(&b) = self.atom_ix.get(&AtomKind::Fun(other, args)) else { continue };
            let d = Poly { t: vec![(Mono(vec![(a, 2)]), rat(-1, 1)), (Mono(vec![]), Rat::one())] };
            let Some(sq) = self.atoms[b as usize].sq else { continue };
            if *self.polys[sq as usize].poly != d { continue; }
            if let Some(q) = div_exact(n, &d) { let x = self.atom_poly(b); return Some((q, x)); }
        }
        None
    }
    /// if p is the square of a polynomial (times a positive rational square), its root
    pub fn perfect_sqrt(&mut self, p: PolyId) -> Option<PolyId> {
        let pp = self.poly(p);
        let (n, dens) = self.clear(&pp, self.clear_cap / 4)?;
        if dens.iter().any(|d| d.1 % 2 != 0) {
            return None;
        }
        let root = poly_sqrt(&n)?;
        let mut r = self.intern(root);
        for (a, k) in dens {
            if let AtomKind::Den(dp) = self.atoms[a as usize].kind {
                let i = self.inv(dp);
                for _ in 0..k / 2 { r = self.mul(r, i); }
            }
        }
        let chk = self.mul(r, r);
        if chk == p { Some(r) } else { None }
    }

    // ------------------------------------------------------------ printing
    pub fn show(&self, p: PolyId) -> String { self.show_poly(&self.polys[p as usize].poly.clone(), 0) }
    fn show_poly(&self, p: &Poly, depth: usize) -> String {
        if p.t.is_empty() { return "0".into(); }
        let mut s = String::new();
        for (i, (m, c)) in p.t.iter().enumerate() {
            if i >= 8 || s.len() > 500 { s.push_str(&format!(" + …({} terms)", p.t.len())); break; }
            let neg = c.is_negative();
            let ca = c.abs();
            if i == 0 { if neg { s.push('-'); } } else { s.push_str(if neg { " - " } else { " + " }); }
            let mut parts = vec![];
            if !ca.is_one() || m.is_one() { parts.push(show_rat(&ca)); }
            for &(a, e) in &m.0 {
                let n = self.show_atom(a, depth);
                parts.push(if e == 1 { n } else { format!("{n}^{e}") });
            }
            s.push_str(&parts.join("*"));
        }
        s
    }
    fn show_atom(&self, a: AtomId, depth: usize) -> String {
        if depth > 4 { return format!("t{a}"); }
        let sp = |x: &PolyId| self.show_poly(&self.polys[*x as usize].poly.clone(), depth + 1);
        match &self.atoms[a as usize].kind {
            AtomKind::Input(s) => s.clone(),
            AtomKind::Sqrt(p) => format!("sqrt({})", sp(p)),
            AtomKind::Fun(n, args) => format!("{n}({})", args.iter().map(sp).collect::<Vec<_>>().join(", ")),
            AtomKind::Den(p) => format!("({})", sp(p)),
            AtomKind::Big(op, _) => format!("<large {op} #{a}>"),
            AtomKind::Pi => "pi".into(),
            AtomKind::Inf => "inf".into(),
            AtomKind::Div0 => "(1/0)".into(),
        }
    }
}
pub fn show_rat(r: &Rat) -> String {
    if r.denom().is_one() && r.numer().bits() < 60 { return format!("{}", r.numer()); }
    if r.numer().bits() < 40 && r.denom().bits() < 14 { return format!("{}/{}", r.numer(), r.denom()); }
    format!("{:e}", rat_f64(r))
}
pub fn rat_f64(r: &Rat) -> f64 { r.to_f64().unwrap_or(f64::NAN) }

/// exact multivariate division (Laurent polynomials in a group order); None if not exact
pub fn div_exact(n: &Poly, d: &Poly) -> Option<Poly> {
    if d.t.is_empty() { return None; }
    let (lm, lc) = &d.t[0];
    let limit = n.t.len() + 4;
    let mut rem = n.clone();
    let mut q: Vec<(Mono, Rat)> = vec![];
    // the smallest term of the product must be reached by smallest(q)*smallest(d)
    let low_q = { let (m, _) = n.t.last()?; m.mul(&d.t.last().unwrap().0.inv()) };
    while !rem.t.is_empty() {
        if q.len() > limit { return None; }
        let (m, c) = &rem.t[0];
        let qm = m.mul(&lm.inv());
        if qm.cmp(&low_q) == std::cmp::Ordering::Less { return None; }
        let qc = c / lc;
        let sub = d.mul_mono(&qm, &(-qc.clone()));
        rem = rem.add(&sub);
        q.push((qm, qc));
    }
    q.sort_by(|a, b| b.0.cmp(&a.0));
    Some(Poly { t: q })
}
pub fn rat_sqrt(r: &Rat) -> Option<Rat> {
    if r.is_negative() { return None; }
    let n = r.numer().sqrt();
    let d = r.denom().sqrt();
    if &(&n * &n) == r.numer() && &(&d * &d) == r.denom() { Some(Rat::new(n, d)) } else { None }
}
fn mono_sqrt(m: &Mono) -> Option<Mono> {
    if m.0.iter().all(|x| x.1 % 2 == 0) { Some(Mono(m.0.iter().map(|&(a, e)| (a, e / 2)).collect())) } else { None }
}
pub fn poly_sqrt(p: &Poly) -> Option<Poly> {
    if p.t.is_empty() { return Some(Poly::default()); }
    let (m, c) = &p.t[0];
    let rm = mono_sqrt(m)?;
    let rc = rat_sqrt(c)?;
    // last term must be a square too
    let (lm, lc) = p.t.last().unwrap();
    mono_sqrt(lm)?;
    rat_sqrt(lc)?;
    let two_lead = (rm.clone(), &rc + &rc);
    let mut root = Poly { t: vec![(rm, rc)] };
    let mut rem = p.add(&root.mul(&root).scale(&rat(-1, 1)));
    let limit = p.t.len() + 2;
    let mut n = 0;
    while !rem.t.is_empty() {
        n += 1;
        if n > limit { return None; }
        let (m, c) = &rem.t[0];
        let qm = m.mul(&two_lead.0.inv());
        let qc = c / &two_lead.1;
        let t = Poly { t: vec![(qm, qc)] };
        // rem -= 2*root*t + t^2
        let upd = root.scale(&rat(2, 1)).mul(&t).add(&t.mul(&t));
        rem = rem.add(&upd.scale(&rat(-1, 1)));
        let nr = root.add(&t);
        if nr.t.len() != root.t.len() + 1 { return None; }
        root = nr;
    }
    Some(root)
}
impl Alg {
    pub fn find_atom_poly(&self, a: AtomId) -> Option<PolyId> {
        let fp = self.atoms[a as usize].fp;
        let want = Mono(vec![(a, 1)]);
        self.by_fp.get(&fp)?.iter().copied().find(|&q| {
            let p = &self.polys[q as usize].poly;
            p.t.len() == 1 && p.t[0].0 == want && p.t[0].1.is_one()
        })
    }
}
