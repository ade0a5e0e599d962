//! Relational part of the path domain: linear inequalities between monomials (closure by
//! variable elimination).  Used to discard paths whose order predicates contradict each other,
//! such as a < b, b < c, c < a.
use crate::alg::*;
use crate::dd::*;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{CheckedAdd, CheckedMul, One, Signed, ToPrimitive, Zero};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, PartialEq, Eq, Hash)]
struct Lin<T = BigInt> { c: Vec<(u32, T)>, k: T, strict: bool }

impl Dds {
    fn lin_of(&self, p: PolyId, ids: &mut Vec<Mono>, sign: i32, strict: bool) -> Option<Lin> {
        let pp = self.alg.poly(p);
        if pp.t.len() > 14 { return None; }
        let mut l = BigInt::one();
        for (_, r) in &pp.t { l = l.lcm(r.denom()); }
        if sign < 0 { l = -l; }
        let mut c: Vec<(u32, BigInt)> = vec![];
        let mut k = BigInt::zero();
        for (m, r) in &pp.t {
            let r = r.numer() * (&l / r.denom());
            if m.is_one() { k = r; continue; }
            let ix = match ids.iter().position(|x| x == m) { Some(i) => i, None => { ids.push(m.clone()); ids.len() - 1 } };
            c.push((ix as u32, r));
        }
        c.sort();
        Some(Lin { c, k, strict })
    }
    /// facts that follow by multiplying two facts, or by cancelling a factor of known sign
    pub fn derived(&mut self, path: &[(u32, usize)]) -> Vec<(PolyId, usize)> {
        let mut fs: Vec<(PolyId, usize)> = vec![];
        for &(v, j) in path { if let Var::Sign { p, .. } = self.vars[v as usize] { if self.alg.poly(p).t.len() <= 6 { fs.push((p, j)); } } }
        let mut out = vec![];
        if fs.len() < 2 || fs.len() > 12 { return out; }
        let sg = |a: usize, b: usize| if a == 1 || b == 1 { 1 } else if a == b { 2 } else { 0 };
        for i in 0..fs.len() {
            for k in 0..fs.len() {
                if i == k { continue; }
                let ((p, pj), (q, qj)) = (fs[i], fs[k]);
                if k > i && fs.len() <= 8 { let r = self.alg.mul(p, q); out.push((r, sg(pj, qj))); }
                if qj == 1 || self.alg.poly(q).t.len() < 2 { continue; }
                let (pp, qp) = (self.alg.poly(p), self.alg.poly(q));
                if pp.t.len() <= qp.t.len() { continue; }
                if let Some(r) = div_exact(&pp, &qp) { let r = self.reintern_pub(r); out.push((r, sg(pj, qj))); }
            }
        }
        out
    }
    /// ranges of the transcendental atoms among the monomials: |sin|, |cos| <= 1, arc functions against pi
    fn range_facts(&self, path: &[(u32, usize)], ids: &mut Vec<Mono>, cs: &mut Vec<Lin>) {
        let single = |m: &Mono| if m.0.len() == 1 && m.0[0].1 == 1 { Some(m.0[0].0) } else { None };
        let mut arcs: Vec<(u32, i128, i128, bool)> = vec![]; // a*pi + b*theta >(=) 0
        let mut cx: Option<PathCtx> = None;
        let n = ids.len();
        for i in 0..n {
            let Some(a) = single(&ids[i]) else { continue };
            let AtomKind::Fun(f, args) = &self.alg.atoms[a as usize].kind else { continue };
            let i = i as u32;
            match *f {
                "sin" | "cos" => for s in [1, -1] { cs.push(mk(vec![(i, s)], 1, false)); },
                "acos" => { cs.push(mk(vec![(i, 1)], 0, false)); arcs.push((i, 1, -1, false)); }
                "atan2" => {
                    let (y, x) = (args[0], args[1]);
                    let cx = cx.get_or_insert_with(|| { let mut c = PathCtx::default(); for _ in 0..2 { for &(v, j) in path { self.assume_sign(&mut c, v, j); } } c });
                    let (xr, yr) = (self.range_pub(x, cx), self.range_pub(y, cx));
                    if xr.0 > 0.0 || (xr.0 == 0.0 && xr.1) { arcs.push((i, 1, 2, true)); arcs.push((i, 1, -2, true)); }
                    else if xr.0 == 0.0 { arcs.push((i, 1, 2, false)); arcs.push((i, 1, -2, false)); }
                    else { arcs.push((i, 1, 1, false)); arcs.push((i, 1, -1, false)); }
                    if yr.0 >= 0.0 { cs.push(mk(vec![(i, 1)], 0, false)); }
                    if yr.2 <= 0.0 && (yr.2 < 0.0 || yr.3) { cs.push(mk(vec![(i, -1)], 0, true)); }
                    let m = yr.0.abs().max(yr.2.abs());
                    if xr.0 > 0.0 && m.is_finite() {
                        let b = m.atan2(xr.0) + 1e-9;
                        let k = (b * 1e6).ceil() as i128;
                        for s in [1, -1] { cs.push(mk(vec![(i, s * 1_000_000)], k, false)); }
                    }
                }
                _ => {}
            }
        }
        let pi = ids.iter().position(|m| single(m).map_or(false, |a| matches!(self.alg.atoms[a as usize].kind, AtomKind::Pi)));
        let pi = match pi {
            Some(p) => Some(p as u32),
            None if arcs.is_empty() => None,
            None => self.alg.pi_atom().map(|a| { ids.push(Mono(vec![(a, 1)])); ids.len() as u32 - 1 }),
        };
        let Some(pi) = pi else { return };
        cs.push(mk(vec![(pi, 100_000_000)], -314_159_265, true));
        cs.push(mk(vec![(pi, -100_000_000)], 314_159_266, true));
        for (i, a, b, strict) in arcs {
            let mut c = vec![(pi, a), (i, b)];
            c.sort();
            cs.push(mk(c, 0, strict));
        }
    }
    /// do the linear constraints among those connected with the last element of the path contradict each other?
    pub fn lin_contradiction(&self, path: &[(u32, usize)]) -> bool { self.lin_contra(path, &[]) }
    pub fn lin_contra(&self, path: &[(u32, usize)], more: &[(PolyId, usize)]) -> bool {
        let Some(&(lv, lj)) = path.last() else { return false };
        let Var::Sign { p: lp, .. } = self.vars[lv as usize] else { return false };
        self.lin_from((lp, lj), &path[..path.len() - 1], more, path)
    }
    /// the constraints connected with `start` among the others
    pub fn lin_from(&self, (lp, lj): (PolyId, usize), others: &[(u32, usize)], more: &[(PolyId, usize)], path: &[(u32, usize)]) -> bool {
        let mut ids: Vec<Mono> = vec![];
        let mut todo: Vec<(PolyId, usize)> = vec![];
        for &(v, j) in others {
            if let Var::Sign { p, .. } = self.vars[v as usize] { if self.alg.poly(p).t.len() <= 14 { todo.push((p, j)); } }
        }
        let mut facts: Vec<PolyId> = self.nonneg_facts().filter(|p| self.alg.poly(*p).t.len() <= 14).collect();
        facts.sort();
        for p in facts { todo.push((p, 3)); }
        for &(p, j) in more { if self.alg.poly(p).t.len() <= 14 { todo.push((p, j)); } }
        if todo.is_empty() { return false; }
        let mut cur: Vec<(PolyId, usize)> = vec![(lp, lj)];
        let mut monos: Vec<Mono> = self.alg.poly(lp).t.iter().filter(|x| !x.0.is_one()).map(|x| x.0.clone()).collect();
        if monos.len() > 14 { return false; }
        loop {
            let mut moved = false;
            let mut i = 0;
            while i < todo.len() {
                let pp = self.alg.poly(todo[i].0);
                if pp.t.iter().any(|x| monos.contains(&x.0)) {
                    for x in &pp.t { if !x.0.is_one() && !monos.contains(&x.0) { monos.push(x.0.clone()); } }
                    cur.push(todo.swap_remove(i));
                    moved = true;
                } else { i += 1; }
            }
            if !moved { break; }
        }
        if cur.len() < 2 || cur.len() > 40 || monos.len() > 24 { return false; }
        let mut cs: Vec<Lin> = vec![];

        for (p, j) in cur {
            match j {
                0 => cs.extend(self.lin_of(p, &mut ids, -1, true)),
                2 => cs.extend(self.lin_of(p, &mut ids, 1, true)),
                3 => cs.extend(self.lin_of(p, &mut ids, 1, false)),
                _ => { cs.extend(self.lin_of(p, &mut ids, 1, false)); cs.extend(self.lin_of(p, &mut ids, -1, false)); }
            }
        }
        self.range_facts(path, &mut ids, &mut cs);
        for (i, m) in ids.iter().enumerate() {
            if self.mono_nonneg_pub(m) {
                cs.push(mk(vec![(i as u32, 1)], 0, false));
            }
        }
        let small: Option<Vec<Lin<i128>>> = cs.iter().map(|l| Some(Lin { c: l.c.iter().map(|x| Some((x.0, x.1.to_i128()?))).collect::<Option<_>>()?, k: l.k.to_i128()?, strict: l.strict })).collect();
        if let Some(v) = small {
            let mut over = false;
            if fm(v.into_iter().map(norm).collect(), &mut over) { return true; }
            if !over { return false; }
        }
        let mut over = false;
        fm(cs.into_iter().map(norm).collect(), &mut over)
    }
}

fn mk(c: Vec<(u32, i128)>, k: i128, strict: bool) -> Lin { Lin { c: c.into_iter().map(|x| (x.0, BigInt::from(x.1))).collect(), k: BigInt::from(k), strict } }
trait Int: Clone + Ord + std::hash::Hash + Integer + Signed + CheckedAdd + CheckedMul + std::ops::DivAssign {}
impl Int for i128 {}
impl Int for BigInt {}
fn norm<T: Int>(mut l: Lin<T>) -> Lin<T> {
    let mut g = l.c.iter().fold(T::zero(), |g, x| g.gcd(&x.1));
    g = g.gcd(&l.k);
    if g > T::one() { for x in l.c.iter_mut() { x.1 /= g.clone(); } l.k /= g; }
    l
}
/// true if the constraints (each: sum + k > or >= 0) are contradictory
fn fm<T: Int>(mut cs: Vec<Lin<T>>, over: &mut bool) -> bool {
    let mut work = 0usize;
    loop {
        // keep the tightest constraint per direction
        let mut best: HashMap<Vec<(u32, T)>, usize> = HashMap::new();
        let mut out: Vec<Lin<T>> = vec![];
        for l in cs {
            if l.c.is_empty() {
                if l.k.is_negative() || (l.strict && l.k.is_zero()) { return true; }
                continue;
            }
            match best.get(&l.c) {
                Some(&i) => { let o = &mut out[i]; if l.k < o.k || (l.k == o.k && l.strict) { *o = l; } }
                None => { best.insert(l.c.clone(), out.len()); out.push(l); }
            }
        }
        cs = out;
        if cs.is_empty() { return false; }
        let mut cnt: BTreeMap<u32, (usize, usize)> = BTreeMap::new();
        for l in &cs { for (v, a) in &l.c { let e = cnt.entry(*v).or_default(); if a.is_positive() { e.0 += 1 } else { e.1 += 1 } } }
        let (&v, &(a, b)) = cnt.iter().min_by_key(|(_, (a, b))| a * b).unwrap();
        work += a * b;
        if work > 3000 { return false; }
        let (mut pos, mut neg, mut rest) = (vec![], vec![], vec![]);
        for l in cs {
            let c = l.c.iter().find(|x| x.0 == v).map(|x| x.1.clone());
            match c { None => rest.push(l), Some(x) if x.is_positive() => pos.push((x, l)), Some(x) => neg.push((-x, l)) }
        }
        for (cp, p) in &pos {
            for (cn, n) in &neg {
                let Some(l) = combine(p, cn, n, cp, v) else { *over = true; continue };
                rest.push(norm(l));
            }
        }
        cs = rest;
    }
}
fn combine<T: Int>(p: &Lin<T>, x: &T, n: &Lin<T>, y: &T, v: u32) -> Option<Lin<T>> {
    let mut c = vec![];
    let (mut i, mut j) = (0, 0);
    while i < p.c.len() || j < n.c.len() {
        let a = p.c.get(i).map(|q| q.0).unwrap_or(u32::MAX);
        let b = n.c.get(j).map(|q| q.0).unwrap_or(u32::MAX);
        let id = a.min(b);
        let mut s = T::zero();
        if a == id { s = p.c[i].1.checked_mul(x)?; i += 1; }
        if b == id { s = s.checked_add(&n.c[j].1.checked_mul(y)?)?; j += 1; }
        if !s.is_zero() { if id == v { return None; } c.push((id, s)); }
    }
    Some(Lin { c, k: p.k.checked_mul(x)?.checked_add(&n.k.checked_mul(y)?)?, strict: p.strict || n.strict })
}
