//! Rounding errors, propagated statically. While the trace mode is on every computed float is a node that remembers the
//! operation and the operands it came from beside its exact value; the error of a node follows from the ranges of the
//! exact values and the errors of its operands, to first order in the unit roundoff u and in multiples of it.
use crate::alg::*;
use crate::dd::*;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::HashMap;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct TrNode { pub op: &'static str, pub a: u32, pub b: u32, pub k: i64, pub p: PolyId }
#[derive(Default)]
pub struct Trace { pub on: bool, pub nodes: Vec<TrNode>, ix: HashMap<TrNode, u32> }
const NONE: u32 = u32::MAX;

/// absolute and relative error in units of u, range of the exact value
#[derive(Clone, Copy, Debug)]
pub struct Err { pub e: f64, pub r: f64, pub lo: f64, pub hi: f64 }
impl Err {
    fn max(&self) -> f64 { self.lo.abs().max(self.hi.abs()) }
    fn min(&self) -> f64 { if self.lo > 0.0 { self.lo } else if self.hi < 0.0 { -self.hi } else { 0.0 } }
}
/// 0 * inf = 0
fn x(a: f64, b: f64) -> f64 { if a == 0.0 || b == 0.0 { 0.0 } else { a * b } }
fn over(a: f64, b: f64) -> f64 { if a == 0.0 { 0.0 } else if b == 0.0 { f64::INFINITY } else { a / b } }

impl Trace {
    pub fn node(&mut self, n: TrNode) -> u32 {
        if let Some(&i) = self.ix.get(&n) { return i; }
        let i = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.ix.insert(n, i);
        i
    }
}
/// is the constant a float of the width being analysed?
fn representable(c: &Rat) -> bool {
    let bits = if narrow() { 24 } else { 53 };
    if c.is_zero() { return true; }
    let d = c.denom();
    let tz = d.trailing_zeros().unwrap_or(0);
    if (d >> tz) != num_bigint::BigInt::one() { return false; }
    let n = c.numer().abs();
    let z = n.trailing_zeros().unwrap_or(0);
    n.bits() - z <= bits
}
fn power_of_two(c: &Rat) -> bool {
    let pow = |n: &num_bigint::BigInt| n.is_positive() && n.bits() - 1 == n.trailing_zeros().unwrap_or(0);
    pow(&c.numer().abs()) && pow(c.denom())
}
pub fn narrow() -> bool { std::env::var("SM_WIDTH").map_or(false, |w| w == "32") }

impl Dds {
    pub fn tr_of(&mut self, l: &Leaf) -> Option<(PolyId, u32)> {
        match l {
            Leaf::Tr(t) => Some((self.tr.nodes[*t as usize].p, *t)),
            Leaf::Num(p) => Some((*p, self.tr.node(TrNode { op: "in", a: NONE, b: NONE, k: 0, p: *p }))),
            _ => None,
        }
    }
    /// wrap the results of an operation
    pub fn tr_wrap(&mut self, op: &'static str, a: u32, b: u32, k: i64, exact: bool, r: Dd) -> Dd {
        self.map1(r, &mut |d, l| match l {
            Leaf::Num(p) => {
                // arithmetic on exact constants
                if exact && d.alg.as_const(*p).map_or(false, |c| representable(&c)) { return d.num(*p); }
                // a selected operand keeps its own history
                let same = |t: u32| t != NONE && d.tr.nodes[t as usize].p == *p;
                let t = if matches!(op, "fmin" | "fmax" | "fabs") && same(a) { a } else if matches!(op, "fmin" | "fmax") && same(b) { b } else { d.tr.node(TrNode { op, a, b, k, p: *p }) };
                d.leaf(Leaf::Tr(t))
            }
            l => d.leaf(l.clone()),
        })
    }
    pub fn tr_exact_const(&self, l: &Leaf) -> bool { matches!(l, Leaf::Num(p) if self.alg.as_const(*p).map_or(false, |c| representable(&c))) }
    fn tr_input(&self, p: PolyId) -> (f64, f64) {
        if let Some(c) = self.alg.as_const(p) { return if representable(&c) { (0.0, 0.0) } else { (f64::INFINITY, 1.0) }; }
        let pp = self.alg.poly(p);
        let konst = pp.t.iter().all(|(m, _)| m.0.iter().all(|&(a, _)| match &self.alg.atoms[a as usize].kind { AtomKind::Pi => true, AtomKind::Sqrt(q) => self.alg.as_const(*q).is_some(), _ => false }));
        if konst { return (f64::INFINITY, 1.0); }
        if pp.t.len() == 1 && pp.t[0].0 .0.len() == 1 && pp.t[0].0 .0[0].1 == 1 && power_of_two(&pp.t[0].1) && matches!(self.alg.atoms[pp.t[0].0 .0[0].0 as usize].kind, AtomKind::Input(_)) { return (0.0, 0.0); }
        (f64::INFINITY, f64::INFINITY)
    }
    pub fn tr_eval(&mut self, t: u32, cx: &PathCtx, memo: &mut HashMap<u32, Err>) -> Err {
        if let Some(e) = memo.get(&t) { return *e; }
        // children first, without recursion on deep chains
        let mut stack = vec![t];
        while let Some(&n) = stack.last() {
            if memo.contains_key(&n) { stack.pop(); continue; }
            let nd = &self.tr.nodes[n as usize];
            let todo: Vec<u32> = [nd.a, nd.b].into_iter().filter(|c| *c != NONE && !memo.contains_key(c)).collect();
            if todo.is_empty() { let e = self.tr_step(n, cx, memo); memo.insert(n, e); stack.pop(); } else { stack.extend(todo); }
        }
        memo[&t]
    }
    fn tr_step(&mut self, t: u32, cx: &PathCtx, memo: &HashMap<u32, Err>) -> Err {
        let nd = self.tr.nodes[t as usize].clone();
        let nil = Err { e: 0.0, r: 0.0, lo: 0.0, hi: 0.0 };
        let a = if nd.a != NONE { memo[&nd.a] } else { nil };
        let b = if nd.b != NONE { memo[&nd.b] } else { nil };
        let inf = f64::INFINITY;
        // range of the exact value
        let (mut lo, mut hi) = if self.alg.poly(nd.p).t.len() <= 200 { self.range_lin(nd.p, cx) } else { (-inf, inf) };
        let mut meet = |l: f64, h: f64| { if l.is_finite() && l > lo { lo = l; } if h.is_finite() && h < hi { hi = h; } };
        let ka = (nd.a != NONE).then(|| self.alg.as_const(self.tr.nodes[nd.a as usize].p)).flatten().filter(|_| a.e == 0.0);
        let kb = (nd.b != NONE).then(|| self.alg.as_const(self.tr.nodes[nd.b as usize].p)).flatten().filter(|_| b.e == 0.0);
        match nd.op {
            "fadd" => meet(a.lo + b.lo, a.hi + b.hi),
            "fsub" => meet(a.lo - b.hi, a.hi - b.lo),
            "fmul" => {
                let c = [x(a.lo, b.lo), x(a.lo, b.hi), x(a.hi, b.lo), x(a.hi, b.hi)];
                meet(c.iter().fold(inf, |m, v| m.min(*v)), c.iter().fold(-inf, |m, v| m.max(*v)));
                if nd.a == nd.b { meet(a.min() * a.min(), inf); }
            }
            "fdiv" if b.min() > 0.0 => {
                let c = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi];
                if c.iter().all(|v| !v.is_nan()) { meet(c.iter().fold(inf, |m, v| m.min(*v)), c.iter().fold(-inf, |m, v| m.max(*v))); }
            }
            "sqrt" => meet(a.lo.max(0.0).sqrt(), a.hi.max(0.0).sqrt()),
            "fneg" => meet(-a.hi, -a.lo),
            "fabs" => meet(a.min(), a.max()),
            "exp" => meet(a.lo.exp(), a.hi.exp()),
            "ln" => meet(a.lo.max(0.0).ln(), a.hi.max(0.0).ln()),
            "sin" | "cos" => meet(-1.0, 1.0),
            "acos" => meet(a.hi.clamp(-1.0, 1.0).acos(), a.lo.clamp(-1.0, 1.0).acos()),
            "asin" => meet(a.lo.clamp(-1.0, 1.0).asin(), a.hi.clamp(-1.0, 1.0).asin()),
            "atan2" if b.lo > 0.0 => {
                let c = [a.lo.atan2(b.lo), a.lo.atan2(b.hi), a.hi.atan2(b.lo), a.hi.atan2(b.hi)];
                meet(c.iter().fold(inf, |m, v| m.min(*v)), c.iter().fold(-inf, |m, v| m.max(*v)));
            }
            "atan2" => {
                let pi = std::f64::consts::PI;
                meet(if a.lo >= 0.0 { 0.0 } else { -pi }, if a.lo >= 0.0 && b.lo >= 0.0 { pi / 2.0 } else { pi });
            }
            "fmin" => meet(a.lo.min(b.lo), a.hi.min(b.hi)),
            "fmax" => meet(a.lo.max(b.lo), a.hi.max(b.hi)),
            "powi" => {
                let k = nd.k as i32;
                if k % 2 == 0 { let (l, h) = (a.min().powi(k), a.max().powi(k)); meet(l.min(h), l.max(h)); }
                else if k > 0 || a.min() > 0.0 { let (l, h) = (a.lo.powi(k), a.hi.powi(k)); meet(l.min(h), l.max(h)); }
            }
            _ => {}
        }
        if lo > hi { let m = (lo + hi) / 2.0; lo = m; hi = m; }
        let (e, r);
        let v = Err { e: 0.0, r: 0.0, lo, hi };
        let m = v.max();
        let zero = |c: &Option<Rat>| c.as_ref().map_or(false, |c| c.is_zero());
        let p2 = |c: &Option<Rat>| c.as_ref().map_or(false, |c| power_of_two(c));
        match nd.op {
            "in" => { let (ie, ir) = self.tr_input(nd.p); e = ie; r = ir; }
            "fadd" | "fsub" if zero(&ka) || zero(&kb) => { e = a.e + b.e; r = if zero(&ka) { b.r } else { a.r }; }
            "fsub" if nd.a == nd.b => { e = 0.0; r = 0.0; }
            "fadd" | "fsub" => {
                e = a.e + b.e + m;
                let s = if nd.op == "fadd" { (b.lo, b.hi) } else { (-b.hi, -b.lo) };
                r = if (a.lo >= 0.0 && s.0 >= 0.0) || (a.hi <= 0.0 && s.1 <= 0.0) || nd.a == nd.b { a.r.max(b.r) + 1.0 } else { inf };
            }
            "fmul" if zero(&ka) || zero(&kb) => { e = 0.0; r = 0.0; }
            "fmul" if p2(&ka) || p2(&kb) => { let (k, o) = if p2(&ka) { (&a, &b) } else { (&b, &a) }; e = x(k.max(), o.e); r = o.r; }
            "fmul" => { e = x(a.max(), b.e) + x(b.max(), a.e) + m; r = a.r + b.r + 1.0; }
            "fdiv" if zero(&ka) => { e = 0.0; r = 0.0; }
            "fdiv" if p2(&kb) => { e = over(a.e, b.max()); r = a.r; }
            "fdiv" => {
                let mb = b.min();
                e = over(a.e, mb) + over(x(a.max(), b.e), mb * mb) + m;
                r = a.r + b.r + 1.0;
            }
            "fneg" | "fabs" => { e = a.e; r = a.r; }
            "fmin" | "fmax" => { e = a.e.max(b.e); r = a.r.max(b.r); }
            "signum" => { e = 0.0; r = 0.0; }
            "sqrt" => {
                e = over(a.e, 2.0 * a.min().sqrt().max(v.min())) + m;
                r = a.r / 2.0 + 1.0;
            }
            "sin" => { e = a.e + 2.0 * m; r = if a.max() <= 1.5707964 { a.r + 2.0 } else { inf }; }
            "cos" => { e = a.e + 2.0 * m; r = inf; }
            "tan" => {
                let mb = b.min();
                e = over(a.e, mb) + over(x(a.max(), b.e), mb * mb) + m;
                r = a.r + b.r + 1.0;
            }
            "acos" | "asin" => {
                let q = 1.0 - a.max() * a.max();
                e = over(a.e, q.max(0.0).sqrt()) + 2.0 * m;
                r = inf;
            }
            "atan2" => {
                let mut d = a.min() * a.min() + b.min() * b.min();
                if d == 0.0 {
                    // not both small
                    let (p, q) = (self.tr.nodes[nd.a as usize].p, self.tr.nodes[nd.b as usize].p);
                    let (p2, q2) = (self.alg.mul(p, p), self.alg.mul(q, q));
                    let n = self.alg.add(p2, q2);
                    d = self.range_pub(n, cx).0.max(0.0);
                }
                e = over(x(a.max(), b.e) + x(b.max(), a.e), d).min((a.r + b.r) / 2.0) + 2.0 * m;
                // an angle below a right angle: its relative error is at most that of the quotient
                r = if b.lo >= 0.0 { a.r + b.r + 2.0 } else { inf };
            }
            "exp" => { r = a.e + 2.0; e = inf; }
            "ln" => { e = a.r.min(over(a.e, a.min())) + 2.0 * m; r = inf; }
            "cbrt" => { r = a.r / 3.0 + 2.0; e = inf; }
            "powi" => { let n = nd.k.unsigned_abs() as f64; r = if n == 0.0 { 0.0 } else { n * a.r + n - 1.0 + (nd.k < 0) as u8 as f64 }; e = if nd.k > 0 && m.is_finite() { n * x(a.max().powi(nd.k as i32 - 1), a.e) + (n - 1.0) * a.max().powi(nd.k as i32) } else { inf }; }
            "powf" => { r = match &kb { Some(c) => rat_f64(&c.abs()) * a.r + 2.0, None => inf }; e = inf; }
            "round32" => { let u = if narrow() { 1.0 } else { 536870912.0 }; e = a.e + x(u, m); r = a.r + u; }
            _ => { e = inf; r = inf; }
        }
        // either bound gives the other
        let e2 = e.min(x(r, m));
        let r2 = r.min(over(e, v.min()));
        Err { e: if e2.is_nan() { inf } else { e2 }, r: if r2.is_nan() { inf } else { r2 }, lo, hi }
    }
    pub fn tr_show(&self, t: u32) -> &'static str { self.tr.nodes[t as usize].op }
}
#[allow(dead_code)]
fn _u(n: &num_bigint::BigInt) -> bool { n.is_even() && n.to_i64().is_some() }
