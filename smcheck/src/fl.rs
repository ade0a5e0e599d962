//! Transfer functions of floating-point operations on gated values (exact real semantics).
use crate::alg::*;
use crate::dd::*;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};

impl Dds {
    fn n2(&mut self, name: &'static str, a: Dd, b: Dd, f: &mut dyn FnMut(&mut Dds, PolyId, PolyId) -> Dd) -> Dd {
        if let Some(top) = self.opaque {
            // every computed float is an unknown value, the same for the same operation on the same operands
            return self.map2(a, b, &mut |d, x, y| match (x, y) {
                (Leaf::Num(p), Leaf::Num(q)) => {
                    let plain = d.alg.as_const(*p).is_some() && d.alg.as_const(*q).map_or(false, |c| name != "fdiv" || !c.is_zero());
                    if plain && !matches!(name, "powf" | "rem") || matches!(name, "fmin" | "fmax") && d.finite(*p) && d.finite(*q) { return f(d, *p, *q); }
                    if d.forget { return top; }
                    let (p, q) = if matches!(name, "fadd" | "fmul") && p > q { (*q, *p) } else { (*p, *q) };
                    let r = d.alg.fun(name, vec![p, q]);
                    d.computed.insert(r);
                    let (ordered, nonneg) = match name {
                        "fadd" => (d.ordered(p) && d.finite(q) || d.finite(p) && d.ordered(q) || d.nonneg(p) && d.nonneg(q), d.nonneg(p) && d.nonneg(q)),
                        "fsub" => (d.ordered(p) && d.finite(q) || d.finite(p) && d.ordered(q), false),
                        "fmul" => {
                            let scaled = |d: &mut Dds, p: PolyId, q: PolyId| d.ordered(p) && d.alg.as_const(q).map_or(false, |c| !c.is_zero());
                            (p == q && d.ordered(p) || d.finite(p) && d.finite(q) || scaled(d, p, q) || scaled(d, q, p),
                             p == q && d.ordered(p) || scaled(d, p, q) && d.nonneg(p) && d.nonneg(q) || scaled(d, q, p) && d.nonneg(p) && d.nonneg(q))
                        }
                        "fdiv" => { let k = d.alg.as_const(q).map_or(false, |c| !c.is_zero()); (k && d.ordered(p), k && d.nonneg(p) && d.nonneg(q)) }
                        "fmax" => (d.ordered(p) && d.ordered(q), d.ordered(p) && d.ordered(q) && (d.nonneg(p) || d.nonneg(q))),
                        "fmin" => (d.ordered(p) && d.ordered(q), d.nonneg(p) && d.nonneg(q)),
                        _ => (false, false),
                    };
                    d.note(r, ordered, nonneg);
                    d.num(r)
                }
                _ => top,
            });
        }
        if self.tr.on {
            return self.op2(name, 1, a, b, &mut |d, x, y| {
                let (Some((p, s)), Some((q, t))) = (d.tr_of(x), d.tr_of(y)) else { return UNDEF };
                let exact = d.tr_exact_const(x) && d.tr_exact_const(y);
                d.tr.on = false;
                let r = f(d, p, q);
                d.tr.on = true;
                d.tr_wrap(name, s, t, 0, exact, r)
            });
        }
        self.op2(name, 0, a, b, &mut |d, x, y| match (x, y) {
            (Leaf::Num(p), Leaf::Num(q)) => f(d, *p, *q),
            _ => UNDEF,
        })
    }
    /// in the any-value mode: a value known to be finite (an input, a constant, or one of these negated)
    fn finite(&mut self, p: PolyId) -> bool {
        let i = self.alg.inf();
        let n = self.alg.neg(i);
        p != i && p != n && !self.computed.contains(&p) && self.opaque.map_or(true, |t| self.get(t) != Some(&Leaf::Num(p)))
    }
    /// in the any-value mode: never NaN
    fn ordered(&mut self, p: PolyId) -> bool { self.ordered_set.contains(&p) || self.finite(p) }
    /// in the any-value mode: never NaN and not negative
    fn nonneg(&mut self, p: PolyId) -> bool { self.nonneg_set.contains(&p) || self.alg.as_const(p).map_or(false, |c| !c.is_negative()) }
    fn note(&mut self, r: PolyId, ordered: bool, nonneg: bool) {
        if ordered || nonneg { self.ordered_set.insert(r); }
        if nonneg { self.nonneg_set.insert(r); }
    }
    fn nan(&mut self, p: PolyId) -> Dd { if self.ordered(p) { FALSE } else { self.bool_var(&format!("v{p} NaN")) } }
    /// from here on every computed float may be any value, NaN and infinities included
    pub fn set_opaque(&mut self, forget: bool) {
        self.forget = forget;
        let p = self.alg.input("any value");
        self.opaque = Some(self.num(p));
    }
    fn any_bool(&mut self) -> Dd {
        self.any_n += 1;
        let n = format!("comparison{}", self.any_n);
        self.bool_var(&n)
    }
    fn n1(&mut self, name: &'static str, a: Dd, f: &mut dyn FnMut(&mut Dds, PolyId) -> Dd) -> Dd {
        if let Some(top) = self.opaque {
            return self.map1(a, &mut |d, x| match x {
                Leaf::Num(p) if name == "fneg" => { if d.forget && !d.finite(*p) { return top; } let r = d.alg.neg(*p); if !d.finite(*p) { d.computed.insert(r); let o = d.ordered(*p); d.note(r, o, false); } d.num(r) }
                Leaf::Num(p) if name == "sqrt" && d.alg.as_const(*p).map_or(false, |c| !c.is_negative()) => f(d, *p),
                Leaf::Num(p) if name == "fabs" && d.alg.as_const(*p).is_some() => f(d, *p),
                Leaf::Num(p) => {
                    let known = name == "fabs" && d.finite(*p);
                    if d.forget && !known { return top; }
                    let r = d.alg.fun(name, vec![*p]);
                    if !known { d.computed.insert(r); }
                    let (o, n) = (d.ordered(*p), d.nonneg(*p));
                    match name {
                        "fabs" | "exp" if o => d.note(r, true, true),
                        "sqrt" if n => d.note(r, true, true),
                        "sin" | "cos" if d.finite(*p) => d.note(r, true, false),
                        _ => {}
                    }
                    d.num(r)
                }
                _ => top,
            });
        }
        if self.tr.on {
            return self.op1(name, 1, a, &mut |d, x| {
                let Some((p, s)) = d.tr_of(x) else { return UNDEF };
                let exact = d.tr_exact_const(x) && !matches!(name, "round32");
                d.tr.on = false;
                let r = f(d, p);
                d.tr.on = true;
                d.tr_wrap(name, s, u32::MAX, 0, exact, r)
            });
        }
        self.op1(name, 0, a, &mut |d, x| match x { Leaf::Num(p) => f(d, *p), _ => UNDEF })
    }
    pub fn f_const(&mut self, r: Rat) -> Dd { let p = self.alg.konst(r); self.num(p) }
    pub fn f_add(&mut self, a: Dd, b: Dd) -> Dd { self.n2("fadd", a, b, &mut |d, p, q| { let r = d.alg.add(p, q); d.num(r) }) }
    pub fn f_sub(&mut self, a: Dd, b: Dd) -> Dd { self.n2("fsub", a, b, &mut |d, p, q| { let r = d.alg.sub(p, q); d.num(r) }) }
    pub fn f_mul(&mut self, a: Dd, b: Dd) -> Dd {
        self.n2("fmul", a, b, &mut |d, p, q| {
            // zero times infinity is no number
            if d.poison && ((p == ZERO && d.infinite(q)) || (q == ZERO && d.infinite(p))) { return UNDEF; }
            let r = d.alg.mul(p, q);
            d.num(r)
        })
    }
    fn infinite(&self, p: PolyId) -> bool {
        self.alg.polys[p as usize].poly.t.iter().any(|(m, _)| m.0.iter().any(|&(a, e)| e > 0 && matches!(self.alg.atoms[a as usize].kind, AtomKind::Inf | AtomKind::Div0)))
    }
    pub fn f_div(&mut self, a: Dd, b: Dd) -> Dd { self.n2("fdiv", a, b, &mut |d, p, q| { let r = d.alg.div(p, q); d.num(r) }) }
    pub fn f_neg(&mut self, a: Dd) -> Dd { self.n1("fneg", a, &mut |d, p| { let r = d.alg.neg(p); d.num(r) }) }
    pub fn f_abs(&mut self, a: Dd) -> Dd { self.n1("fabs", a, &mut |d, p| d.p_abs(p)) }
    fn p_abs(&mut self, p: PolyId) -> Dd {
        let n = self.alg.neg(p);
        let (x, y, z) = (self.num(n), self.num(ZERO), self.num(p));
        self.sign_select(p, x, y, z)
    }
    /// comparison: result boolean for a-b negative / zero / positive
    pub fn f_cmp(&mut self, name: &'static str, a: Dd, b: Dd, neg: bool, zero: bool, pos: bool) -> Dd {
        if self.opaque.is_some() {
            let any = if self.forget { self.any_bool() } else { FALSE };
            return self.map2(a, b, &mut |d, l, m| match (l, m) {
                (Leaf::Num(p), Leaf::Num(q)) if d.finite(*p) && d.finite(*q) => {
                    let r = d.alg.sub(*p, *q);
                    let (x, y, z) = (d.boolean(neg), d.boolean(zero), d.boolean(pos));
                    d.sign_select(r, x, y, z)
                }
                (Leaf::Num(p), Leaf::Num(q)) if !d.forget => {
                    // unordered, or one of less / equal / greater; != holds when unordered
                    let (p, q, neg, pos) = if p > q { (*q, *p, pos, neg) } else { (*p, *q, neg, pos) };
                    let (u, w) = (d.nan(p), d.nan(q));
                    let u = d.or(u, w);
                    let is = |d: &mut Dds, p: PolyId, strict: bool| d.alg.as_const(p).map_or(false, |c| c.is_negative() || !strict && c.is_zero());
                    // which of the three a known sign leaves
                    let not_lt = p == q || d.nonneg(p) && is(d, q, false);
                    let not_gt = p == q || d.nonneg(q) && is(d, p, false);
                    let not_eq = p != q && (d.nonneg(p) && is(d, q, true) || d.nonneg(q) && is(d, p, true));
                    let l = if not_lt { FALSE } else if not_gt && not_eq { TRUE } else { d.bool_var(&format!("v{p} < v{q}")) };
                    let e = if not_eq { FALSE } else if not_gt { TRUE } else { d.bool_var(&format!("v{p} == v{q}")) };
                    let (nu, nl, ne) = (d.not(u), d.not(l), d.not(e));
                    let lt = d.and(nu, l);
                    let o = d.and(nu, nl);
                    let eq = d.and(o, e);
                    let gt = d.and(o, ne);
                    if neg && pos { return d.not(eq); }
                    let mut r = FALSE;
                    if neg { r = d.or(r, lt); }
                    if zero { r = d.or(r, eq); }
                    if pos { r = d.or(r, gt); }
                    r
                }
                _ => any,
            });
        }
        self.n2(name, a, b, &mut |d, p, q| {
            let r = d.alg.sub(p, q);
            let (x, y, z) = (d.boolean(neg), d.boolean(zero), d.boolean(pos));
            d.sign_select(r, x, y, z)
        })
    }
    /// is the value, as a divisor, zero? One that has itself a vanishing divisor is infinite
    pub fn f_vanishes(&mut self, a: Dd) -> Dd {
        self.n1("vanishes", a, &mut |d, p| {
            let (t, f) = (d.boolean(true), d.boolean(false));
            let mut r = d.sign_select(p, f, t, f);
            if r == f { return r; }
            let pp = d.alg.polys[p as usize].poly.clone();
            let mut dens: Vec<_> = pp.t.iter().flat_map(|(m, _)| m.0.iter().filter(|x| x.1 < 0).map(|x| x.0)).collect();
            dens.sort();
            dens.dedup();
            for at in dens {
                let q = match d.alg.atoms[at as usize].kind { AtomKind::Den(q) => q, _ => d.alg.atom_poly(at) };
                // the square of a cosine is written by the sine
                let m = d.alg.neg(q);
                let cos = d.alg.atoms.iter().position(|x| x.sq.is_some_and(|s| s == q || s == m) && matches!(x.kind, AtomKind::Fun("cos", _)));
                let q = cos.map_or(q, |i| d.alg.atom_poly(i as u32));
                r = d.sign_select(q, r, f, r);
            }
            r
        })
    }
    /// is the value negative? 1 - r^2 is, exactly when r lies beyond one
    pub fn f_negative(&mut self, a: Dd) -> Dd {
        self.n1("negative", a, &mut |d, p| {
            let (t, f) = (d.boolean(true), d.boolean(false));
            let m = d.alg.neg(p);
            let w = d.alg.add(m, ONE);
            if d.alg.as_const(p).is_none() {
                if let Some(r) = d.alg.perfect_sqrt(w) {
                    let lo = d.alg.add(r, ONE);
                    let m = d.alg.neg(r);
                    let hi = d.alg.add(m, ONE);
                    let (x, y) = (d.sign_select(lo, t, f, f), d.sign_select(hi, t, f, f));
                    return d.or(x, y);
                }
            }
            d.sign_select(p, t, f, f)
        })
    }
    pub fn f_min(&mut self, a: Dd, b: Dd) -> Dd {
        self.n2("fmin", a, b, &mut |d, p, q| { let r = d.alg.sub(p, q); let (x, y) = (d.num(p), d.num(q)); d.sign_select(r, x, x, y) })
    }
    pub fn f_max(&mut self, a: Dd, b: Dd) -> Dd {
        self.n2("fmax", a, b, &mut |d, p, q| { let r = d.alg.sub(p, q); let (x, y) = (d.num(p), d.num(q)); d.sign_select(r, y, y, x) })
    }
    pub fn f_signum(&mut self, a: Dd) -> Dd {
        self.n1("signum", a, &mut |d, p| { let (m, o) = (d.f_const(rat(-1, 1)), d.num(ONE)); d.sign_select(p, m, o, o) })
    }
    pub fn f_is(&mut self, a: Dd, nan: bool) -> Dd {
        if self.opaque.is_none() { return FALSE; }
        if nan { return self.f_cmp("fne", a, a, true, false, true); }
        let any = self.any_bool();
        self.map1(a, &mut |d, l| match l { Leaf::Num(p) if d.finite(*p) => FALSE, Leaf::Num(p) if !d.forget => d.bool_var(&format!("v{p} not finite")), _ => any })
    }
    pub fn f_copysign(&mut self, a: Dd, b: Dd) -> Dd {
        let x = self.f_abs(a);
        let y = self.f_signum(b);
        self.f_mul(x, y)
    }
    pub fn f_powi(&mut self, a: Dd, n: i64) -> Dd {
        if let Some(top) = self.opaque {
            return self.map1(a, &mut |d, x| match x { Leaf::Num(p) if !d.forget => { let k = d.alg.int(n); let r = d.alg.fun("powi", vec![*p, k]); d.computed.insert(r); let o = n > 0 && d.ordered(*p); d.note(r, o, o && n % 2 == 0); d.num(r) } _ => top });
        }
        if self.tr.on {
            return self.op1("trpowi", n as u64, a, &mut |d, x| {
                let Some((p, s)) = d.tr_of(x) else { return UNDEF };
                let exact = d.tr_exact_const(x);
                let r = d.alg.powi(p, n);
                let r = d.num(r);
                d.tr_wrap("powi", s, u32::MAX, n, exact, r)
            });
        }
        self.op1("powi", n as u64, a, &mut |d, x| match x {
            Leaf::Num(p) => { let r = d.alg.powi(*p, n); d.num(r) }
            _ => UNDEF,
        })
    }
    pub fn f_sqrt(&mut self, a: Dd) -> Dd { self.n1("sqrt", a, &mut |d, p| d.p_sqrt(p)) }

    fn sqrt_atom(&mut self, w: PolyId) -> PolyId {
        if w == ONE { return ONE; }
        let a = self.alg.atom(AtomKind::Sqrt(w));
        self.alg.atom_poly(a)
    }
    fn p_sqrt(&mut self, p: PolyId) -> Dd {
        if p == ZERO { return self.num(ZERO); }
        if let Some(r) = self.alg.perfect_sqrt(p) { return self.p_abs(r); }
        if let Some(c) = self.alg.as_const(p) {
            if c.is_negative() { return UNDEF; }
            let (o, i) = sqfree(&c);
            let w = self.alg.konst(i);
            let s = self.sqrt_atom(w);
            let r = self.alg.scale(s, &o);
            return self.num(r);
        }
        let Some((n, dens)) = self.alg.num_den(p) else {
            let s = self.sqrt_atom(p);
            return self.num(s);
        };
        let mut np = (*self.alg.poly(n)).clone();
        if np.is_zero() { return self.num(ZERO); }
        // 1 - sin^2 is the square of the cosine (and the other way round)
        let mut legs = vec![];
        while let Some((q, x)) = self.alg.pythagorean(&np) { np = q; legs.push(x); }
        let (c, m, prim) = self.alg.primitive(&np);
        let (o, i) = sqfree(&c.abs());
        let mut outside = self.f_const(o);
        for x in legs { let x = self.p_abs(x); outside = self.f_mul(outside, x); }
        let mut w = self.alg.konst(if c.is_negative() { -i } else { i });
        for (a, e) in m.0 {
            let ap = self.alg.atom_poly(a);
            let odd = e.rem_euclid(2);
            let half = (e - odd) / 2;
            if odd == 1 { w = self.alg.mul(w, ap); }
            if half != 0 {
                let h = self.alg.powi(ap, half as i64);
                let x = self.p_abs(h);
                outside = self.f_mul(outside, x);
            }
        }
        let pp = self.reintern(prim);
        if let Some(r) = self.alg.perfect_sqrt(pp) {
            let x = self.p_abs(r);
            outside = self.f_mul(outside, x);
        } else {
            w = self.alg.mul(w, pp);
        }
        for (d, k) in dens {
            let odd = k % 2;
            let half = (k + odd) / 2;
            if odd == 1 { w = self.alg.mul(w, d); }
            let di = self.alg.inv(d);
            let h = self.alg.powi(di, half as i64);
            let x = self.p_abs(h);
            outside = self.f_mul(outside, x);
        }
        let s = self.sqrt_atom(w);
        let s = self.num(s);
        self.f_mul(outside, s)
    }
    fn reintern(&mut self, p: Poly) -> PolyId {
        let mut acc = ZERO;
        for (m, c) in p.t {
            let mut t = self.alg.konst(c);
            for (a, e) in m.0 {
                let ap = self.alg.atom_poly(a);
                let f = self.alg.powi(ap, e as i64);
                t = self.alg.mul(t, f);
            }
            acc = self.alg.add(acc, t);
        }
        acc
    }
    pub fn f_fun1(&mut self, name: &'static str, a: Dd) -> Dd {
        self.n1(name, a, &mut |d, p| { let r = d.alg.fun(name, vec![p]); d.num(r) })
    }
    pub fn f_fun2(&mut self, name: &'static str, a: Dd, b: Dd) -> Dd {
        self.n2(name, a, b, &mut |d, p, q| { let r = d.alg.fun(name, vec![p, q]); d.num(r) })
    }
    pub fn f_sin(&mut self, a: Dd) -> Dd { self.n1("sin", a, &mut |d, p| d.p_cs(p).1) }
    pub fn f_cos(&mut self, a: Dd) -> Dd { self.n1("cos", a, &mut |d, p| d.p_cs(p).0) }
    pub fn f_tan(&mut self, a: Dd) -> Dd { 
        let (s, c) = (self.f_sin(a), self.f_cos(a));
        // at odd multiples of pi/2 the tangent is infinite (a huge float)
        self.n2("tan", s, c, &mut |d, s, c| {
            let r = if c == ZERO { let i = d.alg.inf(); d.alg.mul(s, i) } else { d.alg.div(s, c) };
            d.num(r)
        })
    }

    fn cmul(&mut self, a: (Dd, Dd), b: (Dd, Dd)) -> (Dd, Dd) {
        let (ac, bd) = (self.f_mul(a.0, b.0), self.f_mul(a.1, b.1));
        let (ad, bc) = (self.f_mul(a.0, b.1), self.f_mul(a.1, b.0));
        (self.f_sub(ac, bd), self.f_add(ad, bc))
    }
    fn cpow(&mut self, b: (Dd, Dd), n: i64) -> (Dd, Dd) {
        let b = if n < 0 { let m = self.f_neg(b.1); (b.0, m) } else { b };
        let one = self.num(ONE);
        let zero = self.num(ZERO);
        let mut r = (one, zero);
        for _ in 0..n.abs() { r = self.cmul(r, b); }
        r
    }
    /// (cos p, sin p)
    fn p_cs(&mut self, p: PolyId) -> (Dd, Dd) {
        let pp = self.alg.poly(p);
        let one = self.num(ONE);
        let zero = self.num(ZERO);
        if pp.t.is_empty() { return (one, zero); }
        if pp.t.len() > 4 { return self.cs_generic(p); }
        let mut r = (one, zero);
        for (m, c) in pp.t.iter() {
            let t = self.cs_term(m, c);
            r = self.cmul(r, t);
        }
        r
    }
    fn cs_generic(&mut self, p: PolyId) -> (Dd, Dd) {
        // normalise the sign of the leading coefficient
        let pp = self.alg.poly(p);
        let neg = pp.t[0].1.is_negative();
        let q = if neg { self.alg.neg(p) } else { p };
        let c = self.alg.fun("cos", vec![q]);
        let s = self.alg.fun("sin", vec![q]);
        let s = if neg { self.alg.neg(s) } else { s };
        (self.num(c), self.num(s))
    }
    fn cs_term(&mut self, m: &Mono, c: &Rat) -> (Dd, Dd) {
        if m.0.len() == 1 && m.0[0].1 == 1 {
            let kind = self.alg.atoms[m.0[0].0 as usize].kind.clone();
            match kind {
                AtomKind::Pi => { if let Some(r) = self.cs_pi(c) { return r; } }
                AtomKind::Fun("acos", args) => {
                    let x = args[0];
                    if c.denom().is_one() && c.numer().abs() <= BigInt::from(16) {
                        let x2 = self.alg.mul(x, x);
                        let w = self.alg.sub(ONE, x2);
                        let s = self.p_sqrt(w);
                        let xd = self.num(x);
                        return self.cpow((xd, s), c.numer().to_i64().unwrap());
                    }
                    if c.denom() == &BigInt::from(2) && c.numer().abs() <= BigInt::from(16) {
                        // half angle in [0, pi/2]
                        let h = rat(1, 2);
                        let a = self.alg.add(ONE, x);
                        let a = self.alg.scale(a, &h);
                        let b = self.alg.sub(ONE, x);
                        let b = self.alg.scale(b, &h);
                        let (cc, ss) = (self.p_sqrt(a), self.p_sqrt(b));
                        return self.cpow((cc, ss), c.numer().to_i64().unwrap());
                    }
                }
                AtomKind::Fun("asin", args) => {
                    if c.denom().is_one() && c.numer().abs() <= BigInt::from(16) {
                        let x = args[0];
                        let x2 = self.alg.mul(x, x);
                        let w = self.alg.sub(ONE, x2);
                        let co = self.p_sqrt(w);
                        let xd = self.num(x);
                        return self.cpow((co, xd), c.numer().to_i64().unwrap());
                    }
                }
                AtomKind::Fun("atan2", args) => {
                    if c.denom().is_one() && c.numer().abs() <= BigInt::from(16) {
                        let (y, x) = (args[0], args[1]);
                        let (y2, x2) = (self.alg.mul(y, y), self.alg.mul(x, x));
                        let n2 = self.alg.add(x2, y2);
                        let n = self.p_sqrt(n2);
                        let (xd, yd) = (self.num(x), self.num(y));
                        let co = self.f_div(xd, n);
                        let si = self.f_div(yd, n);
                        let (one, zero) = (self.num(ONE), self.num(ZERO));
                        let (t, f) = (self.boolean(true), self.boolean(false));
                        let z = self.sign_select(n2, t, t, f);
                        let co = self.ite(z, one, co);
                        let si = self.ite(z, zero, si);
                        return self.cpow((co, si), c.numer().to_i64().unwrap());
                    }
                }
                _ => {}
            }
        }
        // generic: integer multiple of a base angle; halves share one base
        let two = BigInt::from(2);
        let (base, n) = if c.denom().is_one() || c.denom() == &two {
            (rat(1, 2), (c * rat(2, 1)).numer().clone())
        } else {
            (Rat::new(BigInt::one(), c.denom().clone()), c.numer().clone())
        };
        match n.to_i64() {
            Some(k) if k.abs() <= 12 => {
                let mp = self.reintern(Poly { t: vec![(m.clone(), base)] });
                let b = self.cs_generic(mp);
                self.cpow(b, k)
            }
            _ => {
                let mp = self.reintern(Poly { t: vec![(m.clone(), c.clone())] });
                self.cs_generic(mp)
            }
        }
    }
    fn cs_pi(&mut self, c: &Rat) -> Option<(Dd, Dd)> {
        // c*pi with 12c integer
        let k = c * rat(12, 1);
        if !k.denom().is_one() { return None; }
        let k = k.numer().mod_floor(&BigInt::from(24)).to_i64().unwrap();
        let base = |d: &mut Dds, k: i64| -> Option<(Dd, Dd)> {
            // k in 0..=6 (0..90 degrees)
            let half = d.f_const(rat(1, 2));
            let (one, zero) = (d.num(ONE), d.num(ZERO));
            let s = |d: &mut Dds, n: i64| { let p = d.alg.int(n); let q = d.p_sqrt(p); let h = d.f_const(rat(1, 2)); d.f_mul(q, h) };
            Some(match k {
                0 => (one, zero),
                2 => (s(d, 3), half),
                3 => (s(d, 2), s(d, 2)),
                4 => (half, s(d, 3)),
                6 => (zero, one),
                _ => return None,
            })
        };
        let quad = k / 6;
        let (co, si) = base(self, k % 6)?;
        let (nc, ns) = (self.f_neg(co), self.f_neg(si));
        Some(match quad { 0 => (co, si), 1 => (ns, co), 2 => (nc, ns), _ => (si, nc) })
    }
    pub fn f_acos(&mut self, a: Dd) -> Dd {
        self.n1("acos", a, &mut |d, p| {
            if let Some(c) = d.alg.as_const(p) {
                let pi = d.alg.pi();
                if c.is_one() { return d.num(ZERO); }
                if c == rat(-1, 1) { return d.num(pi); }
                if c.is_zero() { let h = d.alg.scale(pi, &rat(1, 2)); return d.num(h); }
            }
            for t in d.ranged_angles(0.0, std::f64::consts::PI) {
                let (c, _) = d.p_cs(t);
                if c == d.num(p) { return d.num(t); }
            }
            if d.alg.poly(p).t[0].1.is_negative() {
                let n = d.alg.neg(p);
                let f = d.alg.fun("acos", vec![n]);
                let pi = d.alg.pi();
                let r = d.alg.sub(pi, f);
                return d.num(r);
            }
            let f = d.alg.fun("acos", vec![p]);
            d.num(f)
        })
    }
    pub fn f_asin(&mut self, a: Dd) -> Dd {
        self.n1("asin", a, &mut |d, p| {
            if p == ZERO { return d.num(ZERO); }
            let f = d.alg.fun("asin", vec![p]);
            d.num(f)
        })
    }
    pub fn f_atan2(&mut self, a: Dd, b: Dd) -> Dd {
        self.n2("atan2", a, b, &mut |d, y, x| {
            let pi = d.alg.pi();
            let zero = d.num(ZERO);
            let hp = d.alg.scale(pi, &rat(1, 2));
            let nhp = d.alg.neg(hp);
            let (pid, hpd, nhpd) = (d.num(pi), d.num(hp), d.num(nhp));
            if y == ZERO { return d.sign_select(x, pid, zero, zero); }
            if x == ZERO { return d.sign_select(y, nhpd, zero, hpd); }
            let (y, x) = d.common_pos(y, x);
            for t in d.ranged_angles(-std::f64::consts::PI, std::f64::consts::PI) {
                let (c, s) = d.p_cs(t);
                if c == d.num(x) && s == d.num(y) { return d.num(t); }
                // the same direction
                if let (Some(Leaf::Num(c)), Some(Leaf::Num(s))) = (d.get(c).cloned(), d.get(s).cloned()) { if s != ZERO && d.common_pos(s, c) == (y, x) { return d.num(t); } }
            }
            let f = d.alg.fun("atan2", vec![y, x]);
            d.num(f)
        })
    }
    /// divide both by a common manifestly positive factor
    fn common_pos(&mut self, y: PolyId, x: PolyId) -> (PolyId, PolyId) {
        let (mut y, mut x) = (y, x);
        for _ in 0..4 {
            let (py, px) = (self.alg.poly(y), self.alg.poly(x));
            let mut changed = false;
            let mut atoms: Vec<AtomId> = vec![];
            for (m, _) in py.t.iter().chain(px.t.iter()) { for &(a, _) in &m.0 { if !atoms.contains(&a) { atoms.push(a); } } }
            for a in atoms {
                let min = |p: &Poly| p.t.iter().map(|(m, _)| m.exp(a)).min().unwrap_or(0);
                let e = min(&py).min(min(&px));
                if e == 0 { continue; }
                let ap = self.alg.atom_poly(a);
                let pos = match self.alg.atoms[a as usize].kind.clone() {
                    AtomKind::Sqrt(_) | AtomKind::Pi => true,
                    AtomKind::Fun("exp", _) => true,
                    AtomKind::Den(p) => self.manifest_nonneg(p),
                    _ => e % 2 == 0,
                };
                if !pos { continue; }
                let f = match self.alg.atoms[a as usize].kind.clone() { AtomKind::Den(p) => p, _ => ap };
                let g = self.alg.powi(f, -e as i64);
                y = self.alg.mul(y, g);
                x = self.alg.mul(x, g);
                changed = true;
                break;
            }
            if !changed { break; }
        }
        let lead = self.alg.poly(y).t[0].1.abs();
        let k = lead.recip();
        (self.alg.scale(y, &k), self.alg.scale(x, &k))
    }
    pub fn f_exp(&mut self, a: Dd) -> Dd {
        self.n1("exp", a, &mut |d, p| {
            let pp = d.alg.poly(p);
            let mut r = d.num(ONE);
            for (m, c) in &pp.t {
                // exp(c * ln x) = x^c for (half-)integers
                let is_ln = if m.0.len() == 1 && m.0[0].1 == 1 { match &d.alg.atoms[m.0[0].0 as usize].kind { AtomKind::Fun("ln", a) => Some(a[0]), _ => None } } else { None };
                let two = c * rat(2, 1);
                let k = if two.denom().is_one() { two.numer().to_i64().filter(|k| k.abs() <= 24) } else { None };
                let f = match (is_ln, k) {
                    (Some(x), Some(k)) => {
                        let b = if k % 2 == 0 { let xx = d.num(x); d.f_powi(xx, k / 2) } else { let s = d.p_sqrt(x); d.f_powi(s, k) };
                        b
                    }
                    (None, Some(k)) => {
                        let arg = d.reintern(Poly { t: vec![(m.clone(), rat(1, 2))] });
                        let e = d.alg.fun("exp", vec![arg]);
                        let e = d.num(e);
                        d.f_powi(e, k)
                    }
                    _ => {
                        let arg = d.reintern(Poly { t: vec![(m.clone(), c.clone())] });
                        let e = d.alg.fun("exp", vec![arg]);
                        d.num(e)
                    }
                };
                r = d.f_mul(r, f);
            }
            r
        })
    }
    pub fn f_ln(&mut self, a: Dd) -> Dd {
        self.n1("ln", a, &mut |d, p| {
            if p == ONE { return d.num(ZERO); }
            let pp = d.alg.poly(p);
            if pp.t.len() == 1 && pp.t[0].1.is_one() {
                let mut acc = ZERO;
                let mut rest = ONE;
                for &(a, e) in &pp.t[0].0 .0 {
                    match d.alg.atoms[a as usize].kind.clone() {
                        AtomKind::Fun("exp", args) => {
                            let t = d.alg.scale(args[0], &rat(e as i64, 1));
                            acc = d.alg.add(acc, t);
                        }
                        AtomKind::Sqrt(q) if e == 1 && pp.t[0].0 .0.len() == 1 => {
                            let l = d.alg.fun("ln", vec![q]);
                            let t = d.alg.scale(l, &rat(1, 2));
                            acc = d.alg.add(acc, t);
                        }
                        _ => {
                            let ap = d.alg.atom_poly(a);
                            let f = d.alg.powi(ap, e as i64);
                            rest = d.alg.mul(rest, f);
                        }
                    }
                }
                if rest != ONE { let l = d.alg.fun("ln", vec![rest]); acc = d.alg.add(acc, l); }
                return d.num(acc);
            }
            let l = d.alg.fun("ln", vec![p]);
            d.num(l)
        })
    }
    pub fn f_powf(&mut self, a: Dd, b: Dd) -> Dd {
        self.n2("powf", a, b, &mut |d, p, q| {
            if let Some(c) = d.alg.as_const(q) {
                if c.denom().is_one() { if let Some(k) = c.numer().to_i64() { if k.abs() < 64 { let r = d.alg.powi(p, k); return d.num(r); } } }
                if c.denom() == &BigInt::from(2) { if let Some(k) = c.numer().to_i64() { let s = d.p_sqrt(p); return d.f_powi(s, k); } }
            }
            let r = d.alg.fun("powf", vec![p, q]);
            let r = d.num(r);
            let (x, y) = (d.num(p), d.num(q));
            let l = d.f_ln(x);
            let e = d.f_mul(y, l);
            let e = d.f_exp(e);
            d.sign_select(p, r, r, e)
        })
    }
    /// logarithm to a base
    pub fn f_log(&mut self, a: Dd, base: i64) -> Dd {
        let b = self.f_const(rat(base, 1));
        let (l, k) = (self.f_ln(a), self.f_ln(b));
        self.f_div(l, k)
    }
    pub fn f_const_fun(&mut self, name: &'static str, a: Dd, f: fn(&Rat) -> Rat) -> Dd {
        self.n1(name, a, &mut |d, p| match d.alg.as_const(p) {
            Some(c) => d.f_const(f(&c)),
            None => { let r = d.alg.fun(name, vec![p]); d.num(r) }
        })
    }
    /// f64 to f32: constants keep the number they stand for, anything else is rounded
    pub fn f_narrow(&mut self, a: Dd) -> Dd {
        self.n1("round32", a, &mut |d, p| {
            if d.const_or_pi(p).is_some() { return d.num(p); }
            let r = d.alg.fun("round32", vec![p]);
            d.num(r)
        })
    }
    /// f32 to f64: exact, so a constant is the f32 nearest to the number it stands for
    pub fn f_widen(&mut self, a: Dd) -> Dd {
        if self.opaque.is_some() { return a; }
        self.map1(a, &mut |d, l| match l {
            Leaf::Num(p) => match d.const_or_pi(*p) {
                Some(v) => match Rat::from_float(v as f32) { Some(r) => d.f_const(r), None => d.num(*p) },
                None => d.num(*p),
            },
            Leaf::Tr(_) => d.leaf(l.clone()),
            _ => UNDEF,
        })
    }
    fn const_or_pi(&mut self, p: PolyId) -> Option<f64> {
        if let Some(c) = self.alg.as_const(p) { return Some(rat_f64(&c)); }
        let pi = self.alg.pi();
        let i = self.alg.inv(pi);
        let k = self.alg.mul(p, i);
        if let Some(c) = self.alg.as_const(k) { return Some(rat_f64(&c) * std::f64::consts::PI); }
        let k = self.alg.mul(p, pi);
        self.alg.as_const(k).map(|c| rat_f64(&c) / std::f64::consts::PI)
    }
    /// a float constant given by its decimal rendering; recognises multiples of pi
    pub fn f_literal(&mut self, v: f64, text: &str, single: bool) -> Dd {
        if v.is_nan() { return self.opaque.unwrap_or(UNDEF); }
        if v.is_infinite() {
            let i = self.alg.inf();
            let i = if v < 0.0 { self.alg.neg(i) } else { i };
            return self.num(i);
        }
        let single = single && v != 0.0;
        use std::f64::consts::PI;
        for (n, d) in [(1, 1), (2, 1), (1, 2), (3, 2), (1, 3), (2, 3), (1, 4), (3, 4), (1, 6), (1, 8), (1, 180)] {
            let x = PI * n as f64 / d as f64;
            let x32 = std::f32::consts::PI * n as f32 / d as f32;
            if v.abs().to_bits().abs_diff(x.to_bits()) <= 1 || v.abs() == PI / (d as f64) * n as f64 || (single && (v.abs() as f32).to_bits().abs_diff(x32.to_bits()) <= 1 && x32 as f64 != 0.0 && d != 1) || (single && v.abs() == x32 as f64) || (single && text.trim_start_matches('-') == format!("{}", x32)) {
                let pi = self.alg.pi();
                let s = if v < 0.0 { -1 } else { 1 };
                let r = self.alg.scale(pi, &rat(s * n, d));
                return self.num(r);
            }
        }
        for (n, d) in [(180i64, 1i64), (1, 1), (2, 1)] {
            let x = n as f64 / d as f64 / PI;
            if v.abs() == x || (single && v.abs() == (x as f32) as f64) {
                let pi = self.alg.pi();
                let i = self.alg.inv(pi);
                let s = if v < 0.0 { -1 } else { 1 };
                let r = self.alg.scale(i, &rat(s * n, d));
                return self.num(r);
            }
        }
        // square roots of two
        for (val, num, den) in [(std::f64::consts::SQRT_2, 1, 1), (std::f64::consts::FRAC_1_SQRT_2, 1, 2)] {
            if v.abs() == val || (single && v.abs() == (val as f32) as f64) {
                let two = self.alg.int(2);
                let s = self.sqrt_atom(two);
                let sg = if v < 0.0 { -1 } else { 1 };
                let r = self.alg.scale(s, &rat(sg * num, den));
                return self.num(r);
            }
        }
        self.f_const(rat_of_decimal(text))
    }
}

/// r = out^2 * inside, inside square-free for small numbers
fn sqfree(r: &Rat) -> (Rat, Rat) {
    // sqrt(n/d) = sqrt(n*d)/d
    let mut n = r.numer() * r.denom();
    let d = r.denom().clone();
    let mut out = BigInt::one();
    if n.is_zero() { return (Rat::zero(), Rat::one()); }
    let s = n.sqrt();
    if &s * &s == n { return (Rat::new(s, d), Rat::one()); }
    for k in 2u32..200 {
        let k2 = BigInt::from(k * k);
        while (&n % &k2).is_zero() { n /= &k2; out *= k; }
    }
    (Rat::new(out, d), Rat::from_integer(n))
}
