//! Consequences of the equalities met on a path: substitution of atoms solved from p = 0.
use crate::alg::*;
use crate::dd::*;
use num_traits::{One, Signed, Zero};
use std::collections::HashMap;

pub struct Subst<'a> { pub d: &'a mut Dds, pub map: HashMap<AtomId, Dd>, memo: HashMap<PolyId, Dd>, amemo: HashMap<AtomId, Dd>, dep: HashMap<AtomId, bool> }

impl<'a> Subst<'a> {
    pub fn new(d: &'a mut Dds) -> Subst<'a> { Subst { d, map: HashMap::new(), memo: HashMap::new(), amemo: HashMap::new(), dep: HashMap::new() } }
    fn clear(&mut self) { self.memo.clear(); self.amemo.clear(); self.dep.clear(); }
    pub fn bind(&mut self, a: AtomId, v: Dd) {
        // apply to existing bindings
        let mut one = HashMap::new();
        one.insert(a, v);
        let old = std::mem::replace(&mut self.map, one);
        self.clear();
        let mut new = HashMap::new();
        for (k, x) in old { let y = self.dd(x); new.insert(k, y); }
        new.insert(a, v);
        self.map = new;
        self.clear();
    }
    fn args_of(&self, a: AtomId) -> Vec<PolyId> {
        match &self.d.alg.atoms[a as usize].kind {
            AtomKind::Sqrt(p) | AtomKind::Den(p) => vec![*p],
            AtomKind::Fun(_, v) | AtomKind::Big(_, v) => v.clone(),
            _ => vec![],
        }
    }
    fn affected(&mut self, a: AtomId) -> bool {
        if self.map.contains_key(&a) { return true; }
        if let Some(&b) = self.dep.get(&a) { return b; }
        let mut r = false;
        for p in self.args_of(a) { if self.affected_p(p) { r = true; break; } }
        self.dep.insert(a, r);
        r
    }
    fn affected_p(&mut self, p: PolyId) -> bool {
        let pp = self.d.alg.poly(p);
        pp.t.iter().any(|(m, _)| m.0.iter().any(|&(a, _)| self.affected(a)))
    }
    pub fn depends(d: &Dds, p: PolyId, a: AtomId, depth: u32) -> bool {
        if depth > 12 { return true; }
        d.alg.poly(p).t.iter().any(|(m, _)| m.0.iter().any(|&(b, _)| b == a || match &d.alg.atoms[b as usize].kind {
            AtomKind::Sqrt(q) | AtomKind::Den(q) => Subst::depends(d, *q, a, depth + 1),
            AtomKind::Fun(_, v) | AtomKind::Big(_, v) => v.iter().any(|q| Subst::depends(d, *q, a, depth + 1)),
            _ => false,
        }))
    }
    fn atom(&mut self, a: AtomId) -> Dd {
        if let Some(&v) = self.map.get(&a) { return v; }
        if let Some(&v) = self.amemo.get(&a) { return v; }
        let kind = self.d.alg.atoms[a as usize].kind.clone();
        let r = if !self.affected(a) { let p = self.d.alg.atom_poly(a); self.d.num(p) } else {
            match kind {
                AtomKind::Sqrt(p) => { let x = self.poly(p); self.d.f_sqrt(x) }
                AtomKind::Den(p) => self.poly(p),
                AtomKind::Fun(n, args) => {
                    let v: Vec<Dd> = args.iter().map(|p| self.poly(*p)).collect();
                    match n {
                        "sin" => self.d.f_sin(v[0]), "cos" => self.d.f_cos(v[0]), "acos" => self.d.f_acos(v[0]), "asin" => self.d.f_asin(v[0]),
                        "exp" => self.d.f_exp(v[0]), "ln" => self.d.f_ln(v[0]), "atan2" => self.d.f_atan2(v[0], v[1]), "powf" => self.d.f_powf(v[0], v[1]),
                        _ if v.len() == 1 => self.d.f_fun1(n, v[0]),
                        _ => self.d.f_fun2(n, v[0], v[1]),
                    }
                }
                AtomKind::Big(op, args) => {
                    let v: Vec<Dd> = args.iter().map(|p| self.poly(*p)).collect();
                    match op { "add" => self.d.f_add(v[0], v[1]), "mul" => self.d.f_mul(v[0], v[1]), _ => { let o = self.d.num(ONE); self.d.f_div(o, v[0]) } }
                }
                _ => unreachable!(),
            }
        };
        self.amemo.insert(a, r);
        r
    }
    pub fn poly(&mut self, p: PolyId) -> Dd {
        let on = std::mem::replace(&mut self.d.tr.on, false);
        let r = self.poly_exact(p);
        self.d.tr.on = on;
        r
    }
    fn poly_exact(&mut self, p: PolyId) -> Dd {
        if let Some(&r) = self.memo.get(&p) { return r; }
        if !self.affected_p(p) { return self.d.num(p); }
        let pp = self.d.alg.poly(p);
        let mut acc = self.d.num(ZERO);
        for (m, c) in &pp.t {
            let mut t = self.d.f_const(c.clone());
            for &(a, e) in &m.0 {
                let v = self.atom(a);
                let f = if e < 0 { let o = self.d.num(ONE); let i = self.d.f_div(o, v); self.d.f_powi(i, -e as i64) } else { self.d.f_powi(v, e as i64) };
                t = self.d.f_mul(t, f);
            }
            acc = self.d.f_add(acc, t);
        }
        self.memo.insert(p, acc);
        acc
    }
    pub fn dd(&mut self, x: Dd) -> Dd {
        let me = self as *mut Subst;
        // the closure needs both the diagram store and the substitution
        let d = self.d as *mut Dds;
        unsafe { (*d).map1(x, &mut |dd, l| match l { Leaf::Num(p) => (*me).poly(*p), l => dd.leaf(l.clone()) }) }
    }
}

impl Dds {
    /// solve the equalities of the path; None if they contradict the path
    fn solve(&mut self, path: &[(u32, usize)]) -> Option<HashMap<AtomId, Dd>> {
        let mut zeros: Vec<PolyId> = vec![];
        for &(v, j) in path { if j == 1 { if let Var::Sign { p, .. } = self.vars[v as usize] { zeros.push(p); } } }
        let mut s = Subst::new(self);
        let mut i = 0;
        let mut bound = 0;
        let mut again: Vec<PolyId> = vec![];
        loop {
            // what is known by now may decide the ones passed over
            if i == zeros.len() && s.map.len() > bound && again.len() < 12 { bound = s.map.len(); zeros.extend(again.drain(..)); }
            if i >= zeros.len() || i >= 60 { break; }
            let z = s.poly(zeros[i]);
            i += 1;
            let Some(Leaf::Num(p)) = s.d.get(z).cloned() else { continue };
            if p == ZERO { continue; }
            let Some((n, _)) = s.d.alg.num_den(p) else { continue };
            let np = s.d.alg.poly(n);
            if let Some(c) = np.as_const() { if !c.is_zero() { return None; } continue; }
            // sum of non-negative terms
            if np.t.len() > 1 && s.d.manifest_nonneg(n) {
                for (m, c) in np.t.iter() {
                    if m.is_one() { return None; }
                    let q = Poly { t: vec![(m.clone(), c.clone())] };
                    let q = s.d.reintern_pub(q);
                    zeros.push(q);
                }
                continue;
            }
            if np.t.len() == 1 {
                let m = &np.t[0].0;
                if m.0.len() == 1 {
                    let a = m.0[0].0;
                    match s.d.alg.atoms[a as usize].kind.clone() {
                        AtomKind::Sqrt(q) => zeros.push(q),
                        AtomKind::Den(q) => zeros.push(q),
                        AtomKind::Big(..) | AtomKind::Pi | AtomKind::Inf | AtomKind::Div0 => {}
                        _ => {
                            // sin x = 0 gives cos x = +-1: leave the cosine, its square is known
                            let zero = s.d.num(ZERO);
                            let sq = s.d.alg.atoms[a as usize].sq;
                            s.bind(a, zero);
                            if let Some(q) = sq { zeros.push(q); }
                        }
                    }
                }
                continue;
            }
            // an atom occurring linearly with constant coefficient
            let mut pick = None;
            for (m, c) in np.t.iter() {
                if m.0.len() == 1 && m.0[0].1 == 1 {
                    let a = m.0[0].0;
                    if matches!(s.d.alg.atoms[a as usize].kind, AtomKind::Pi | AtomKind::Inf | AtomKind::Den(_) | AtomKind::Big(..) | AtomKind::Div0) { continue; }
                    if s.map.contains_key(&a) { continue; }
                    let rest = Poly { t: np.t.iter().filter(|x| x.0 != *m).cloned().collect() };
                    let r = s.d.reintern_pub(rest);
                    if Subst::depends(s.d, r, a, 0) { continue; }
                    pick = Some((a, r, c.clone()));
                    break;
                }
            }
            if let Some((a, r, c)) = pick {
                let v = s.d.alg.scale(r, &(-c.recip()));
                if let AtomKind::Sqrt(q) = s.d.alg.atoms[a as usize].kind {
                    // sqrt(q) = v implies q = v^2
                    let v2 = s.d.alg.mul(v, v);
                    let e = s.d.alg.sub(q, v2);
                    zeros.push(e);
                }
                let vd = s.d.num(v);
                s.bind(a, vd);
                continue;
            }
            again.push(p);
        }
        let map = std::mem::take(&mut s.map);
        // re-examine the other constraints
        let mut more = vec![];
        for &(v, j) in path {
            let Var::Sign { p, .. } = self.vars[v as usize] else { continue };
            let mut s = Subst::new(self);
            s.map = map.clone();
            let x = s.poly(p);
            if let Some(Leaf::Num(q)) = self.get(x).cloned() {
                let sg = self.sign(q);
                let lv: Vec<Dd> = self.leaves(sg);
                let ok = lv.iter().any(|l| matches!(self.get(*l), Some(Leaf::Int(k, _)) if *k as usize == j));
                if !ok { return None; }
                if q != p { more.push((q, j)); }
            }
        }
        if !more.is_empty() && path.len() <= 24 {
            for i in 0..path.len() {
                let mut p = path.to_vec();
                let last = p.len() - 1;
                p.swap(i, last);
                if self.lin_contra(&p, &more) { return None; }
            }
            // the substituted facts among themselves
            for i in 0..more.len() {
                let rest: Vec<_> = more.iter().enumerate().filter(|x| x.0 != i).map(|x| *x.1).collect();
                if self.lin_from(more[i], &[], &rest, path) { return None; }
            }
        }
        Some(map)
    }
    pub fn reintern_pub(&mut self, p: Poly) -> PolyId {
        let mut acc = ZERO;
        for (m, c) in p.t {
            let mut t = self.alg.konst(c);
            for (a, e) in m.0 {
                let ap = self.alg.atom_poly(a);
                let f = if e < 0 { let i = self.alg.inv(ap); self.alg.powi(i, -e as i64) } else { self.alg.powi(ap, e as i64) };
                t = self.alg.mul(t, f);
            }
            acc = self.alg.add(acc, t);
        }
        acc
    }
    /// do the equalities of the path make it contradictory, or a and b equal?
    pub fn equal_on(&mut self, path: &[(u32, usize)], a: Option<(PolyId, PolyId)>) -> bool {
        if !path.iter().any(|&(v, j)| j == 1 && matches!(self.vars[v as usize], Var::Sign { .. })) { return false; }
        let Some(map) = self.solve(path) else { return true };
        let Some((a, b)) = a else { return false };
        let diff = self.alg.sub(a, b);
        let mut s = Subst::new(self);
        s.map = map.clone();
        let x = s.poly(diff);
        let zero = self.num(ZERO);
        if self.leaves(x).iter().all(|l| *l == zero) { return true; }
        // gated: take the branches that agree with the (substituted) path
        let mut y = x;
        let mut guard = 0;
        while let Some((v, k)) = self.branch(y) {
            guard += 1;
            if guard > 200 { break; }
            match path.iter().find(|q| q.0 == v) {
                Some(q) => y = k[q.1],
                None => {
                    // all feasible branches must vanish
                    let Var::Sign { p, .. } = self.vars[v as usize].clone() else { break };
                    let mut live = vec![];
                    for j in 0..3 {
                        let mut pp = path.to_vec();
                        pp.push((v, j));
                        if self.path_feasible(&pp) { live.push(k[j]); }
                    }
                    let _ = p;
                    live.dedup();
                    if live.len() == 1 { y = live[0]; } else { break; }
                }
            }
        }
        if y == zero { return true; }
        // remainder modulo the vanishing polynomials
        if let Some(Leaf::Num(q)) = self.get(y).cloned() {
            if q == ZERO { return true; }
            if let Some((n, _)) = self.alg.num_den(q) {
                let np = self.alg.poly(n);
                for &(v, j) in path {
                    if j != 1 { continue; }
                    let Var::Sign { p, .. } = self.vars[v as usize] else { continue };
                    let mut s = Subst::new(self);
                    s.map = map.clone();
                    let z = s.poly(p);
                    if let Some(Leaf::Num(z)) = self.get(z).cloned() {
                        if z == ZERO { continue; }
                        if let Some((zn, _)) = self.alg.num_den(z) {
                            let zp = self.alg.poly(zn);
                            if zp.t.len() > 1 && div_exact(&np, &zp).is_some() { return true; }
                        }
                    }
                }
            }
        }
        false
    }
    pub fn path_feasible(&self, path: &[(u32, usize)]) -> bool {
        let mut cx = PathCtx::default();
        for _ in 0..3 { for &(v, j) in path { if !self.assume_sign(&mut cx, v, j) { return false; } } }
        !self.lin_contradiction(path)
    }
    /// is the path contradictory once its facts are multiplied with each other?
    fn lin_deep(&mut self, path: &[(u32, usize)]) -> bool {
        if path.len() > 16 { return false; }
        let more = self.derived(path);
        if more.is_empty() { return false; }
        // each fact takes its turn as the centre of the connected set
        for i in 0..path.len() {
            let mut p = path.to_vec();
            let last = p.len() - 1;
            p.swap(i, last);
            if self.lin_contra(&p, &more) { return true; }
        }
        false
    }
    /// enumerate feasible paths of cond to TRUE until f returns true
    pub fn paths(&mut self, cond: Dd, budget: &mut usize, f: &mut dyn FnMut(&mut Dds, &[(u32, usize)]) -> bool) -> Option<Vec<(u32, usize)>> {
        let mut path = vec![];
        if self.paths_rec(cond, PathCtx::default(), &mut path, budget, f) { Some(path) } else { None }
    }
    fn paths_rec(&mut self, d: Dd, cx: PathCtx, path: &mut Vec<(u32, usize)>, budget: &mut usize, f: &mut dyn FnMut(&mut Dds, &[(u32, usize)]) -> bool) -> bool {
        if d == FALSE || d == UNDEF { return false; }
        if d == TRUE {
            if !self.path_feasible(path) { return false; }
            let p = path.clone();
            if self.lin_deep(&p) { return false; }
            return f(self, &p);
        }
        if *budget == 0 { return true; }
        *budget -= 1;
        let Some((var, kids)) = self.branch(d) else { return false };
        let isbool = matches!(self.vars[var as usize], Var::Bool(_));
        for j in 0..(if isbool { 2 } else { 3 }) {
            if kids[j] == FALSE || kids[j] == UNDEF { continue; }
            let mut c = cx.clone();
            if !self.assume_sign(&mut c, var, j) { continue; }
            path.push((var, j));
            if !isbool && self.lin_contradiction(path) { path.pop(); continue; }
            if self.paths_rec(kids[j], c, path, budget, f) { return true; }
            path.pop();
        }
        false
    }
}
#[allow(dead_code)]
fn _u(r: &Rat) -> bool { r.is_one() && r.is_positive() }
