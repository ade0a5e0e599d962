//! Calls interpreted by the analysis itself: compiler intrinsics, math library, panics,
//! output, and the obligations stated by the rules.
use crate::alg::*;
use crate::dd::*;
use crate::interp::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;

fn err<T>(s: impl Into<String>) -> R<T> { Err(s.into()) }

impl Interp {
    fn targ(&self, inst: &Instance, i: usize) -> R<Ty> {
        inst.args().0.iter().filter_map(|a| a.ty().copied()).nth(i).ok_or_else(|| "missing type argument".to_string())
    }
    pub fn hook_virtual(&mut self, _fr: &Frame, inst: Instance, vals: Vec<Val>, dty: Ty, st: State) -> R<Option<(Val, State)>> {
        let _ = (vals, dty, st);
        err(format!("dynamic call of {} on an unknown object", inst.name()))
    }
    pub fn hook(&mut self, fr: &Frame, inst: Instance, v: &[Val], tys: &[Ty], dty: Ty, st: State, span: Span, returns: bool) -> R<Hook> {
        let full = inst.def.name();
        // ---------------------------------------------------- rule vocabulary
        if let Some(i) = full.find("smrt::") {
            let n = full[i + 6..].to_string();
            if !n.contains("::") {
                return self.rule_call(&n, inst, v, tys, dty, st);
            }
        }
        if let Some(n) = inst.intrinsic_name() {
            return self.intrinsic(fr, &n, inst, v, tys, dty, st, span);
        }
        if !returns || full.starts_with("core::panicking::") || full.starts_with("std::panicking") || full.starts_with("std::rt::") || full.starts_with("core::option::unwrap_failed") || full.starts_with("core::result::unwrap_failed") {
            if !returns || self.kind(dty) == std::rc::Rc::new(TyKind::RigidTy(RigidTy::Never)) {
                let msg = self.panic_msg(&st, v);
                let what = format!("panic: {}{}", full.rsplit("::").next().unwrap_or(""), if msg.is_empty() { String::new() } else { format!(" \"{msg}\"") });
                self.diverge(&st, what, fr, span);
                return Ok(Hook::Done(None));
            }
        }
        if inst.is_foreign_item() {
            let n = full.rsplit("::").next().unwrap_or("").to_string();
            let n = n.as_str();
            let n1 = if n == "powf" { "pow" } else { n.trim_end_matches('f') };
            let one = |s: &mut Interp, f: &mut dyn FnMut(&mut Dds, Dd) -> Dd| -> R<Val> { let x = s.sc(&v[0])?; let r = f(&mut s.d, x); Ok(s.scalar(r, v[0].sz as u8)) };
            if matches!(n1, "acos" | "asin") && self.total { let x = self.sc(&v[0])?; self.in_domain(st.pc, n1, x); }
            let r = match n1 {
                "acos" => one(self, &mut |d, x| d.f_acos(x))?,
                "asin" => one(self, &mut |d, x| d.f_asin(x))?,
                "tan" => one(self, &mut |d, x| d.f_tan(x))?,
                "atan" => one(self, &mut |d, x| { let o = d.num(ONE); d.f_atan2(x, o) })?,
                "sinh" => one(self, &mut |d, x| hyp(d, x, 0))?,
                "cosh" => one(self, &mut |d, x| hyp(d, x, 1))?,
                "tanh" => one(self, &mut |d, x| hyp(d, x, 2))?,
                "cbrt" => one(self, &mut |d, x| d.f_fun1("cbrt", x))?,
                "expm1" => one(self, &mut |d, x| { let e = d.f_exp(x); let o = d.num(ONE); d.f_sub(e, o) })?,
                "log1p" => one(self, &mut |d, x| { let o = d.num(ONE); let y = d.f_add(x, o); d.f_ln(y) })?,
                "pow" => { let (x, y) = (self.sc(&v[0])?, self.sc(&v[1])?); self.pow_domain(st.pc, x, y); let r = self.d.f_powf(x, y); self.scalar(r, v[0].sz as u8) }
                "fdim" => { let (x, y) = (self.sc(&v[0])?, self.sc(&v[1])?); let r = self.d.f_sub(x, y); let z = self.d.num(ZERO); let r = self.d.f_max(r, z); self.scalar(r, v[0].sz as u8) }
                "exp" => one(self, &mut |d, x| d.f_exp(x))?,
                "exp2" => one(self, &mut |d, x| { let l = d.f_const(rat(2, 1)); d.f_powf(l, x) })?,
                "log" => { let x = self.sc(&v[0])?; self.in_domain(st.pc, "log", x); one(self, &mut |d, x| d.f_ln(x))? }
                "log2" => { let x = self.sc(&v[0])?; self.in_domain(st.pc, "log", x); one(self, &mut |d, x| d.f_log(x, 2))? }
                "log10" => { let x = self.sc(&v[0])?; self.in_domain(st.pc, "log", x); one(self, &mut |d, x| d.f_log(x, 10))? }
                "atan2" => { let (x, y) = (self.sc(&v[0])?, self.sc(&v[1])?); let r = self.d.f_atan2(x, y); self.scalar(r, v[0].sz as u8) }
                "hypot" => {
                    let (x, y) = (self.sc(&v[0])?, self.sc(&v[1])?);
                    let (a, b) = (self.d.f_mul(x, x), self.d.f_mul(y, y));
                    let s = self.d.f_add(a, b);
                    let r = self.d.f_sqrt(s);
                    self.scalar(r, v[0].sz as u8)
                }
                "fmod" => { let (x, y) = (self.sc(&v[0])?, self.sc(&v[1])?); let r = self.d.f_fun2("rem", x, y); self.scalar(r, v[0].sz as u8) }
                _ => return err(format!("call of foreign function {full}")),
            };
            return Ok(Hook::Done(Some((r, st))));
        }
        // sign queries inspect bit patterns: answer them in the value domain
        let last = full.rsplit("::").next().unwrap_or("");
        if !v.is_empty() && !tys.is_empty() && self.is_float(tys[0]) {
            match last {
                "is_sign_negative" | "is_sign_positive" => {
                    let x = self.sc(&v[0])?;
                    let z = self.d.num(ZERO);
                    let r = self.d.f_cmp("isneg", x, z, true, false, false);
                    let r = if last == "is_sign_positive" { self.d.not(r) } else { r };
                    return Ok(Hook::Done(Some((self.bool_val(r), st))));
                }
                "is_nan" | "is_infinite" if full.contains("core::f64") || full.contains("core::f32") || full.contains("core::num") || full.contains("std::f64") => {
                    let x = self.sc(&v[0])?;
                    let r = self.d.f_is(x, last == "is_nan");
                    return Ok(Hook::Done(Some((self.bool_val(r), st))));
                }
                "max" | "min" if v.len() == 2 && (full.contains("f64") || full.contains("f32") || full.contains("Float")) && self.is_float(tys[1]) && self.is_float(dty) => {
                    let (x, y) = (self.sc(&v[0])?, self.sc(&v[1])?);
                    let r = if last == "max" { self.d.f_max(x, y) } else { self.d.f_min(x, y) };
                    return Ok(Hook::Done(Some((self.scalar(r, v[0].sz as u8), st))));
                }
                _ => {}
            }
        }
        if last == "total_cmp" && self.d.opaque.is_none() && v.len() == 2 {
            // of numbers (a zero has one sign here)
            if let TyKind::RigidTy(RigidTy::Ref(_, t, _)) = &*self.kind(tys[0]) {
                if self.is_float(*t) {
                    let (p, q) = (self.cell_at(&v[0], 0), self.cell_at(&v[1], 0));
                    let (a, b) = (self.read(&st, p, *t)?, self.read(&st, q, *t)?);
                    let (a, b) = (self.sc(&a)?, self.sc(&b)?);
                    let (l, g) = (self.d.f_cmp("flt", a, b, true, false, false), self.d.f_cmp("fgt", a, b, false, false, true));
                    let (m, z, o) = (self.d.int(255, 1), self.d.int(0, 1), self.d.int(1, 1));
                    let r = self.d.map1(g, &mut |_, x| match x { Leaf::Int(1, _) => o, _ => z });
                    let r = self.d.map2(l, r, &mut |d, x, y| match x { Leaf::Int(1, _) => m, _ => d.leaf(y.clone()) });
                    return Ok(Hook::Done(Some((self.scalar(r, 1), st))));
                }
            }
        }
        // output
        if full == "std::io::_print" || full == "std::io::_eprint" {
            let pc = st.pc;
            let at = self.show_org(self.cur_org);
            self.io_events.push((pc, format!("{full} called from {at}")));
            return Ok(Hook::Done(Some((Val::default(), st))));
        }
        if full.starts_with("core::fmt::") || full.starts_with("std::fmt::") || full.contains("fmt::rt::") || full.contains("fmt::Write") || last == "fmt" || last == "write_fmt" {
            return self.fmt_hook(&full, inst, v, tys, dty, st);
        }
        Ok(Hook::Pass(st))
    }
    /// x^y: not of zero for a negative exponent, not of a negative number for a fraction
    fn pow_domain(&mut self, pc: Dd, x: Dd, y: Dd) {
        let c = match self.d.get(y).cloned() { Some(Leaf::Num(q)) => self.d.alg.as_const(q), _ => None };
        match c {
            Some(c) if num_traits::Signed::is_negative(&c) => { self.in_domain(pc, "div", x); if !c.is_integer() { self.in_domain(pc, "sqrt", x); } }
            Some(c) if c.is_integer() => {}
            Some(_) => self.in_domain(pc, "sqrt", x),
            None => self.in_domain(pc, "log", x),
        }
    }
    fn panic_msg(&mut self, st: &State, v: &[Val]) -> String {
        let mut out = String::new();
        for x in v.iter().take(1) {
            for (_, c) in x.c.iter().take(2) {
                if let Some(b) = self.bytes_at(c.v) { out = b; break; }
            }
        }
        let _ = st;
        out
    }
    pub fn bytes_at(&mut self, p: Dd) -> Option<String> {
        let Some(Leaf::Ptr(Base::Global(g), o)) = self.d.get(p).cloned() else { return None };
        let a = self.global_alloc(g)?;
        let s: String = a.bytes.iter().skip(o as usize).take(100).filter_map(|b| *b).map(|b| if (32..127).contains(&b) { b as char } else { '.' }).collect();
        Some(s)
    }
    fn fmt_hook(&mut self, full: &str, inst: Instance, v: &[Val], tys: &[Ty], dty: Ty, st: State) -> R<Hook> {
        let last = full.rsplit("::").next().unwrap_or("").to_string();
        // rt::Argument::new_*(x): an opaque argument remembering the value printed
        if full.contains("rt::Argument") && last.starts_with("new") {
            let p = self.cell_at(&v[0], 0);
            let sz = self.size(dty)?;
            let mut out = Val { sz, c: vec![] };
            out.c.push((0, Cell { sz: 8, v: p, org: self.cur_org }));
            // the formatting routine is recorded through the referent type
            let t = match &*self.kind(tys[0]) { TyKind::RigidTy(RigidTy::Ref(_, t, _)) => *t, _ => return err("format argument") };
            let l = self.vt_of(t);
            let i = self.fmt_defs.len();
            let def = self.fmt_routine(inst);
            self.fmt_defs.push(def);
            let i = self.d.int(i as u128, 8);
            let l = self.list_leaf(l, i);
            out.c.push((8, Cell { sz: 8, v: l, org: self.cur_org }));
            return Ok(Hook::Done(Some((out, st))));
        }
        if full.contains("fmt::Arguments") && (last == "new" || last.starts_with("new_") || last == "from_str" || last == "from_str_nonconst") {
            // (template, &args): keep the slice of arguments
            let sz = self.size(dty)?;
            let mut out = Val { sz, c: vec![] };
            let (p, n) = if v.len() >= 2 {
                let n = match &*self.kind(tys[1]) {
                    TyKind::RigidTy(RigidTy::Ref(_, t, _)) => match &*self.kind(*t) { TyKind::RigidTy(RigidTy::Array(_, n)) => n.eval_target_usize().unwrap_or(0), _ => 0 },
                    _ => 0,
                };
                (self.cell_at(&v[1], 0), n)
            } else { (self.d.int(0, 8), 0) };
            let n = self.d.int(n as u128, 8);
            let l = self.list_leaf(p, n);
            let t = self.cell_at(&v[0], 0);
            out.c.push((0, Cell { sz: 8, v: t, org: self.cur_org }));
            out.c.push((8, Cell { sz: 8, v: l, org: self.cur_org }));
            return Ok(Hook::Done(Some((out, st))));
        }
        if last == "write_fmt" || last == "write_str" || last == "write_char" || last == "pad" {
            // an output event on the destination
            let dest = self.cell_at(&v[0], 0);
            let mut vals = vec![];
            let mut what = last.clone();
            let st0 = st.clone();
            let mut st = st;
            let mut failed = FALSE;
            if last == "write_fmt" {
                let l = self.cell_at(&v[1], 8);
                let t = self.cell_at(&v[1], 0);
                if let Some(s) = self.bytes_at(t) { what = format!("write_fmt {s:?}"); }
                if let Some(Leaf::Opaque(k)) = self.d.get(l).cloned() {
                    let (p, n) = self.lists[(k - LIST_BASE) as usize];
                    let n = match self.d.get(n) { Some(Leaf::Int(n, _)) => *n as usize, _ => 0 };
                    let order = if n == 0 { vec![] } else { self.template_args(t).ok_or("format template")? };
                    for i in order {
                        if i >= n { return err("format template index"); }
                        let q = self.ptr_add_const(p, 16 * i as i64);
                        let c = self.read(&st, q, Ty::new_tuple(&[Ty::usize_ty(), Ty::usize_ty()]))?;
                        let (vp, vl) = (self.cell_at(&c, 0), self.cell_at(&c, 8));
                        let Some(Leaf::Opaque(k)) = self.d.get(vl).cloned() else { return err("format argument") };
                        let (vt, di) = self.lists[(k - LIST_BASE) as usize];
                        let Some(Leaf::VTable(t)) = self.d.get(vt).cloned() else { return err("format argument type") };
                        let t = self.vts[t as usize];
                        let def = match self.d.get(di) { Some(Leaf::Int(n, _)) => self.fmt_defs[*n as usize].clone(), _ => None };
                        let (xp, xt, x) = self.deref_all(&st, vp, t)?;
                        if let Some(x) = x { if self.is_float(xt) { vals.push(x); } continue; }
                        if self.kind(xt).is_str() { continue; } // text, not a component
                        // a type with its own formatting routine: what that routine writes
                        if !vals.is_empty() {
                            let f = self.output_event(&st, dest, what.clone(), std::mem::take(&mut vals));
                            let g = self.d.and(st.pc, f);
                            failed = self.d.or(failed, g);
                            let nf = self.d.not(f);
                            st.pc = self.d.and(st.pc, nf);
                        }
                        let (def, mut ga) = def.ok_or("formatting routine of an aggregate")?;
                        ga.0[0] = GenericArgKind::Type(xt);
                        let fi = Instance::resolve(def, &ga).map_err(|e| format!("{e:?}"))?;
                        let args = vec![self.scalar(xp, 8), self.scalar(dest, 8)];
                        let before = st.pc;
                        if let Some((r, s2)) = self.call_instance(fi, args, None, st.clone(), 20)? {
                            let r = self.cell_at(&r, 0);
                            let e = self.d.map1(r, &mut |d, l| match l { Leaf::Int(v, _) => d.boolean(*v != 0), _ => UNDEF });
                            let g = self.d.and(before, e);
                            failed = self.d.or(failed, g);
                            let nf = self.d.not(e);
                            st.pc = self.d.and(s2.pc, nf);
                            if !self.feas(st.pc) { break; }
                        } else { return Ok(Hook::Done(None)); }
                    }
                }
            }
            let f = self.output_event(&st, dest, what, vals);
            let g = self.d.and(st.pc, f);
            failed = self.d.or(failed, g);
            // Result<(), fmt::Error>: the tag byte is 1 on error
            let one = self.d.int(1, 1);
            let zero = self.d.int(0, 1);
            let t = self.d.ite(failed, one, zero);
            return Ok(Hook::Done(Some((self.scalar(t, 1), st0))));
        }
        if last == "fmt" && v.len() == 2 && full.contains("fmt::Arguments<") {
            if let TyKind::RigidTy(RigidTy::Ref(_, t, _)) = &*self.kind(tys[0]) {
                let p = self.cell_at(&v[0], 0);
                let a = self.read(&st, p, *t)?;
                return self.fmt_hook("core::fmt::Formatter::write_fmt", inst, &[v[1].clone(), a], &[tys[1], *t], dty, st);
            }
        }
        // the formatting routine of a primitive, called directly
        if last == "fmt" && v.len() == 2 && !self.is_repo_fn(inst) {
            if let TyKind::RigidTy(RigidTy::Ref(_, t, _)) = &*self.kind(tys[0]) {
                let p = self.cell_at(&v[0], 0);
                let (_, xt, x) = self.deref_all(&st, p, *t)?;
                if x.is_some() || self.kind(xt).is_str() {
                    let dest = self.cell_at(&v[1], 0);
                    let vals = if self.is_float(xt) { x.into_iter().collect() } else { vec![] };
                    let f = self.output_event(&st, dest, "value".into(), vals);
                    let one = self.d.int(1, 1);
                    let zero = self.d.int(0, 1);
                    let t = self.d.ite(f, one, zero);
                    return Ok(Hook::Done(Some((self.scalar(t, 1), st))));
                }
            }
        }
        let _ = (inst, dty);
        if self.has_mir(inst) { return Ok(Hook::Pass(st)); }
        err(format!("formatting routine {full}"))
    }
    /// one write to the destination; the result says whether it fails
    fn output_event(&mut self, st: &State, dest: Dd, what: String, vals: Vec<Dd>) -> Dd {
        self.opaque_n += 1;
        let fail = self.d.bool_var(&format!("output{}_fails", self.opaque_n));
        self.fmt_events.push(FmtEvent { pc: st.pc, dest, what, vals, fail: Some(fail) });
        fail
    }
    fn is_repo_fn(&mut self, i: Instance) -> bool { self.body_of(i).map_or(false, |b| b.repo) }
    /// the routine a `rt::Argument::new_*` function stores
    fn fmt_routine(&mut self, inst: Instance) -> Option<(rustc_public::ty::FnDef, GenericArgs)> {
        use rustc_public::mir::visit::MirVisitor;
        struct F(Option<(rustc_public::ty::FnDef, GenericArgs)>);
        impl MirVisitor for F {
            fn visit_const_operand(&mut self, c: &rustc_public::mir::ConstOperand, _: rustc_public::mir::visit::Location) {
                if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.const_.ty().kind() { if d.name().ends_with("::fmt") { self.0 = Some((d, a)); } }
            }
        }
        let b = inst.body()?;
        let mut f = F(None);
        f.visit_body(&b);
        f.0
    }
    fn raw_bytes(&mut self, p: Dd) -> Option<Vec<u8>> {
        let Some(Leaf::Ptr(Base::Global(g), o)) = self.d.get(p).cloned() else { return None };
        let a = self.global_alloc(g)?;
        a.bytes.iter().skip(o as usize).map(|b| *b).collect()
    }
    /// the argument indices of the placeholders of a format template, in order (encoding: core::fmt::Arguments)
    fn template_args(&mut self, p: Dd) -> Option<Vec<usize>> {
        let b = self.raw_bytes(p)?;
        let u16at = |i: usize| Some(*b.get(i)? as usize | (*b.get(i + 1)? as usize) << 8);
        let (mut i, mut next, mut out) = (0usize, 0usize, vec![]);
        loop {
            let n = *b.get(i)?;
            i += 1;
            if n == 0 { return Some(out); }
            if n < 0x80 { i += n as usize; continue; }
            if n == 0x80 { i += 2 + u16at(i)?; continue; }
            if n < 0xC0 { return None; }
            if n & 1 != 0 { i += 4; }
            if n & 2 != 0 { i += 2; }
            if n & 4 != 0 { i += 2; }
            if n & 8 != 0 { next = u16at(i)?; i += 2; }
            out.push(next);
            next += 1;
        }
    }
    /// follow references: (pointer, type, scalar value if the type is a scalar)
    fn deref_all(&mut self, st: &State, p: Dd, t: Ty) -> R<(Dd, Ty, Option<Dd>)> {
        match &*self.kind(t) {
            TyKind::RigidTy(RigidTy::Ref(_, t2, _)) => { let v = self.read(st, p, t)?; let q = self.cell_at(&v, 0); self.deref_all(st, q, *t2) }
            TyKind::RigidTy(RigidTy::Float(_) | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Bool | RigidTy::Char) => { let v = self.read(st, p, t)?; Ok((p, t, Some(v.c[0].1.v))) }
            _ => Ok((p, t, None)),
        }
    }
    fn has_mir(&mut self, i: Instance) -> bool { self.body_of(i).is_some() }

    // -------------------------------------------------------------- rule vocabulary
    fn str_of(&mut self, v: &Val) -> String {
        let p = self.cell_at(v, 0);
        let n = self.cell_at(v, 8);
        let n = match self.d.get(n) { Some(Leaf::Int(n, _)) => *n as usize, _ => 0 };
        self.bytes_at(p).map(|s| s.chars().take(n).collect()).unwrap_or_default()
    }
    fn rule_call(&mut self, n: &str, inst: Instance, v: &[Val], _tys: &[Ty], dty: Ty, mut st: State) -> R<Hook> {
        let done = |st: State| Ok(Hook::Done(Some((Val::default(), st))));
        match n {
            "eq" => {
                let t = self.targ(&inst, 0)?;
                let (p, q) = (self.cell_at(&v[0], 0), self.cell_at(&v[1], 0));
                let (a, b) = (self.read(&st, p, t)?, self.read(&st, q, t)?);
                self.eq_no += 1;
                let mut sc = vec![];
                self.scalars(t, "", 0, &mut sc)?;
                if sc.is_empty() { return err("eq on a type without components"); }
                for (path, off, _, _) in sc {
                    let ca = a.c.iter().find(|x| x.0 == off).map(|x| x.1);
                    let cb = b.c.iter().find(|x| x.0 == off).map(|x| x.1);
                    let (x, y) = (ca.map_or(UNDEF, |c| c.v), cb.map_or(UNDEF, |c| c.v));
                    self.oblige_eq(&st, &path, x, y, ca.map_or(0, |c| c.org));
                }
                done(st)
            }
            "holds" => { self.eq_no += 1; let x = self.sc(&v[0])?; self.oblige_holds(&st, x); done(st) }
            "assume" => {
                let x = self.sc(&v[0])?;
                let x = self.d.map1(x, &mut |d, l| match l { Leaf::Int(v, _) => d.boolean(*v != 0), _ => FALSE });
                st.pc = self.d.and(st.pc, x);
                if !self.feas(st.pc) { return Ok(Hook::Done(None)); }
                done(st)
            }
            "sqr_is" => {
                let (x, y) = (self.sc(&v[0])?, self.sc(&v[1])?);
                match (self.d.get(x).cloned(), self.d.get(y).cloned()) {
                    (Some(Leaf::Num(p)), Some(Leaf::Num(q))) => { self.d.alg.set_square(p, q)?; self.d.declare_nonneg(q); }
                    _ => return err("sqr_is on gated values"),
                }
                done(st)
            }
            "rounding" => { self.d.tr.on = true; done(st) }
            "accurate" | "relative" => {
                let t = self.targ(&inst, 0)?;
                let p = self.cell_at(&v[0], 0);
                let a = self.read(&st, p, t)?;
                let k = self.sc(&v[1])?;
                let k = match self.d.get(k).cloned() { Some(Leaf::Num(p)) => self.d.alg.as_const(p), _ => None }.ok_or("accurate: bound")?;
                self.eq_no += 1;
                let mut sc = vec![];
                self.scalars(t, "", 0, &mut sc)?;
                if sc.is_empty() { return err("accurate on a type without components"); }
                for (path, off, _, _) in sc {
                    let ca = a.c.iter().find(|x| x.0 == off).map(|x| x.1);
                    self.oblige_accurate(&st, &path, ca.map_or(UNDEF, |c| c.v), rat_f64(&k), n == "relative", ca.map_or(0, |c| c.org));
                }
                done(st)
            }
            "label" => { let s = self.str_of(&v[0]); self.label = s; done(st) }
            "within" => {
                let x = self.sc(&v[0])?;
                let mut b = [0.0; 2];
                for i in 0..2 {
                    let y = self.sc(&v[1 + i])?;
                    let Some(Leaf::Num(q)) = self.d.get(y).cloned() else { return err("within: bound") };
                    b[i] = if q == self.d.alg.pi() { std::f64::consts::PI.next_up() } else { rat_f64(&self.d.alg.as_const(q).ok_or("within: bound")?) };
                }
                let Some(Leaf::Num(p)) = self.d.get(x).cloned() else { return err("within on a gated value") };
                let pp = self.d.alg.poly(p);
                if pp.t.len() != 1 || !num_traits::One::is_one(&pp.t[0].1) || pp.t[0].0 .0.len() != 1 || pp.t[0].0 .0[0].1 != 1 { return err("within on something that is not an input"); }
                self.d.declare_range(pp.t[0].0 .0[0].0, b[0], b[1]);
                done(st)
            }
            "budget" => {
                // how large expressions may get before they are identified by fingerprint only
                let n = self.sc(&v[0])?;
                let Some(Leaf::Int(n, _)) = self.d.get(n).cloned() else { return err("budget") };
                self.d.alg.len_cap = n as usize;
                self.d.alg.mul_cap = 10 * n as usize;
                self.d.alg.clear_cap = 5 * n as usize;
                done(st)
            }
            "any_values" | "any_values_forget" => { self.d.set_opaque(n == "any_values_forget"); done(st) }
            "partial" => { self.total = false; self.d.poison = false; done(st) }
            "margin" => { self.margin = Some(self.sc(&v[0])?); self.total_sqrt = true; done(st) }
            "total" => { self.total_sqrt = true; done(st) }
            "may_panic" => { let s = self.str_of(&v[0]); self.allow.push(s); done(st) }
            "input" => {
                // fresh symbolic scalar with the given name
                let s = self.str_of(&v[0]);
                let t = dty;
                let val = self.input_val(&mut st, t, &s)?;
                Ok(Hook::Done(Some((val, st))))
            }
            "diverges" => {
                // the code must not get here
                self.eq_no += 1;
                self.oblige_holds(&st, FALSE);
                Ok(Hook::Done(None))
            }
            "fmt_begin" => { self.fmt_events.clear(); self.io_events.clear(); done(st) }
            "fmt_dest" => {
                // a reference to an abstract destination: &mut Formatter or &mut dyn Write
                let a = self.new_alloc();
                let p = self.ptr(a, 0);
                self.fmt_target = Some(p);
                let val = self.scalar(p, 8);
                Ok(Hook::Done(Some((val, st))))
            }
            "fmt_check" => {
                // fmt_check(&[values in order], result_is_err: bool)
                let t = self.targ(&inst, 0)?;
                let p = self.cell_at(&v[0], 0);
                let val = self.read(&st, p, t)?;
                let mut sc = vec![];
                self.scalars(t, "", 0, &mut sc)?;
                let want: Vec<Dd> = sc.iter().map(|s| val.c.iter().find(|x| x.0 == s.1).map_or(UNDEF, |x| x.1.v)).collect();
                let is_err = self.sc(&v[1])?;
                self.oblige_fmt(&st, &want, is_err);
                done(st)
            }
            _ => err(format!("unknown rule primitive {n}")),
        }
    }
    fn key(&self, path: &str) -> String {
        format!("{}#{}{}{}", self.rule_name, self.eq_no, if self.label.is_empty() { String::new() } else { format!("[{}]", self.label) }, path)
    }
    fn oblige_eq(&mut self, st: &State, path: &str, got: Dd, want: Dd, org: u32) {
        let key = self.key(path);
        if got == want && got != UNDEF { self.obs.push(Ob { key, ok: true, detail: String::new(), method: "value-number" }); return; }
        let eqd = self.d.op2("oeq", 0, got, want, &mut |d, a, b| d.boolean(a == b && *a != Leaf::Undef));
        let ne = self.d.not(eqd);
        let bad = self.d.and(st.pc, ne);
        if bad == FALSE { self.obs.push(Ob { key, ok: true, detail: String::new(), method: "gated" }); return; }
        let mut budget = 100_000usize;
        let cex = self.d.paths(bad, &mut budget, &mut |d, path| {
            let (g, w) = (d.eval_path(got, path), d.eval_path(want, path));
            match (d.get(g).cloned(), d.get(w).cloned()) {
                (Some(Leaf::Num(a)), Some(Leaf::Num(b))) => a != b && !d.equal_on(path, Some((a, b))),
                _ => !d.equal_on(path, None),
            }
        });
        match cex {
            None => self.obs.push(Ob { key, ok: true, detail: String::new(), method: "path-conditions" }),
            Some(p) => {
                let (g, w) = (self.d.eval_path(got, &p), self.d.eval_path(want, &p));
                let detail = format!("when {}: got {} (computed at {}), rule requires {}", self.d.show_path(&p), self.d.show_leaf(g), self.show_org(org), self.d.show_leaf(w));
                self.obs.push(Ob { key, ok: false, detail, method: "violated" });
            }
        }
    }
    fn oblige_accurate(&mut self, st: &State, path: &str, x: Dd, k: f64, relative: bool, org: u32) {
        let key = self.key(path);
        let pick = |e: crate::round::Err| if relative { e.r } else { e.e };
        let word = if relative { "relative" } else { "absolute" };
        let mut worst: f64 = 0.0;
        let mut bad = None;
        // without path conditions first
        let mut memo = Default::default();
        for l in self.d.leaves(x) {
            let lf = self.d.get(l).cloned().unwrap();
            let e = match self.d.tr_of(&lf) { Some((_, t)) => pick(self.d.tr_eval(t, &PathCtx::default(), &mut memo)), None => f64::INFINITY };
            if e <= k { worst = worst.max(e); continue; }
            let here = self.d.map1(x, &mut |d, m| d.boolean(*m == lf));
            let cond = self.d.and(st.pc, here);
            let mut budget = 20_000usize;
            let mut seen: f64 = 0.0;
            let cex = self.d.paths(cond, &mut budget, &mut |d, path| {
                if d.equal_on(path, None) { return false; }
                let Some((_, t)) = d.tr_of(&lf) else { return true };
                let mut cx = PathCtx::default();
                for _ in 0..3 { for &(v, j) in path { if !d.assume_sign(&mut cx, v, j) { return false; } } }
                let e = pick(d.tr_eval(t, &cx, &mut Default::default()));
                seen = seen.max(e);
                e > k
            });
            worst = worst.max(seen);
            if let Some(p) = cex { bad = Some((p, l)); break; }
        }
        match bad {
            None => self.obs.push(Ob { key, ok: true, detail: format!("{word} error at most {worst:.1} of {k} u"), method: "rounding-error" }),
            Some((p, l)) => {
                let at = self.show_org(org);
                let detail = format!("when {}: the {word} rounding error of the value {} (computed at {at}) is bounded by {worst:.1} units only, the rule requires {k}", self.d.show_path(&p), self.d.show_leaf(l).chars().take(300).collect::<String>());
                self.obs.push(Ob { key, ok: false, detail, method: "violated" });
            }
        }
    }
    fn oblige_holds(&mut self, st: &State, c: Dd) {
        let key = self.key("");
        let nc = self.d.map1(c, &mut |d, l| match l { Leaf::Int(v, _) => d.boolean(*v == 0), _ => TRUE });
        let bad = self.d.and(st.pc, nc);
        if bad == FALSE { self.obs.push(Ob { key, ok: true, detail: String::new(), method: "gated" }); return; }
        let mut budget = 100_000usize;
        match self.d.paths(bad, &mut budget, &mut |d, path| !d.equal_on(path, None)) {
            None => self.obs.push(Ob { key, ok: true, detail: String::new(), method: "path-conditions" }),
            Some(p) => {
                let detail = format!("condition required by the rule is false when {}", self.d.show_path(&p));
                self.obs.push(Ob { key, ok: false, detail, method: "violated" });
            }
        }
    }
    /// panics recorded while the rule ran, minus the ones it allows
    pub fn finish_panics(&mut self) {
        let ds = std::mem::take(&mut self.diverges);
        for x in &ds {
            if self.allow.iter().any(|a| a == "*" || x.what.contains(a.as_str()) || x.at.contains(a.as_str())) { continue; }
            let mut budget = 50_000usize;
            if let Some(p) = self.d.paths(x.pc, &mut budget, &mut |d, path| !d.equal_on(path, None)) {
                let detail = format!("{} at {} when {} (via {})", x.what, x.at, self.d.show_path(&p), x.stack);
                let key = format!("{}!panic@{}", self.rule_name, x.at.split(" (").next().unwrap_or(""));
                self.obs.push(Ob { key, ok: false, detail, method: "violated" });
            }
        }
        if self.total && self.total_ops > 0 {
            let key = format!("{}!domain", self.rule_name);
            let n = self.total_ops;
            self.obs.push(Ob { key, ok: true, detail: format!("{n} operations with a restricted domain were examined"), method: "path-conditions" });
        }
        for (pc, w) in std::mem::take(&mut self.io_events) {
            if self.feas(pc) {
                let key = format!("{}!effect", self.rule_name);
                self.obs.push(Ob { key, ok: false, detail: format!("observable effect: {w}"), method: "violated" });
            }
        }
    }
    fn oblige_fmt(&mut self, st: &State, want: &[Dd], is_err: Dd) {
        self.eq_no += 1;
        let evs = self.fmt_events.clone();
        let target = self.fmt_target.unwrap_or(UNDEF);
        // every event goes to the destination
        for (i, e) in evs.iter().enumerate() {
            let ok = e.dest == target;
            let key = self.key(&format!(".destination{i}"));
            self.obs.push(Ob { key, ok, detail: if ok { String::new() } else { format!("output event {} is not written to the given formatter", e.what) }, method: if ok { "event-trace" } else { "violated" } });
        }
        // values in order on the path where nothing fails
        let mut nofail = st.pc;
        for e in &evs { if let Some(f) = e.fail { let n = self.d.not(f); nofail = self.d.and(nofail, n); } }
        let mut flat: Vec<Dd> = vec![];
        for e in &evs {
            let c = self.d.not(e.pc);
            let miss = self.d.and(nofail, c);
            if self.feas(miss) { let key = self.key(".always"); self.obs.push(Ob { key, ok: false, detail: format!("output event {} is skipped although no write failed", e.what), method: "violated" }); }
            flat.extend(e.vals.iter().copied());
        }
        let key = self.key(".count");
        let ok = flat.len() == want.len();
        self.obs.push(Ob { key, ok, detail: if ok { String::new() } else { format!("{} values written, {} components", flat.len(), want.len()) }, method: if ok { "event-trace" } else { "violated" } });
        for (i, w) in want.iter().enumerate() {
            let g = flat.get(i).copied().unwrap_or(UNDEF);
            let s = State { mem: Default::default(), pc: nofail };
            self.oblige_eq(&s, &format!(".value{i}"), g, *w, 0);
        }
        // error iff some reached write failed
        let mut any = FALSE;
        for e in &evs { let x = self.d.and(e.pc, e.fail.unwrap()); any = self.d.or(any, x); }
        let s = State { mem: Default::default(), pc: st.pc };
        self.oblige_eq(&s, ".error", is_err, any, 0);
        // nothing is written after a failed write
        let mut failed = FALSE;
        for (i, e) in evs.iter().enumerate() {
            let x = self.d.and(failed, e.pc);
            let key = self.key(&format!(".after_failure{i}"));
            let bad = self.feas(x);
            self.obs.push(Ob { key, ok: !bad, detail: if bad { format!("{} written after a failed write", e.what) } else { String::new() }, method: if bad { "violated" } else { "event-trace" } });
            let y = self.d.and(e.pc, e.fail.unwrap());
            failed = self.d.or(failed, y);
        }
    }

    // -------------------------------------------------------------- intrinsics
    fn intrinsic(&mut self, fr: &Frame, n: &str, inst: Instance, v: &[Val], tys: &[Ty], dty: Ty, mut st: State, span: Span) -> R<Hook> {
        let ok = |val: Val, st: State| Ok(Hook::Done(Some((val, st))));
        let dsz = self.size(dty).unwrap_or(0) as u8;
        // float operations: strip the width
        let base = n.trim_end_matches("f64").trim_end_matches("f32");
        let fl = !tys.is_empty() && self.is_float(tys[0]);
        if fl {
            let x = self.sc(&v[0])?;
            let y = if v.len() > 1 { self.sc(&v[1])? } else { UNDEF };
            match base { "sqrt" | "log" => self.in_domain(st.pc, base, x), "log2" | "log10" => self.in_domain(st.pc, "log", x), "pow" => self.pow_domain(st.pc, x, y), "powi" => if let Some(Leaf::Int(k, _)) = self.d.get(y).cloned() { if (k as u32 as i32) < 0 { self.in_domain(st.pc, "div", x); } }, "fdiv_fast" | "fdiv_algebraic" => self.in_domain(st.pc, "div", y), _ => {} }
            let d = &mut self.d;
            let r = match base {
                "sqrt" => Some(d.f_sqrt(x)),
                "sin" => Some(d.f_sin(x)),
                "cos" => Some(d.f_cos(x)),
                "tan" => Some(d.f_tan(x)),
                "exp" => Some(d.f_exp(x)),
                "exp2" => { let l = d.f_const(rat(2, 1)); Some(d.f_powf(l, x)) }
                "log" => Some(d.f_ln(x)),
                "log2" => Some(d.f_log(x, 2)),
                "log10" => Some(d.f_log(x, 10)),
                "fabs" => Some(d.f_abs(x)),
                "minnum" | "minimum" | "minimum_number_nsz" | "minnum_nsz" | "minimum_number" => Some(d.f_min(x, y)),
                "maxnum" | "maximum" | "maximum_number_nsz" | "maxnum_nsz" | "maximum_number" => Some(d.f_max(x, y)),
                "copysign" => Some(d.f_copysign(x, y)),
                "pow" => Some(d.f_powf(x, y)),
                "powi" => match d.get(y) { Some(Leaf::Int(k, _)) => { let k = *k as u32 as i32 as i64; Some(d.f_powi(x, k)) } _ => return err("powi with unknown exponent") },
                "fma" | "fmuladd" => { let z = self.sc(&v[2])?; let m = self.d.f_mul(x, y); Some(self.d.f_add(m, z)) }
                "floor" => Some(d.f_const_fun("floor", x, |r| r.floor())),
                "ceil" => Some(d.f_const_fun("ceil", x, |r| r.ceil())),
                "trunc" => Some(d.f_const_fun("trunc", x, |r| r.trunc())),
                "round" | "round_ties_even" | "rint" | "nearbyint" => Some(d.f_const_fun("round", x, |r| r.round())),
                "fadd_fast" | "fadd_algebraic" => Some(d.f_add(x, y)),
                "fsub_fast" | "fsub_algebraic" => Some(d.f_sub(x, y)),
                "fmul_fast" | "fmul_algebraic" => Some(d.f_mul(x, y)),
                "fdiv_fast" | "fdiv_algebraic" => Some(d.f_div(x, y)),
                _ => None,
            };
            if let Some(r) = r { let s = self.scalar(r, dsz); return ok(s, st); }
        }
        let kint = |s: &mut Interp, t: Ty| -> (bool, u8) { let k = s.kind(t); (k.is_signed(), s.size(t).unwrap_or(8) as u8) };
        match n {
            "size_of" => { let t = self.targ(&inst, 0)?; let s = self.size(t)?; let r = self.usize_val(s); ok(r, st) }
            "align_of" | "min_align_of" | "pref_align_of" => { let t = self.targ(&inst, 0)?; let a = self.layout(t)?.abi_align; let r = self.usize_val(a); ok(r, st) }
            "needs_drop" => { let t = self.targ(&inst, 0)?; let b = !Instance::resolve_drop_in_place(t).is_empty_shim(); let b = self.d.boolean(b); let r = self.bool_val(b); ok(r, st) }
            "size_of_val" => {
                let t = self.targ(&inst, 0)?;
                match &*self.kind(t) {
                    TyKind::RigidTy(RigidTy::Slice(e)) => { let es = self.size(*e)?; let m = self.cell_at(&v[0], 8); let r = self.d.map1(m, &mut |d, l| match l { Leaf::Int(n, _) => d.int(n * es as u128, 8), _ => UNDEF }); let r = self.scalar(r, 8); ok(r, st) }
                    _ => { let s = self.size(t)?; let r = self.usize_val(s); ok(r, st) }
                }
            }
            "transmute" | "transmute_unchecked" => { let r = self.cast(&CastKind::Transmute, v[0].clone(), tys[0], dty)?; ok(r, st) }
            "forget" | "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" | "prefetch_read_data" | "drop_in_place" => ok(Val::default(), st),
            "black_box" | "likely" | "unlikely" => ok(v[0].clone(), st),
            "is_val_statically_known" | "ub_checks" | "contract_checks" | "overflow_checks" => { let r = self.bool_val(FALSE); ok(r, st) }
            "unreachable" | "abort" => { self.diverge(&st, n.to_string(), fr, span); Ok(Hook::Done(None)) }
            "caller_location" | "type_name" | "type_id" => { let o = self.opaque(); let r = Val { sz: dsz as u64, c: vec![(0, Cell { sz: 8, v: o, org: 0 })] }; ok(r, st) }
            "select_unpredictable" => {
                let c = self.sc(&v[0])?;
                let mut out = Val { sz: v[1].sz, c: vec![] };
                for (o, a) in &v[1].c { let b = self.cell_at(&v[2], *o); let x = self.d.ite(c, a.v, b); out.c.push((*o, Cell { sz: a.sz, v: x, org: a.org })); }
                ok(out, st)
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let op = match n { "add_with_overflow" => BinOp::Add, "sub_with_overflow" => BinOp::Sub, _ => BinOp::Mul };
                let (s, z) = kint(self, tys[0]);
                let (x, y) = (self.sc(&v[0])?, self.sc(&v[1])?);
                let (r, o) = self.int_op(op, s, z, x, y);
                let (o0, o1) = (self.field_off(dty, 0)?, self.field_off(dty, 1)?);
                ok(Val { sz: dsz as u64, c: vec![(o0, Cell { sz: z, v: r, org: 0 }), (o1, Cell { sz: 1, v: o, org: 0 })] }, st)
            }
            "wrapping_add" | "unchecked_add" | "wrapping_sub" | "unchecked_sub" | "wrapping_mul" | "unchecked_mul" | "unchecked_div" | "exact_div" | "unchecked_rem" | "unchecked_shl" | "unchecked_shr" => {
                let op = if n.ends_with("add") { BinOp::Add } else if n.ends_with("sub") { BinOp::Sub } else if n.ends_with("mul") { BinOp::Mul } else if n.ends_with("div") { BinOp::Div } else if n.ends_with("rem") { BinOp::Rem } else if n.ends_with("shl") { BinOp::Shl } else { BinOp::Shr };
                let (s, z) = kint(self, tys[0]);
                let (x, y) = (self.sc(&v[0])?, self.sc(&v[1])?);
                let (r, _) = self.int_op(op, s, z, x, y);
                let r = self.scalar(r, z);
                ok(r, st)
            }
            "saturating_add" | "saturating_sub" => {
                let (s, z) = kint(self, tys[0]);
                if s { return err("signed saturating arithmetic"); }
                let (x, y) = (self.sc(&v[0])?, self.sc(&v[1])?);
                let (r, o) = self.int_op(if n == "saturating_add" { BinOp::Add } else { BinOp::Sub }, s, z, x, y);
                let sat = if n == "saturating_add" { self.d.int(if z == 16 { u128::MAX } else { (1u128 << (8 * z)) - 1 }, z) } else { self.d.int(0, z) };
                let r = self.d.ite(o, sat, r);
                let r = self.scalar(r, z);
                ok(r, st)
            }
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" | "bswap" => {
                let (_, z) = kint(self, tys[0]);
                let bits = 8 * z as u32;
                let x = self.sc(&v[0])?;
                let nn = n.to_string();
                let r = self.d.map1(x, &mut |d, l| match l {
                    Leaf::Int(a, _) => { let r = match nn.as_str() { "ctpop" => a.count_ones(), "cttz" | "cttz_nonzero" => if *a == 0 { bits } else { a.trailing_zeros() }, "ctlz" | "ctlz_nonzero" => a.leading_zeros() - (128 - bits), _ => return UNDEF }; d.int(r as u128, dsz) }
                    _ => UNDEF,
                });
                let r = self.scalar(r, dsz);
                ok(r, st)
            }
            "three_way_compare" => {
                let (s, z) = kint(self, tys[0]);
                let (x, y) = (self.sc(&v[0])?, self.sc(&v[1])?);
                let (r, _) = self.int_op(BinOp::Cmp, s, z, x, y);
                let r = self.scalar(r, 1);
                ok(r, st)
            }
            "offset" | "arith_offset" => {
                let t = match &*self.kind(tys[0]) { TyKind::RigidTy(RigidTy::RawPtr(t, _)) => *t, _ => return err("offset") };
                let es = self.size(t)?;
                let (p, i) = (self.cell_at(&v[0], 0), self.sc(&v[1])?);
                let r = self.ptr_index(p, i, es as i64);
                let r = self.scalar(r, 8);
                ok(r, st)
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let t = self.targ(&inst, 0)?;
                let es = self.size(t)?.max(1) as i64;
                let (p, q) = (self.cell_at(&v[0], 0), self.cell_at(&v[1], 0));
                let r = self.d.op2("poff", es as u64, p, q, &mut |d, a, b| match (a, b) {
                    (Leaf::Ptr(x, i), Leaf::Ptr(y, j)) if x == y => d.int(((i - j) / es) as u64 as u128, 8),
                    (Leaf::Int(i, _), Leaf::Int(j, _)) => d.int((*i as i64 - *j as i64) as u64 as u128 / es as u128, 8),
                    _ => UNDEF,
                });
                let r = self.scalar(r, 8);
                ok(r, st)
            }
            "copy" | "copy_nonoverlapping" | "volatile_copy_memory" => {
                let t = self.targ(&inst, 0)?;
                self.copy(&mut st, t, v[0].clone(), v[1].clone(), v[2].clone())?;
                ok(Val::default(), st)
            }
            "write_bytes" => err("write_bytes"),
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => { let t = self.targ(&inst, 0)?; let p = self.cell_at(&v[0], 0); let r = self.read(&st, p, t)?; ok(r, st) }
            "write_via_move" | "volatile_store" => { let p = self.cell_at(&v[0], 0); let t = self.targ(&inst, 0)?; let val = Val { sz: self.size(t)?, c: v[1].c.clone() }; self.write(&mut st, p, &val)?; ok(Val::default(), st) }
            "ptr_metadata" => { if v[0].sz == 16 { let m = self.cell_at(&v[0], 8); let r = self.scalar(m, 8); ok(r, st) } else { ok(Val::default(), st) } }
            "aggregate_raw_ptr" => { let p = self.cell_at(&v[0], 0); if dsz == 16 { let m = self.sc(&v[1])?; let r = self.fat(p, m); ok(r, st) } else { let r = self.scalar(p, 8); ok(r, st) } }
            "slice_get_unchecked" => {
                let t = match &*self.kind(dty) { TyKind::RigidTy(RigidTy::RawPtr(t, _) | RigidTy::Ref(_, t, _)) => *t, _ => return err("slice_get_unchecked") };
                let es = self.size(t)?;
                let (p, i) = (self.cell_at(&v[0], 0), self.sc(&v[1])?);
                let r = self.ptr_index(p, i, es as i64);
                let r = self.scalar(r, 8);
                ok(r, st)
            }
            "discriminant_value" => {
                let t = match &*self.kind(tys[0]) { TyKind::RigidTy(RigidTy::Ref(_, t, _)) => *t, _ => return err("discriminant_value") };
                let p = self.cell_at(&v[0], 0);
                let r = self.discr(&st, p, t)?;
                ok(r, st)
            }
            "const_eval_select" => {
                // run the run-time alternative
                let f = match &*self.kind(tys[2]) { TyKind::RigidTy(RigidTy::FnDef(d, a)) => Instance::resolve(*d, a).map_err(|e| format!("{e:?}"))?, _ => return err("const_eval_select") };
                let mut args = vec![];
                let mut at = vec![];
                if let TyKind::RigidTy(RigidTy::Tuple(ts)) = &*self.kind(tys[0]) {
                    for (i, t) in ts.iter().enumerate() { let o = self.field_off(tys[0], i)?; let sz = self.size(*t)?; args.push(self.sub(&v[0], o, sz)); at.push(*t); }
                }
                match self.hook(fr, f, &args, &at, dty, st, span, true)? {
                    Hook::Done(r) => Ok(Hook::Done(r)),
                    Hook::Pass(s) => Ok(Hook::Done(self.call_instance(f, args, Some(at), s, fr.depth + 1)?)),
                }
            }
            "compare_bytes" | "raw_eq" => err(format!("intrinsic {n}")),
            _ => {
                if self.has_mir(inst) { return Ok(Hook::Pass(st)); }
                err(format!("intrinsic {n}"))
            }
        }
    }
}
fn hyp(d: &mut Dds, x: Dd, k: u8) -> Dd {
    let m = d.f_neg(x);
    let (a, b) = (d.f_exp(x), d.f_exp(m));
    let h = d.f_const(rat(1, 2));
    let (s, c) = (d.f_sub(a, b), d.f_add(a, b));
    let (s, c) = (d.f_mul(s, h), d.f_mul(c, h));
    match k { 0 => s, 1 => c, _ => d.f_div(s, c) }
}
