//! Self test of the analyser: the standard constructs a rewrite of the library may use (`tools/dev.sh c99`).
use crate::refm::*;
use crate::smrt::*;
use num::Float;
type A = [f64; 4];
fn s4(a: A) -> f64 { a[0] + a[1] + a[2] + a[3] }
pub fn r_chunks(a: [f64; 6]) { let mut s = 0.0; for c in a.chunks(2) { s += c[0] * c[1]; } eq(&s, &(a[0]*a[1]+a[2]*a[3]+a[4]*a[5])); }
pub fn r_chunks_exact(a: [f64; 6]) { let mut s = 0.0; for c in a.chunks_exact(3) { s += c[0] * c[2]; } eq(&s, &(a[0]*a[2]+a[3]*a[5])); }
pub fn r_windows(a: A) { let s = a.windows(2).fold(0.0, |s, w| s + w[0] * w[1]); eq(&s, &(a[0]*a[1]+a[1]*a[2]+a[2]*a[3])); }
pub fn r_step(a: [f64; 6]) { let s: f64 = a.iter().step_by(2).sum(); eq(&s, &(a[0]+a[2]+a[4])); let mut t = 0.0; for i in (0..6).step_by(3) { t += a[i]; } eq(&t, &(a[0]+a[3])); }
pub fn r_rev(a: A) { let mut b = [0.0; 4]; for (i, x) in a.iter().rev().enumerate() { b[i] = *x; } eq(&b, &[a[3],a[2],a[1],a[0]]); let mut c = a; c.reverse(); eq(&c, &b); }
pub fn r_range_rev(a: A) { let mut b = [0.0; 4]; for i in (0..4).rev() { b[3 - i] = a[i]; } for i in (0..=3).rev() { b[i] += a[i]; } eq(&b[0], &(a[3] + a[0])); }
pub fn r_from_fn(a: A) { let b: A = core::array::from_fn(|i| a[3 - i]); eq(&b, &[a[3],a[2],a[1],a[0]]); }
pub fn r_map(a: A) { let b = a.map(|x| x * 2.0); eq(&b[2], &(a[2] * 2.0)); }
pub fn r_zip3(a: A, b: A) { let mut c = [0.0; 4]; c.iter_mut().zip(a.iter().zip(b.iter())).for_each(|(c, (x, y))| *c = x * y); eq(&c[3], &(a[3]*b[3])); }
pub fn r_scan(a: A) { let s = a.iter().scan(0.0, |s, x| { *s += *x; Some(*s) }).last().unwrap(); eq(&s, &s4(a)); }
pub fn r_take_while() { let a = [1.0, 2.0, 5.0, 1.0]; let s: f64 = a.iter().copied().take_while(|x| *x < 3.0).sum(); eq(&s, &3.0); }
pub fn r_skip_while(a: A) { let s: f64 = a.iter().skip(1).take(2).sum(); eq(&s, &(a[1] + a[2])); }
pub fn r_position(a: A) { let p = a.iter().position(|x| *x < 0.0); match p { Some(i) => holds(a[i] < 0.0), None => { let mut i = 0; while i < 4 { holds(a[i] >= 0.0); i += 1; } } } }
pub fn r_any_all(a: A) { let any = a.iter().any(|x| *x < 0.0); let all = a.iter().all(|x| !(*x < 0.0)); holds(any != all); }
pub fn r_max_by(a: [f64; 3]) { let m = a.iter().copied().max_by(|x, y| x.partial_cmp(y).unwrap()).unwrap(); let mut i = 0; while i < 3 { holds(m >= a[i]); i += 1; } }
pub fn r_min_by_idx(a: [f64; 3]) { let (i, m) = a.iter().enumerate().min_by(|x, y| x.1.partial_cmp(y.1).unwrap()).unwrap(); eq(&a[i], m); let mut i = 0; while i < 3 { holds(*m <= a[i]); i += 1; } }
pub fn r_fold_max(a: [f64; 3]) { let m = a.iter().copied().fold(f64::NEG_INFINITY, f64::max); let mut i = 0; while i < 3 { holds(m >= a[i]); i += 1; } }
pub fn r_fold_max_m(a: [f64; 3]) { let m = a.iter().fold(a[0], |m, x| if *x > m { *x } else { m }); let mut i = 0; while i < 3 { holds(m >= a[i]); i += 1; } }
pub fn r_reduce(a: [f64; 3]) { let m = a.into_iter().reduce(|x, y| x + y).unwrap(); eq(&m, &(a[0]+a[1]+a[2])); }
pub fn r_product(a: A) { let p: f64 = a.iter().product(); eq(&p, &(a[0]*a[1]*a[2]*a[3])); }
pub fn r_flat(a: [[f64; 2]; 2]) { let s: f64 = a.iter().flatten().sum(); eq(&s, &(a[0][0]+a[0][1]+a[1][0]+a[1][1])); let t: f64 = a.iter().flat_map(|r| r.iter()).map(|x| x * x).sum(); eq(&t, &(a[0][0]*a[0][0]+a[0][1]*a[0][1]+a[1][0]*a[1][0]+a[1][1]*a[1][1])); let u: f64 = a.concat2(); eq(&u, &s); }
trait C2 { fn concat2(&self) -> f64; }
impl C2 for [[f64; 2]; 2] { fn concat2(&self) -> f64 { self.as_flattened().iter().sum() } }
pub fn r_split(a: A) { let (x, y) = a.split_at(2); eq(&(x[0] + y[0]), &(a[0] + a[2])); let mut b = a; let (p, q) = b.split_at_mut(2); p.swap_with_slice(q); eq(&b, &[a[2],a[3],a[0],a[1]]); }
pub fn r_split_first(a: A) { if let Some((h, t)) = a.split_first() { eq(h, &a[0]); eq(&t[2], &a[3]); } let [x, y, ..] = a; eq(&y, &a[1]); if let [f, .., l] = a { eq(&(f + l), &(a[0] + a[3])); } if let [f, rest @ ..] = &a[..] { eq(&rest[0], &a[1]); let _ = f; } }
pub fn r_rotate(a: A) { let mut b = a; b.rotate_left(1); eq(&b, &[a[1],a[2],a[3],a[0]]); b.rotate_right(2); eq(&b, &[a[3],a[0],a[1],a[2]]); }
pub fn r_fill(a: A) { let mut b = a; b.fill(3.0); eq(&b, &[3.0; 4]); b[1..3].fill(0.0); eq(&b, &[3.0, 0.0, 0.0, 3.0]); b[..2].copy_from_slice(&a[2..]); eq(&b[1], &a[3]); b.clone_from_slice(&a); eq(&b, &a); }
pub fn r_swap(a: A) { let mut b = a; b.swap(0, 3); let t = core::mem::take(&mut b[1]); eq(&t, &a[1]); eq(&b, &[a[3], 0.0, a[2], a[0]]); let (mut x, mut y) = (a[0], a[1]); core::mem::swap(&mut x, &mut y); eq(&x, &a[1]); let z = core::mem::replace(&mut x, 5.0); eq(&z, &a[1]); (x, y) = (y, x); eq(&x, &a[0]); eq(&y, &5.0); }
pub fn r_try(a: A) { fn f(a: A) -> Option<f64> { let x = a.get(1)?; let y = a.get(2).copied()?; if x < &0.0 { return None; } Some(x + y) } match f(a) { Some(v) => eq(&v, &(a[1] + a[2])), None => holds(a[1] < 0.0) } }
pub fn r_result(a: A) { fn f(a: A) -> Result<f64, u8> { let x = a.first().ok_or(3u8)?; if *x < 0.0 { Err(1)? } Ok(x * 2.0) } match f(a) { Ok(v) => eq(&v, &(a[0] * 2.0)), Err(e) => { holds(e == 1); holds(a[0] < 0.0) } } }
pub fn r_option(a: A) { let o = (a[0] > 0.0).then(|| a[1]); let v = o.map(|x| x + 1.0).unwrap_or(a[2]); if a[0] > 0.0 { eq(&v, &(a[1] + 1.0)); } else { eq(&v, &a[2]); } let w = (a[0] > 0.0).then_some(a[1]).map_or(a[3], |x| x * x); if a[0] > 0.0 { eq(&w, &(a[1] * a[1])); } else { eq(&w, &a[3]); } let p = Some(a[0]).filter(|x| *x > 0.0).or(Some(a[1])).unwrap(); if a[0] > 0.0 { eq(&p, &a[0]); } else { eq(&p, &a[1]); } let q = Some(a[0]).zip(Some(a[1])).map(|(x, y)| x * y).unwrap_or_default(); eq(&q, &(a[0] * a[1])); let z = Some(a[0]).and_then(|x| if x > 0.0 { Some(x) } else { None }).is_some_and(|x| x > 0.0); holds(z == (a[0] > 0.0)); }
pub fn r_let_else(a: A) { fn f(o: Option<f64>) -> f64 { let Some(x) = o else { return 7.0 }; x } eq(&f(None), &7.0); eq(&f(Some(a[0])), &a[0]); }
pub fn r_labelled(a: A) { let mut s = 0.0; 'o: for i in 0..4 { for j in 0..4 { if j > i { continue 'o; } if i == 3 { break 'o; } s += a[j]; } } eq(&s, &(a[0]*3.0 + a[1]*2.0 + a[2])); let v = loop { s += 1.0; break s; }; eq(&v, &s); let b = 'b: { if a[0] > 0.0 { break 'b 1.0; } 2.0 }; if a[0] > 0.0 { eq(&b, &1.0); } }
pub fn r_while_let(a: A) { let mut it = a.iter(); let mut s = 0.0; while let Some(x) = it.next() { s += *x; } eq(&s, &s4(a)); let mut it = a.iter().peekable(); let mut t = 0.0; while let Some(x) = it.next() { if it.peek().is_some() { t += *x; } } eq(&t, &(a[0]+a[1]+a[2])); }
pub fn r_matches(a: A) { let c = a[0].partial_cmp(&a[1]); let l = matches!(c, Some(core::cmp::Ordering::Less)); holds(l == (a[0] < a[1])); match a[0].partial_cmp(&0.0) { Some(core::cmp::Ordering::Greater) => holds(a[0] > 0.0), Some(core::cmp::Ordering::Equal) => eq(&a[0], &0.0), Some(core::cmp::Ordering::Less) => holds(a[0] < 0.0), None => diverges() } }
pub fn r_tuple_match(a: A) { let r = match (a[0] > 0.0, a[1] > 0.0) { (true, true) => 1.0, (true, false) => 2.0, (false, _) => 3.0 }; if a[0] <= 0.0 { eq(&r, &3.0); } let g = match a[0] { x if x > 1.0 => 1.0, x if x > 0.0 => x, _ => 0.0 }; holds(g >= 0.0); holds(g <= 1.0); }
pub fn r_float_fns(a: A) { eq(&a[0].mul_add(a[1], a[2]), &(a[0]*a[1]+a[2])); eq(&a[0].powi(3), &(a[0]*a[0]*a[0])); eq(&a[0].abs(), &if a[0] < 0.0 { -a[0] } else { a[0] }); assume(a[1] > 0.0); eq(&a[1].recip(), &(1.0 / a[1])); eq(&a[1].powf(0.5), &a[1].sqrt()); eq(&a[1].powi(-2), &(1.0 / (a[1] * a[1]))); let h = a[0].hypot(a[1]); eq(&(h * h), &(a[0]*a[0]+a[1]*a[1])); let s = a[0].signum(); eq(&(s * a[0].abs()), &a[0]); eq(&a[1].copysign(a[0]), &if a[0] < 0.0 { -a[1] } else { a[1] }); }
pub fn r_float_generic(a: A) { fn g<T: Float>(x: T, y: T) -> (T, T, T, T, T) { (x.mul_add(y, x), x.powi(2), x.max(y), x.min(y), x.hypot(y)) } let (p, q, r, s, t) = g(a[0], a[1]); eq(&p, &(a[0]*a[1]+a[0])); eq(&q, &(a[0]*a[0])); holds(r >= a[0]); holds(r >= a[1]); eq(&(r + s), &(a[0] + a[1])); eq(&(t * t), &(a[0]*a[0]+a[1]*a[1])); }
pub fn r_float_generic2(a: A) { fn g<T: Float>(x: T, y: T) -> (T, T, T, T) { (x.abs_sub(y), x.signum(), x.recip(), x.powf(y)) } assume(a[0] > 0.5); let (_, s, r, _) = g(a[0], a[1]); eq(&s, &1.0); eq(&(r * a[0]), &1.0); fn h<T: Float>(x: T) -> bool { x.is_nan() || x.is_infinite() || !x.is_finite() } holds(!h(a[0])); fn k<T: Float>(x: T) -> T { if x.is_sign_negative() { -x } else { x } } eq(&k(a[1]), &a[1].abs()); }
pub fn r_clamp(a: A) { let c = a[0].clamp(-1.0, 1.0); holds(c <= 1.0); holds(c >= -1.0); let m = a[1].max(-1.0).min(1.0); holds(m <= 1.0); holds(m >= -1.0); let n = num::clamp(a[2], -1.0, 1.0); holds(n <= 1.0); let g = fmax(a[3], 0.0); holds(g >= 0.0); }
fn fmax<T: PartialOrd>(a: T, b: T) -> T { if a >= b { a } else { b } }
pub fn r_sin_cos(t: f64) { let (s, c) = t.sin_cos(); eq(&(s * s + c * c), &1.0); eq(&s, &t.sin()); let (s2, c2) = Float::sin_cos(t); eq(&(s2 - s + c2), &c); assume(c > 0.1); eq(&(t.tan() * c), &s); }
pub fn r_degrees(t: f64) { let d = t.to_degrees().to_radians(); eq(&d.sin(), &t.sin()); }
pub fn r_try_fold(a: A) { let r = a.iter().try_fold(0.0, |s, x| if *x < 0.0 { None } else { Some(s + x) }); match r { Some(v) => eq(&v, &s4(a)), None => holds(a[0] < 0.0 || a[1] < 0.0 || a[2] < 0.0 || a[3] < 0.0) } let q: Result<(), usize> = (0..4).try_for_each(|i| if a[i] < 0.0 { Err(i) } else { Ok(()) }); if let Err(i) = q { holds(a[i] < 0.0); } }
pub fn r_impl_fn(a: A) { fn ap(f: impl Fn(f64) -> f64, x: f64) -> f64 { f(x) } let k = a[1]; eq(&ap(|x| x * k, a[0]), &(a[0]*a[1])); fn dy(f: &dyn Fn(f64) -> f64, x: f64) -> f64 { f(x) } eq(&dy(&|x| x + k, a[0]), &(a[0] + a[1])); fn fp(f: fn(f64, f64) -> f64, x: f64, y: f64) -> f64 { f(x, y) } eq(&fp(f64::max, a[0], a[0]), &a[0]); let fs: [fn(f64) -> f64; 2] = [|x| x + 1.0, |x| x * 2.0]; let mut v = a[0]; for f in fs { v = f(v); } eq(&v, &((a[0] + 1.0) * 2.0)); }
pub fn r_fnmut(a: A) { let mut s = 0.0; let mut add = |x: f64| s += x; add(a[0]); add(a[1]); eq(&s, &(a[0] + a[1])); a.iter().for_each(|x| s -= x); eq(&s, &(-a[2] - a[3])); }
pub fn r_const_generic(a: A) { fn sum<T: Float, const N: usize>(a: &[T; N]) -> T { let mut s = T::zero(); for x in a { s = s + *x; } s } eq(&sum(&a), &s4(a)); fn minor<const N: usize>(a: [[f64; N]; N], r: usize) -> f64 { let mut s = 0.0; for (i, x) in a.iter().enumerate() { if i != r { s += x[0]; } } s } eq(&minor([[a[0], a[1]], [a[2], a[3]]], 0), &a[2]); }
pub fn r_recursion(a: A) { fn f(a: &[f64]) -> f64 { if a.is_empty() { 0.0 } else { a[0] + f(&a[1..]) } } eq(&f(&a), &s4(a)); fn g(n: usize, a: A) -> f64 { match n { 0 => 0.0, n => a[n - 1] + g(n - 1, a) } } eq(&g(4, a), &s4(a)); }
pub fn r_cycle(a: A) { let s: f64 = a.iter().cycle().skip(1).take(4).zip([1.0, 2.0, 3.0, 4.0]).map(|(x, k)| x * k).sum(); eq(&s, &(a[1] + a[2]*2.0 + a[3]*3.0 + a[0]*4.0)); }
pub fn r_iter_fns(a: A) { let mut n = 0; let s: f64 = core::iter::from_fn(|| { if n < 4 { n += 1; Some(a[n - 1]) } else { None } }).sum(); eq(&s, &s4(a)); let t: f64 = core::iter::repeat(a[0]).take(3).sum(); eq(&t, &(a[0]*3.0)); let u: f64 = core::iter::once(a[0]).chain(a[1..].iter().copied()).sum(); eq(&u, &s4(a)); let v = core::iter::successors(Some(a[0]), |x| Some(x * a[0])).nth(2).unwrap(); eq(&v, &(a[0]*a[0]*a[0])); }
pub fn r_iter_misc(a: A) { holds(a.iter().count() == 4); holds(a.len() == 4); holds(a.contains(&a[2])); let l = a.iter().last().unwrap(); eq(l, &a[3]); let nth = a.iter().nth(2).unwrap(); eq(nth, &a[2]); let f = a.iter().find(|x| **x < 0.0); if let Some(x) = f { holds(*x < 0.0); } let fm = a.iter().find_map(|x| if *x < 0.0 { Some(-x) } else { None }); if let Some(x) = fm { holds(x > 0.0); } let s: f64 = a.iter().filter(|x| **x > 0.0).sum(); holds(s >= 0.0); let c = a.iter().filter(|x| **x > 0.0).count(); holds(c <= 4); let rp = a.iter().rposition(|x| *x < 0.0); if let Some(i) = rp { holds(a[i] < 0.0); } }
pub fn r_inspect(a: A) { let mut c = 0; let s: f64 = a.iter().inspect(|_| c += 1).sum(); holds(c == 4); eq(&s, &s4(a)); let (x, y): (f64, f64) = a.iter().fold((0.0, 0.0), |(p, q), v| (p + v, q + v * v)); eq(&x, &s4(a)); eq(&y, &dotn(&a, &a)); }
pub fn r_map_while(a: A) { let s: f64 = a.iter().enumerate().map_while(|(i, x)| if i < 2 { Some(*x) } else { None }).sum(); eq(&s, &(a[0] + a[1])); }
pub fn r_sort(a: [f64; 3]) { let mut b = a; b.sort_unstable_by(|x, y| x.partial_cmp(y).unwrap()); holds(b[0] <= b[1]); holds(b[1] <= b[2]); eq(&(b[0]+b[1]+b[2]), &(a[0]+a[1]+a[2])); }
pub fn r_ne_array(a: A, b: A) { if a == b { eq(&a, &b); } let z = a == [0.0; 4]; if z { eq(&a[3], &0.0); } holds((a != b) == !(a == b)); let c = a[..2] == b[..2]; if c { eq(&a[1], &b[1]); } let it = a.iter().eq(b.iter()); if it { eq(&a[2], &b[2]); } }
pub fn r_array_conv(a: A) { let b: &[f64; 2] = a[1..3].try_into().unwrap(); eq(&b[0], &a[1]); let c: [f64; 2] = a[..2].try_into().unwrap(); eq(&c[1], &a[1]); let d: [f64; 2] = core::array::from_fn(|i| a[2 * i]); eq(&d[1], &a[2]); if let Some(f) = a.first_chunk::<2>() { eq(&f[1], &a[1]); } let e = a.each_ref(); eq(e[1], &a[1]); }
pub fn r_struct(a: A) { #[derive(Clone, Copy, PartialEq, Default)] struct P { x: f64, y: f64 } impl core::ops::Add for P { type Output = P; fn add(self, o: P) -> P { P { x: self.x + o.x, ..P { y: self.y + o.y, x: 0.0 } } } } let p = P { x: a[0], y: a[1] } + P { x: a[2], y: a[3] }; eq(&p.x, &(a[0] + a[2])); let q = P { x: 1.0, ..p }; eq(&q.y, &(a[1] + a[3])); let z = P::default(); eq(&z.x, &0.0); holds((p == q) == (p.x == 1.0)); let s: P = [p, q].iter().copied().fold(P::default(), |x, y| x + y); eq(&s.y, &(2.0 * p.y)); }
pub fn r_enum(a: A) { #[derive(Clone, Copy)] enum E { X(f64), Y { u: f64, v: f64 }, Z } fn f(e: E) -> f64 { match e { E::X(x) => x, E::Y { u, v } => u * v, E::Z => 0.0 } } eq(&f(E::X(a[0])), &a[0]); eq(&f(E::Y { u: a[0], v: a[1] }), &(a[0]*a[1])); let e = if a[0] > 0.0 { E::X(a[1]) } else if a[0] < 0.0 { E::Y { u: a[2], v: a[3] } } else { E::Z }; if a[0] > 0.0 { eq(&f(e), &a[1]); } else if a[0] < 0.0 { eq(&f(e), &(a[2]*a[3])); } else { eq(&f(e), &0.0); } }
pub fn r_trait_assoc(a: A) { trait K { const K: f64; fn k(&self) -> f64 { Self::K } } struct S; impl K for S { const K: f64 = 3.0; } eq(&(S.k() * a[0]), &(3.0 * a[0])); const TAB: [[usize; 2]; 2] = [[0, 1], [2, 3]]; let mut s = 0.0; for r in TAB.iter() { for i in r { s += a[*i]; } } eq(&s, &s4(a)); static ST: [(usize, f64); 2] = [(1, 2.0), (3, -1.0)]; let t: f64 = ST.iter().map(|&(i, k)| a[i] * k).sum(); eq(&t, &(a[1]*2.0 - a[3])); }
pub fn r_int(a: A) { let mut i = 3usize; let mut s = 0.0; loop { s += a[i]; if i == 0 { break; } i = i.saturating_sub(2).min(i - 1); } eq(&s, &(a[3] + a[1] + a[0])); let j = (2usize.wrapping_add(3)) % 4; eq(&a[j], &a[1]); let k = (7u8 >> 1) as usize & 3; eq(&a[k], &a[3]); let m = i32::pow(2, 1) as usize; eq(&a[m], &a[2]); let sg = if (1 + 2) % 2 == 0 { 1.0 } else { -1.0 }; eq(&(a[0] * sg), &(-a[0])); let q = 5usize.checked_sub(3).map(|i| a[i]).unwrap_or(0.0); eq(&q, &a[2]); let w = usize::abs_diff(1, 3); eq(&a[w], &a[2]); holds(3i32.pow(2).rem_euclid(4) == 1); }
pub fn r_box_like(a: A) { let r = &a; let rr = &&a; eq(&rr[1], &r[1]); let c = core::cell::Cell::new(a[0]); c.set(a[1]); eq(&c.get(), &a[1]); let mut o = Some(a[0]); if let Some(x) = o.as_mut() { *x += 1.0; } eq(&o.take().unwrap(), &(a[0] + 1.0)); holds(o.is_none()); let v = o.get_or_insert(a[2]); *v += 1.0; eq(&o.unwrap(), &(a[2] + 1.0)); }
pub fn r_cast(a: A) { let n = 3 as f64; eq(&(a[0] * n), &(a[0] * 3.0)); let t: f64 = num::cast(2).unwrap(); eq(&t, &2.0); let u = <f64 as num::NumCast>::from(4usize).unwrap(); eq(&u, &4.0); let w: f64 = f64::from(3u8); eq(&w, &3.0); let x: f64 = 2.5f32.into(); eq(&x, &2.5); fn g<T: Float>() -> T { T::from(0.25).unwrap() } eq(&g::<f64>(), &0.25); fn h<T: Float>(n: usize) -> T { (0..n).fold(T::zero(), |s, _| s + T::one()) } eq(&h::<f64>(3), &3.0); }
pub fn r_cmp(a: A) { holds(!(a[0] < a[1] && a[1] < a[0])); let o = a[0].total_cmp(&a[1]); let _ = o; let m = if let Some(core::cmp::Ordering::Less) = a[0].partial_cmp(&a[1]) { a[1] } else { a[0] }; holds(m >= a[0]); holds(m >= a[1]); holds((1, 2) < (1, 3)); holds([1, 2, 3].iter().max() == Some(&3)); }
pub fn r_unzip(a: A) { let mut it = a.iter().copied().map(|x| x + 1.0); let b = [it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap()]; eq(&b[3], &(a[3] + 1.0)); let mut o = [0.0; 4]; for (d, s) in o.iter_mut().rev().zip(&a) { *d = *s; } eq(&o[0], &a[3]); let mut g = [[0.0; 2]; 2]; for (i, row) in g.iter_mut().enumerate() { for (j, e) in row.iter_mut().enumerate() { *e = a[2 * i + j]; } } eq(&g[1][0], &a[2]); }
pub fn r_max_total(a: [f64; 3]) { let m = a.iter().copied().max_by(f64::total_cmp).unwrap(); let mut i = 0; while i < 3 { holds(m >= a[i]); i += 1; } }
pub fn r_is_sorted(a: [f64; 3]) { if a.is_sorted() { holds(a[0] <= a[1]); } if a.iter().is_sorted_by(|x, y| x <= y) { holds(a[1] <= a[2]); } }
pub fn r_pow(x: f64, y: f64) { assume(x > 0.0); eq(&x.powf(y), &(y * x.ln()).exp()); eq(&x.log2(), &(x.ln() / (2.0 as f64).ln())); eq(&x.log(10.0), &x.log10()); eq(&x.powf(1.5), &(x * x.sqrt())); fn g<T: Float>(x: T, y: T) -> T { x.powf(y) } eq(&g(x, y), &x.powf(y)); }
pub fn r_widths(x: f64, y: f32) { eq(&(y as f64 + 1.0), &(1.0 + y as f64)); eq(&((0.25f32 as f64) * x), &(0.25 * x)); holds((0.1f32 as f64) > 0.1); holds(core::f32::consts::PI as f64 > core::f64::consts::PI); eq(&(core::f64::consts::PI as f32), &core::f32::consts::PI); }
pub fn r_widths_bad(x: f64) { eq(&(x as f32 as f64), &x); }
pub fn r_widths_bad2(x: f64) { eq(&(x * 3.1415927).sin(), &(x * core::f64::consts::PI).sin()); }
pub fn r_consts(x: f64) { eq(&(core::f64::consts::SQRT_2 * core::f64::consts::SQRT_2 * x), &(2.0 * x)); eq(&(core::f64::consts::FRAC_1_SQRT_2 * x * core::f64::consts::SQRT_2), &x); eq(&x.to_degrees(), &(x * 180.0 / core::f64::consts::PI)); eq(&core::f64::consts::FRAC_PI_3.cos(), &0.5); }
// rounding: the good forms must pass, the rules named bad must fail
fn un(x: &[f64; 2]) { within(x[0], 1.0, 2.0); within(x[1], 1.0, 2.0); rounding(); }
pub fn r_round_sum(a: [f64; 2]) { un(&a); relative(&(a[0] + a[1]), 1.0); relative(&(a[0] * a[1]), 1.0); relative(&(a[0] / a[1]), 1.0); relative(&(a[0] * a[0] + a[1] * a[1]).sqrt(), 2.0); accurate(&(a[0] - a[1]), 1.0); relative(&a[0].powi(3), 2.0); relative(&a[0].hypot(a[1]), 2.0); relative(&a[0].mul_add(a[1], a[0]), 2.0); relative(&(2.0 * a[0]), 0.0); relative(&a.iter().fold(0.0, |s, x| s + x * x), 2.0); relative(&a[0].max(a[1]), 0.0); }
pub fn r_round_sub_bad(a: [f64; 2]) { un(&a); let d = a[0] * a[0] - a[1] * a[1]; relative(&d, 1e9); }
pub fn r_round_sub_ok(a: [f64; 2]) { within(a[0], 3.0, 4.0); within(a[1], 1.0, 2.0); rounding(); relative(&(a[0] * a[0] - a[1] * a[1]), 10.0); }
pub fn r_round_sqrt_bad(a: [f64; 2]) { un(&a); accurate(&(a[0] * a[0] - 2.0 * (a[0] * a[1]) + a[1] * a[1]).abs().sqrt(), 1e9); }
pub fn r_round_acos_bad(t: f64) { within(t, 1e-6, 2e-6); rounding(); relative(&(t.cos().acos()), 1e6); }
pub fn r_round_third_bad(a: f64) { within(a, 1.0, 2.0); rounding(); relative(&(a / 3.0 * 3.0), 1.0); }
pub fn r_round_third(a: f64) { within(a, 1.0, 2.0); rounding(); relative(&(a / 3.0 * 3.0), 2.0); }
pub fn r_round_narrow_bad(a: f64) { within(a, 1.0, 2.0); rounding(); relative(&(a as f32 as f64), tol(1e8, 0.5)); }
pub fn r_round_tenth(a: f64) { within(a, 1.0, 2.0); rounding(); relative(&(a * 0.1), 1.0 + 1.0); }
pub fn r_round_div_bad(a: [f64; 2]) { within(a[0], 1.0, 2.0); within(a[1], 1e-9, 2e-9); rounding(); let m = 1.0 / a[1]; accurate(&(m * a[0] - (m * a[0] - 1.0)), 1e9); }
pub fn r_round_select(a: [f64; 2]) { within(a[0], -1.0, 1.0); within(a[1], 1.0, 2.0); rounding(); let d = if a[0] < 0.0 { a[1] - a[0] } else { a[1] + a[0] }; relative(&d, 1.0); }
pub fn r_ctor(a: A) { let v = Some(a[0]).map(core::num::Wrapping).unwrap().0; eq(&v, &a[0]); let o = a.iter().copied().map(Some).fold(Some(0.0), |s, x| s.zip(x).map(|(p, q)| p + q)); eq(&o.unwrap(), &s4(a)); let r: Result<f64, ()> = Some(a[1]).map_or(Err(()), Ok); eq(&r.unwrap(), &a[1]); struct W(f64, f64); let f: fn(f64, f64) -> W = W; let w = f(a[0], a[1]); eq(&w.1, &a[1]); let m = Some([[a[0], a[1]], [a[2], a[3]]]).map(static_math::M22::new).unwrap(); eq(&m[(1, 0)], &a[2]); let c = [a[0], a[1]].map(core::cmp::Reverse); eq(&c[1].0, &a[1]); let s = (0..4).map(|i| a[i]).step_by(2).map(Some).flatten().sum::<f64>(); eq(&s, &(a[0] + a[2])); }
pub fn r_iter_more(a: A) { let s: f64 = a.iter().step_by(3).sum(); eq(&s, &(a[0] + a[3])); let d: f64 = a.windows(2).map(|w| w[1] - w[0]).sum(); eq(&d, &(a[3] - a[0])); let mut t = 0.0; for x in a.iter().scan(0.0, |st, x| { *st += *x; Some(*st) }) { t = x; } eq(&t, &s4(a)); let p = a.iter().skip(1).take(2).product::<f64>(); eq(&p, &(a[1] * a[2])); let c = a.iter().cycle().skip(1).take(4).copied().fold(0.0, |s, x| s * 2.0 + x); eq(&c, &(8.0*a[1] + 4.0*a[2] + 2.0*a[3] + a[0])); let l = a.iter().last().unwrap(); eq(l, &a[3]); let n = a.iter().nth(2).unwrap(); eq(n, &a[2]); let q = a.chunks_exact(2).map(|p| p[0] * p[1]).sum::<f64>(); eq(&q, &(a[0]*a[1] + a[2]*a[3])); let (x, y) = a.split_at(1); eq(&(x[0] + y[2]), &(a[0] + a[3])); let mut b = a; b.rotate_left(1); eq(&b[3], &a[0]); b.reverse(); eq(&b[0], &a[0]); b.copy_from_slice(&a); b[1..].fill(0.0); eq(&(b[0] + b[3]), &a[0]); let mut it = a.iter().peekable(); let mut g = 0.0; while let Some(x) = it.next() { if it.peek().is_some() { g += *x; } } eq(&g, &(a[0] + a[1] + a[2])); holds(a.iter().position(|x| *x > 5.0).map_or(true, |i| a[i] > 5.0)); let r = a.iter().rev().enumerate().map(|(i, x)| x * [1.0, 2.0, 3.0, 4.0][i]).sum::<f64>(); eq(&r, &(a[3] + 2.0*a[2] + 3.0*a[1] + 4.0*a[0])); let z: f64 = a.iter().zip([1.0, -1.0].iter().cycle()).map(|(x, s)| x * s).sum(); eq(&z, &(a[0] - a[1] + a[2] - a[3])); }
