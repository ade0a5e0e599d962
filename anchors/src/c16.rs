//! C16: a value marked as normalised has unit norm. Inductive: every public operation maps values whose
//! mark is truthful (unmarked, or marked and unit) to values whose mark is truthful, as seen through
//! normalize() and inverse().
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::dual_quaternion::DualQuaternion;
use static_math::quaternion::Quaternion;
use static_math::vector4::V4;
use num::{One, Zero};
const ONE: [f64; 4] = [1.0, 0.0, 0.0, 0.0];
/// the mark of x is truthful
fn sq(x: Q) {
    match x.normalize() { Some(n) => { let n = qa(n); label("normalize"); eq(&dotn(&n, &n), &1.0); } None => {} }
    match x.inverse() { Some(i) => { label("inverse"); eq(&qm(qa(x), qa(i)), &ONE); } None => {} }
}
fn sd(x: D) {
    budget(800);
    may_panic("");
    match x.normalize() { Some(n) => { let [r, s] = da(n); label("dq-normalize"); eq(&dotn(&r, &r), &1.0); label("dq-dual"); eq(&dotn(&r, &s), &0.0); } None => {} }
    let i = da(x.inverse());
    let [a, b] = da(x);
    label("dq-inverse"); eq(&qm(a, i[0]), &ONE); eq(&add4(qm(a, i[1]), qm(b, i[0])), &[0.0; 4]);
    sq(x.real());
    sq(x.dual());
}
// the admissible inputs
fn u(a: [f64; 4]) -> Q { unit(a); fq(a) }
fn d0(a: [f64; 4], b: [f64; 4]) -> D { d(a, b) }
fn d1(a: [f64; 4], b: [f64; 4]) -> D { unit(a); DualQuaternion::new(fq(a), q(b)) }
fn d2(a: [f64; 4], t: [f64; 3]) -> D { unit(a); match d(a, sc4(qm(pure(t), a), 0.5)).normalize() { Some(x) => x, None => loop {} } }
fn d3(a: [f64; 4], t: [f64; 3]) -> D { unit(a); DualQuaternion::new_from_rot_trans(&fq(a), &v3(t)) }
macro_rules! un { ($m:ident, $x:ident => $e:expr) => { pub mod $m { use super::*;
    pub fn r_plain(a: [f64; 4]) { let $x = q(a); sq($e); }
    pub fn r_marked(a: [f64; 4]) { let $x = u(a); sq($e); }
} } }
macro_rules! bi { ($m:ident, $x:ident, $y:ident => $e:expr) => { pub mod $m { use super::*;
    pub fn r_plain(a: [f64; 4], b: [f64; 4]) { let ($x, $y) = (q(a), q(b)); sq($e); }
    pub fn r_left(a: [f64; 4], b: [f64; 4]) { let ($x, $y) = (u(a), q(b)); sq($e); }
    pub fn r_right(a: [f64; 4], b: [f64; 4]) { let ($x, $y) = (q(a), u(b)); sq($e); }
    pub fn r_marked(a: [f64; 4], b: [f64; 4]) { let ($x, $y) = (u(a), u(b)); sq($e); }
} } }
macro_rules! sc { ($m:ident, $x:ident, $s:ident => $e:expr) => { pub mod $m { use super::*;
    pub fn r_plain(a: [f64; 4], $s: f64) { assume($s != 0.0); let $x = q(a); sq($e); }
    pub fn r_marked(a: [f64; 4], $s: f64) { assume($s != 0.0); let $x = u(a); sq($e); }
} } }
un!(neg, x => -x);
un!(conj, x => x.conj());
un!(conj_conj, x => x.conj().conj());
un!(normalize_q, x => x.normalize_q());
un!(normalize_twice, x => match x.normalize() { Some(n) => n, None => return });
un!(inverse, x => match x.inverse() { Some(n) => n, None => return });
un!(argq, x => x.argq());
un!(exp, x => { assume(x.norm2() > tol(1e-9, 1e-6)); x.exp() });
un!(ln, x => { assume(x.norm2() > tol(1e-9, 1e-6)); x.ln() });
/// the rotation angle is not within rounding of zero (where the exponential's mark is right only up to rounding)
fn turned(a: [f64; 4]) { unit(a); let m = (a[1] * a[1] + a[2] * a[2] + a[3] * a[3]).sqrt(); assume(m.atan2(a[0]) > tol(1e-6, 1e-2)); }
macro_rules! roots { ($m:ident, $x:ident => $e:expr) => { pub mod $m { use super::*;
    pub fn r_plain(a: [f64; 4], k: f64) { turned(a); assume(k > tol(1e-9, 1e-6)); let $x = q(sc4(a, k)); sq($e); }
    pub fn r_marked(a: [f64; 4]) { turned(a); let $x = fq(a); sq($e); }
} } }
roots!(sqrt, x => x.sqrt());
roots!(square, x => x.pow(Quaternion::new_real(2.0)));
un!(sin, x => { assume(x.abs_imag() > tol(2e-8, 4e-4)); x.sin() });
un!(cos, x => { assume(x.abs_imag() > tol(2e-8, 4e-4)); x.cos() });
un!(copy, x => x.clone());
bi!(add, x, y => x + y);
bi!(sub, x, y => x - y);
bi!(mul, x, y => x * y);
sc!(scale, x, s => x * s);
sc!(unscale, x, s => x / s);
pub mod div { use super::*;
    pub fn r_plain(a: [f64; 4], b: [f64; 4]) { assume(dotn(&b, &b) > tol(3e-16, 2e-7)); sq(q(a) / q(b)); }
    pub fn r_left(a: [f64; 4], b: [f64; 4]) { assume(dotn(&b, &b) > tol(3e-16, 2e-7)); sq(u(a) / q(b)); }
    pub fn r_right(a: [f64; 4], b: [f64; 4]) { sq(q(a) / u(b)); }
    pub fn r_marked(a: [f64; 4], b: [f64; 4]) { sq(u(a) / u(b)); }
}
pub mod make { use super::*;
    pub fn r_one(_t: f64) { sq(Quaternion::<f64>::one()); sq(<Q as One>::one()); }
    pub fn r_zero(_t: f64) { let z = Quaternion::<f64>::zero(); match z.normalize() { Some(_) => diverges(), None => {} } match z.inverse() { Some(_) => diverges(), None => {} } holds(true); }
    pub fn r_zero_trait(_t: f64) { let z = <Q as Zero>::zero(); match z.normalize() { Some(_) => diverges(), None => {} } match z.inverse() { Some(_) => diverges(), None => {} } holds(true); }
    pub fn r_new(s: f64, v: [f64; 3]) { sq(Quaternion::new(s, v3(v))); }
    pub fn r_new_from(a: [f64; 4]) { sq(Quaternion::new_from(a[0], a[1], a[2], a[3])); }
    pub fn r_from_array(a: [f64; 4]) { sq(Quaternion::from(a)); }
    pub fn r_from_vec(a: [f64; 4]) { sq(Quaternion::new_from_vec(&V4::from(a))); }
    pub fn r_real(s: f64) { sq(Quaternion::new_real(s)); }
    pub fn r_imag(v: [f64; 3]) { sq(Quaternion::new_imag(&v3(v))); }
    pub fn r_rotation(t: f64, v: [f64; 3]) { may_panic(""); sq(Quaternion::rotation(t, &v3(v))); }
    pub fn r_encoded(v: [f64; 3]) { sq(Quaternion::rotation_norm_encoded(&v3(v))); }
    pub fn r_euler(a: f64, b: f64, c: f64) { sq(Quaternion::from_euler_angles(a, b, c)); }
    pub fn r_matrix(a: [f64; 4]) { unit(a); sq(Quaternion::from_rotation(&m3(qmat(a)))); }
    pub fn r_slerp(a: [f64; 4], b: [f64; 4]) { unit(a); unit(b); assume(abs(dotn(&a, &b)) < 1.0); sq(Quaternion::slerp(fq(a), fq(b), 0.0)); }
    pub fn r_slerp_mid(a: [f64; 4], b: [f64; 4]) {
        unit(a); unit(b);
        // the middle of the chord in the nearly parallel branch is shorter than one
        let c = dotn(&a, &b);
        assume(c > 0.0); assume(c < 1.0); assume((1.0 - c * c).sqrt() < 0.0009);
        sq(Quaternion::slerp(fq(a), fq(b), 0.5));
    }
    pub fn r_derivative(a: [f64; 4], w: [f64; 3]) { unit(a); sq(fq(a).derivative(&v3(w))); }
    pub fn r_exp_zero(_t: f64) { sq(Quaternion::<f64>::zero().exp()); }
}
macro_rules! du { ($m:ident, $x:ident => $e:expr) => { pub mod $m { use super::*;
    pub fn r_plain(a: [f64; 4], b: [f64; 4]) { let $x = d0(a, b); sd($e); }
    pub fn r_real(a: [f64; 4], b: [f64; 4]) { let $x = d1(a, b); sd($e); }
    pub fn r_normalized(a: [f64; 4], t: [f64; 3]) { let $x = d2(a, t); sd($e); }
    pub fn r_rigid(a: [f64; 4], t: [f64; 3]) { let $x = d3(a, t); sd($e); }
} } }
macro_rules! db { ($m:ident, $x:ident, $y:ident => $e:expr) => { pub mod $m { use super::*;
    pub fn r_plain(a: [f64; 4], b: [f64; 4], c: [f64; 4], g: [f64; 4]) { let ($x, $y) = (d0(a, b), d0(c, g)); sd($e); }
    pub fn r_left(a: [f64; 4], t: [f64; 3], c: [f64; 4], g: [f64; 4]) { let ($x, $y) = (d3(a, t), d0(c, g)); sd($e); }
    pub fn r_right(a: [f64; 4], t: [f64; 3], c: [f64; 4], g: [f64; 4]) { let ($x, $y) = (d0(c, g), d3(a, t)); sd($e); }
    pub fn r_rigid(a: [f64; 4], t: [f64; 3], c: [f64; 4], g: [f64; 3]) { let ($x, $y) = (d3(a, t), d2(c, g)); sd($e); }
} } }
du!(dneg, x => -x);
du!(dconj, x => x.conj());
du!(dconj_as_dual, x => x.conj_as_dual());
du!(dconj_combined, x => x.conj_combined());
du!(dnorm, x => x.norm());
du!(dinverse, x => { may_panic(""); x.inverse() });
du!(dnormalize, x => match x.normalize() { Some(n) => n, None => return });
du!(dscale, x => x * 3.0);
db!(dadd, x, y => x + y);
db!(dsub, x, y => x - y);
db!(dmul, x, y => x * y);
pub mod dmake { use super::*;
    pub fn r_one(_t: f64) { sd(DualQuaternion::<f64>::one()); sd(<D as One>::one()); }
    pub fn r_zero(_t: f64) { match DualQuaternion::<f64>::zero().normalize() { Some(_) => diverges(), None => {} } match <D as Zero>::zero().normalize() { Some(_) => diverges(), None => {} } holds(true); }
    pub fn r_new_marked(a: [f64; 4], b: [f64; 4]) { sd(DualQuaternion::new(u(a), u(b))); }
    pub fn r_vecs(a: [f64; 4], b: [f64; 4]) { sd(DualQuaternion::new_from_vecs(&V4::from(a), &V4::from(b))); }
    pub fn r_rotation(a: [f64; 4]) { sd(DualQuaternion::new_from_rotation(&q(a))); }
    pub fn r_rotation_marked(a: [f64; 4]) { sd(DualQuaternion::new_from_rotation(&u(a))); }
    pub fn r_point(p: [f64; 3]) { sd(DualQuaternion::new_from_point(&v3(p))); }
    pub fn r_translation(p: [f64; 3]) { sd(DualQuaternion::new_from_translation(&v3(p))); }
    pub fn r_rot_trans(a: [f64; 4], p: [f64; 3]) { may_panic(""); sd(DualQuaternion::new_from_rot_trans(&q(a), &v3(p))); }
    pub fn r_array(a: [f64; 7]) { sd(DualQuaternion::new_from_array(a)); }
    pub fn r_homogeneous(a: [f64; 4], p: [f64; 3]) { unit(a); sd(DualQuaternion::new_from_homogeneous(&m4(homog(qmat(a), p)))); }
    pub fn r_matrix(a: [f64; 4]) { unit(a); sd(DualQuaternion::new_from_rotation_matrix(&m3(qmat(a)))); }
    pub fn r_screw(l: [f64; 3], m: [f64; 3], t: f64, h: f64) { unit3(l); sd(DualQuaternion::new_from_screw_parameters(&v3(l), &v3(m), t, h)); }
}
pub mod dpow { use super::*;
    pub fn r_rigid(a: [f64; 4], t: [f64; 3], e: f64) { assume(a[0] < 1.0); assume(a[0] > -1.0); sd(d3(a, t).pow(e)); }
    pub fn r_translation(t: [f64; 3], e: f64) { sd(DualQuaternion::new_from_translation(&v3(t)).pow(e)); }
    pub fn r_lerp(a: [f64; 4], t: [f64; 3], s: [f64; 3], e: f64) { assume(e > 0.0); assume(e < 1.0); sd(DualQuaternion::screw_lerp(&d3(a, t), &d3(a, s), e)); }
}
pub mod isn { use super::*;
    pub fn r_sound(a: [f64; 4], b: [f64; 4]) {
        let x = d(a, b);
        if x.is_normalized() { let n = dotn(&a, &a); holds(n > 1.0 - tol(1e-8, 1e-5)); holds(n < 1.0 + tol(1e-8, 1e-5)); }
    }
    pub fn r_complete(a: [f64; 4], t: [f64; 3]) { unit(a); holds(d(a, sc4(qm(pure(t), a), 0.5)).is_normalized()); }
    /// the dual part of the norm vanishes
    pub fn r_dual(a: [f64; 4], k: f64) { unit(a); assume(k * k > 0.0001); holds(!d(a, sc4(a, k)).is_normalized()); }
    pub fn r_dual_offset(a: [f64; 4], k: f64, t: [f64; 3]) {
        unit(a); within(k, 0.1, 1.0); within(t[0], -1.0, 1.0); within(t[1], -1.0, 1.0); within(t[2], -1.0, 1.0);
        let b = sc4(qm(pure(t), a), 0.5);
        holds(!d(a, [b[0] + k * a[0], b[1] + k * a[1], b[2] + k * a[2], b[3] + k * a[3]]).is_normalized());
    }
    pub fn r_marked(a: [f64; 4], t: [f64; 3]) { holds(d3(a, t).is_normalized()); holds(d2(a, t).is_normalized()); }
    pub fn r_zero(b: [f64; 4]) { holds(!d([0.0; 4], b).is_normalized()); }
}
