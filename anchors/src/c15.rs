//! C15: quaternion arithmetic.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use crate::zint::*;
use num::{One, Zero};
use static_math::quaternion::Quaternion;
use static_math::vector3::V3;
use static_math::vector4::V4;
type A = [f64; 4];
fn add(a: A, b: A) -> A { add4(a, b) }
pub fn r_new(a: A) {
    eq(&qa(Quaternion::new(a[0], v3([a[1], a[2], a[3]]))), &a);
    eq(&qa(Quaternion::new_from(a[0], a[1], a[2], a[3])), &a);
    eq(&qa(Quaternion::new_from_vec(&V4::new_from(a[0], a[1], a[2], a[3]))), &a);
    eq(&qa(Quaternion::from(a)), &a);
    eq(&qa(Quaternion::new_real(a[0])), &[a[0], 0.0, 0.0, 0.0]);
    eq(&qa(Quaternion::new_imag(&v3([a[1], a[2], a[3]]))), &[0.0, a[1], a[2], a[3]]);
    eq(&qa(Q::one()), &[1.0, 0.0, 0.0, 0.0]);
    eq(&qa(Q::zero()), &[0.0; 4]);
    eq(&qa(<Q as One>::one()), &[1.0, 0.0, 0.0, 0.0]);
    eq(&qa(<Q as Zero>::zero()), &[0.0; 4]);
}
/// inputs with either value of the flag
pub fn r_add(a: Q, b: Q) { eq(&qa(a + b), &add(qa(a), qa(b))); }
pub fn r_sub(a: Q, b: Q) { eq(&qa(a - b), &add(qa(a), sc4(qa(b), -1.0))); }
pub fn r_neg(a: Q) { eq(&qa(-a), &sc4(qa(a), -1.0)); }
pub fn r_scale(a: Q, s: f64) { eq(&qa(a * s), &sc4(qa(a), s)); }
pub fn r_div_scalar(a: Q, s: f64) { assume(s != 0.0); let x = qa(a); eq(&qa(a / s), &[x[0] / s, x[1] / s, x[2] / s, x[3] / s]); }
pub fn r_mul(a: Q, b: Q) { eq(&qa(a * b), &qm(qa(a), qa(b))); }
fn zq(a: A) -> Quaternion<Z> { let x = z(a); Quaternion::new_from(x[0], x[1], x[2], x[3]) }
fn zqa(q: Quaternion<Z>) -> [Z; 4] { let v = q.imag(); [q.real(), v[0], v[1], v[2]] }
pub fn r_whole(a: A, b: A, s: f64) {
    let (x, y) = (zq(a), zq(b));
    label("add"); eq(&zqa(x + y), &z(add(a, b)));
    label("sub"); eq(&zqa(x - y), &z(add(a, sc4(b, -1.0))));
    label("neg"); eq(&zqa(-x), &z(sc4(a, -1.0)));
    label("scale"); eq(&zqa(x * Z(s)), &z(sc4(a, s)));
    label("product"); eq(&zqa(x * y), &z(qm(a, b)));
    label("conj"); eq(&zqa(x.conj()), &z(qc(a)));
    label("dot"); eq(&x.dot(y), &Z(dotn(&a, &b)));
    label("abs2"); eq(&x.abs2(), &Z(dotn(&a, &a)));
}
pub fn r_whole_div(a: A, s: f64) { may_panic("divides by zero"); let x = z(a); eq(&zqa(zq(a) / Z(s)), &[x[0] / Z(s), x[1] / Z(s), x[2] / Z(s), x[3] / Z(s)]); }
pub fn r_units() {
    let (i, j, k) = (q([0.0, 1.0, 0.0, 0.0]), q([0.0, 0.0, 1.0, 0.0]), q([0.0, 0.0, 0.0, 1.0]));
    let m = [-1.0, 0.0, 0.0, 0.0];
    eq(&qa(i * i), &m); eq(&qa(j * j), &m); eq(&qa(k * k), &m); eq(&qa(i * j * k), &m);
    eq(&qa(i * j), &qa(k)); eq(&qa(j * k), &qa(i)); eq(&qa(k * i), &qa(j));
}
pub fn r_associative(a: A, b: A, c: A) { eq(&qa((q(a) * q(b)) * q(c)), &qa(q(a) * (q(b) * q(c)))); }
pub fn r_distributes(a: A, b: A, c: A) { eq(&qa(q(a) * (q(b) + q(c))), &qa(q(a) * q(b) + q(a) * q(c))); eq(&qa((q(a) - q(b)) * q(c)), &qa(q(a) * q(c) - q(b) * q(c))); }
pub fn r_one(a: Q) { eq(&qa(a * Q::one()), &qa(a)); eq(&qa(Q::one() * a), &qa(a)); }
pub fn r_conj(a: Q, b: Q) { let x = qa(a); eq(&qa(a.conj()), &[x[0], -x[1], -x[2], -x[3]]); eq(&qa((a * b).conj()), &qa(b.conj() * a.conj())); }
pub fn r_dot(a: Q, b: Q) { eq(&a.dot(b), &dotn(&qa(a), &qa(b))); }
pub fn r_abs2(a: Q, b: Q) { eq(&a.abs2(), &dotn(&qa(a), &qa(a))); eq(&(a * b).abs2(), &(a.abs2() * b.abs2())); }
pub fn r_norm(a: Q) { let n = a.norm2(); eq(&(n * n), &dotn(&qa(a), &qa(a))); holds(n >= 0.0); }
pub fn r_norm_multiplicative(a: A, b: A) { let (m, n) = (q(a).norm2() * q(b).norm2(), (q(a) * q(b)).norm2()); eq(&(m * m), &(n * n)); }
pub fn r_abs_imag(a: Q) { let n = a.abs_imag(); let x = qa(a); eq(&(n * n), &(x[1] * x[1] + x[2] * x[2] + x[3] * x[3])); holds(n >= 0.0); }
pub fn r_inverse(a: A) {
    match q(a).inverse() {
        Some(r) => { label("right"); eq(&qa(q(a) * r), &[1.0, 0.0, 0.0, 0.0]); label("left"); eq(&qa(r * q(a)), &[1.0, 0.0, 0.0, 0.0]); }
        None => { label("none"); holds(dotn(&a, &a) < tol(1e-12, 1e-6)); }
    }
}
pub fn r_inverse_unit(a: A) {
    unit(a);
    match fq(a).inverse() {
        Some(r) => { eq(&qa(fq(a) * r), &[1.0, 0.0, 0.0, 0.0]); eq(&qa(r * fq(a)), &[1.0, 0.0, 0.0, 0.0]); }
        None => { label("none"); holds(false); }
    }
}
pub fn r_inverse_zero() { holds(q([0.0; 4]).inverse().is_none()); holds(q([0.0; 4]).normalize().is_none()); holds(Q::zero().inverse().is_none()); }
pub fn r_div(a: A, b: A) {
    assume(dotn(&b, &b) > tol(1e-12, 1e-6));
    let r = q(a) / q(b);
    label("undone"); eq(&qa(r * q(b)), &a);
    label("inverse"); if let Some(i) = q(b).inverse() { eq(&qa(r), &qa(q(a) * i)); } else { holds(false); }
}
pub fn r_div_unit(a: A, b: A) { unit(b); eq(&qa(q(a) / fq(b)), &qm(a, qc(b))); }
pub fn r_normalize(a: A) {
    match q(a).normalize() {
        Some(r) => { let n = q(a).norm2(); eq(&qa(r * n), &a); label("unit"); eq(&dotn(&qa(r), &qa(r)), &1.0); }
        None => { label("none"); holds(dotn(&a, &a) < tol(1e-12, 1e-6)); }
    }
}
pub fn r_normalize_unit(a: A) { unit(a); match fq(a).normalize() { Some(r) => eq(&qa(r), &a), None => holds(false) } }
pub fn r_normalize_q(a: A) {
    assume(dotn(&a, &a) > tol(1e-12, 1e-6));
    let r = q(a).normalize_q(); let n = q(a).norm2();
    eq(&qa(r * n), &a);
    label("unit"); eq(&dotn(&qa(r), &qa(r)), &1.0);
}
pub fn r_argq(a: A) {
    assume(a[1] * a[1] + a[2] * a[2] + a[3] * a[3] > tol(1e-12, 1e-6));
    let r = q(a).argq(); let n = q(a).abs_imag();
    eq(&qa(r * n), &[0.0, a[1], a[2], a[3]]);
    label("square"); eq(&qa(r * r), &[-1.0, 0.0, 0.0, 0.0]);
}
pub fn r_is_zero(a: A) { let z = a[0] == 0.0 && a[1] == 0.0 && a[2] == 0.0 && a[3] == 0.0; holds(q(a).is_zero() == z); }
