//! C27: dual-quaternion arithmetic.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;

use static_math::dual_quaternion::DualQuaternion;
use static_math::quaternion::Quaternion;
use static_math::vector4::V4;
use num::{One, Zero};
const Z: [f64; 4] = [0.0; 4];
const ONE: [f64; 4] = [1.0, 0.0, 0.0, 0.0];
fn dm(x: [[f64; 4]; 2], y: [[f64; 4]; 2]) -> [[f64; 4]; 2] { [qm(x[0], y[0]), add4(qm(x[0], y[1]), qm(x[1], y[0]))] }
fn flagged(a: [f64; 4], t: [f64; 3]) -> D { unit(a); DualQuaternion::new_from_rot_trans(&fq(a), &v3(t)) }
fn raw(a: [f64; 4], t: [f64; 3]) -> [[f64; 4]; 2] { [a, sc4(qm(pure(t), a), 0.5)] }
pub mod make { use super::*;
    pub fn r_parts(a: [f64; 4], b: [f64; 4]) { let x = DualQuaternion::new(q(a), q(b)); eq(&qa(x.real()), &a); eq(&qa(x.dual()), &b); }
    pub fn r_vecs(a: [f64; 4], b: [f64; 4]) { eq(&da(DualQuaternion::new_from_vecs(&V4::from(a), &V4::from(b))), &[a, b]); }
    pub fn r_one(_t: f64) { eq(&da(DualQuaternion::<f64>::one()), &[ONE, Z]); eq(&da(<D as One>::one()), &[ONE, Z]); }
    pub fn r_zero(_t: f64) { eq(&da(DualQuaternion::<f64>::zero()), &[Z, Z]); eq(&da(<D as Zero>::zero()), &[Z, Z]); }
    pub fn r_is_zero(a: [f64; 4], b: [f64; 4]) {
        let mut z = true;
        let mut i = 0;
        while i < 4 { if a[i] != 0.0 || b[i] != 0.0 { z = false; } i += 1; }
        holds(d(a, b).is_zero() == z);
    }
}
pub mod whole { use super::*; use crate::zint::{z, Z};
    fn zq(a: [f64; 4]) -> Quaternion<Z> { let x = z(a); Quaternion::new_from(x[0], x[1], x[2], x[3]) }
    fn zd(a: [f64; 4], b: [f64; 4]) -> DualQuaternion<Z> { DualQuaternion::new(zq(a), zq(b)) }
    fn zqa(q: Quaternion<Z>) -> [Z; 4] { let v = q.imag(); [q.real(), v[0], v[1], v[2]] }
    fn zda(x: DualQuaternion<Z>) -> [[Z; 4]; 2] { [zqa(x.real()), zqa(x.dual())] }
    fn zz2(x: [[f64; 4]; 2]) -> [[Z; 4]; 2] { [z(x[0]), z(x[1])] }
    pub fn r_arithmetic(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4], s: f64) {
        let (x, y) = (zd(a, b), zd(c, e));
        label("add"); eq(&zda(x + y), &zz2([add4(a, c), add4(b, e)]));
        label("sub"); eq(&zda(x - y), &zz2([add4(a, sc4(c, -1.0)), add4(b, sc4(e, -1.0))]));
        label("neg"); eq(&zda(-x), &zz2([sc4(a, -1.0), sc4(b, -1.0)]));
        label("scale"); eq(&zda(x * Z(s)), &zz2([sc4(a, s), sc4(b, s)]));
        label("product"); eq(&zda(x * y), &zz2(dm([a, b], [c, e])));
        label("conj"); eq(&zda(x.conj()), &zz2([qc(a), qc(b)]));
        label("conj_as_dual"); eq(&zda(x.conj_as_dual()), &zz2([a, sc4(b, -1.0)]));
        label("conj_combined"); eq(&zda(x.conj_combined()), &zz2([qc(a), sc4(qc(b), -1.0)]));
    }
}
pub mod lin { use super::*;
    pub fn r_add(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4]) { eq(&da(d(a, b) + d(c, e)), &[add4(a, c), add4(b, e)]); }
    pub fn r_sub(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4]) { eq(&da(d(a, b) - d(c, e)), &[add4(a, sc4(c, -1.0)), add4(b, sc4(e, -1.0))]); }
    pub fn r_neg(a: [f64; 4], b: [f64; 4]) { eq(&da(-d(a, b)), &[sc4(a, -1.0), sc4(b, -1.0)]); }
    pub fn r_scale(a: [f64; 4], b: [f64; 4], s: f64) { eq(&da(d(a, b) * s), &[sc4(a, s), sc4(b, s)]); }
    pub fn r_flagged(a: [f64; 4], t: [f64; 3], c: [f64; 4], s: f64) {
        let (x, r) = (flagged(a, t), raw(a, t));
        eq(&da(x), &r);
        eq(&da(x + d(c, a)), &[add4(r[0], c), add4(r[1], a)]);
        eq(&da(x - d(c, a)), &[add4(r[0], sc4(c, -1.0)), add4(r[1], sc4(a, -1.0))]);
        eq(&da(-x), &[sc4(r[0], -1.0), sc4(r[1], -1.0)]);
        eq(&da(x * s), &[sc4(r[0], s), sc4(r[1], s)]);
    }
}
pub mod mul { use super::*;
    pub fn r_product(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4]) { eq(&da(d(a, b) * d(c, e)), &dm([a, b], [c, e])); }
    pub fn r_flagged(a: [f64; 4], t: [f64; 3], c: [f64; 4], s: [f64; 3]) { let p = flagged(a, t) * flagged(c, s); eq(&da(p), &dm(raw(a, t), raw(c, s))); }
    pub fn r_unit(a: [f64; 4], b: [f64; 4]) { eq(&da(d(a, b) * DualQuaternion::one()), &[a, b]); eq(&da(DualQuaternion::one() * d(a, b)), &[a, b]); }
    pub fn r_associative(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4], g: [f64; 4], h: [f64; 4]) { eq(&da((d(a, b) * d(c, e)) * d(g, h)), &da(d(a, b) * (d(c, e) * d(g, h)))); }
    pub fn r_dual_unit_squares_to_zero(b: [f64; 4], e: [f64; 4]) { eq(&da(d(Z, b) * d(Z, e)), &[Z, Z]); }
}
pub mod conj { use super::*;
    fn neg(a: [f64; 4]) -> [f64; 4] { sc4(a, -1.0) }
    pub fn r_parts(a: [f64; 4], b: [f64; 4]) {
        eq(&da(d(a, b).conj()), &[qc(a), qc(b)]);
        eq(&da(d(a, b).conj_as_dual()), &[a, neg(b)]);
        eq(&da(d(a, b).conj_combined()), &[qc(a), neg(qc(b))]);
    }
    pub fn r_flagged(a: [f64; 4], t: [f64; 3]) {
        let (x, r) = (flagged(a, t), raw(a, t));
        eq(&da(x.conj()), &[qc(r[0]), qc(r[1])]);
        eq(&da(x.conj_as_dual()), &[r[0], neg(r[1])]);
        eq(&da(x.conj_combined()), &[qc(r[0]), neg(qc(r[1]))]);
    }
    pub fn r_reverse(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4]) {
        let (x, y) = (d(a, b), d(c, e));
        eq(&da((x * y).conj()), &da(y.conj() * x.conj()));
        eq(&da((x * y).conj_combined()), &da(y.conj_combined() * x.conj_combined()));
        eq(&da((x * y).conj_as_dual()), &da(x.conj_as_dual() * y.conj_as_dual()));
    }
    pub fn r_involution(a: [f64; 4], b: [f64; 4]) { eq(&da(d(a, b).conj().conj()), &[a, b]); eq(&da(d(a, b).conj_combined().conj_combined()), &[a, b]); eq(&da(d(a, b).conj_as_dual().conj_as_dual()), &[a, b]); }
    pub fn r_norm(a: [f64; 4], b: [f64; 4]) { eq(&da(d(a, b).norm()), &dm([a, b], [qc(a), qc(b)])); }
    pub fn r_norm_flagged(a: [f64; 4], t: [f64; 3]) { eq(&da(flagged(a, t).norm()), &[ONE, Z]); }
}
pub mod inv { use super::*;
    pub fn r_both_sides(a: [f64; 4], b: [f64; 4]) {
        assume(dotn(&a, &a) > tol(3e-16, 2e-7));
        let x = d(a, b);
        label("right"); eq(&da(x * x.inverse()), &[ONE, Z]);
        label("left"); eq(&da(x.inverse() * x), &[ONE, Z]);
    }
    pub fn r_real_marked(a: [f64; 4], b: [f64; 4]) {
        unit(a);
        let x = DualQuaternion::new(fq(a), q(b));
        eq(&da(x * x.inverse()), &[ONE, Z]); eq(&da(x.inverse() * x), &[ONE, Z]);
    }
    pub fn r_flagged(a: [f64; 4], t: [f64; 3]) { let x = flagged(a, t); eq(&da(x * x.inverse()), &[ONE, Z]); eq(&da(x.inverse() * x), &[ONE, Z]); }
    pub fn r_normalized(a: [f64; 4], b: [f64; 4]) {
        assume(dotn(&a, &a) > tol(3e-16, 2e-7)); budget(300);
        match d(a, b).normalize() { Some(x) => { eq(&da(x * x.inverse()), &[ONE, Z]); } None => diverges() }
    }
    pub fn r_identity(_t: f64) { eq(&da(DualQuaternion::<f64>::one().inverse()), &[ONE, Z]); }
    pub fn r_div(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4]) {
        assume(dotn(&c, &c) > tol(3e-16, 2e-7));
        label("undo"); eq(&da((d(a, b) * d(c, e)) / d(c, e)), &[a, b]);
        label("redo"); eq(&da((d(a, b) / d(c, e)) * d(c, e)), &[a, b]);
    }
    pub fn r_div_is_inverse(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4]) { assume(dotn(&c, &c) > tol(3e-16, 2e-7)); eq(&da(d(a, b) / d(c, e)), &da(d(a, b) * d(c, e).inverse())); }
    pub fn r_div_flagged(a: [f64; 4], b: [f64; 4], c: [f64; 4], s: [f64; 3]) { let y = flagged(c, s); eq(&da((d(a, b) * y) / y), &[a, b]); }
    pub fn r_div_real_marked(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4]) { unit(c); let y = DualQuaternion::new(fq(c), q(e)); eq(&da((d(a, b) * y) / y), &[a, b]); }
    pub fn r_zero_inverse(b: [f64; 4]) { holds(true); may_panic(""); let x = d(Z, b).inverse(); diverges(); let _ = x; }
    pub fn r_zero_div(a: [f64; 4], b: [f64; 4], c: [f64; 4]) { holds(true); may_panic(""); let x = d(a, b) / d(Z, c); diverges(); let _ = x; }
}
