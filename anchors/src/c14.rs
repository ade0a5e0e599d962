//! C14: comparison helpers.
use crate::refm::*;
use crate::smrt::*;
use static_math::utils::*;
use static_math::matrix3x3::M33;
use static_math::matrix4x4::M44;
use static_math::dual_quaternion::DualQuaternion;
use static_math::quaternion::Quaternion;
use static_math::vector3::V3;
fn abs(x: f64) -> f64 { if x < 0.0 { -x } else { x } }
pub fn r_reflexive(a: f64, e: f64) { assume(e > 0.0); holds(nearly_equal(a, a, e)); }
pub fn r_symmetric(a: f64, b: f64, e: f64) { assume(e > 0.0); holds(nearly_equal(a, b, e) == nearly_equal(b, a, e)); }
pub fn r_relative(a: f64, b: f64, e: f64) {
    assume(e > 0.0); assume(a != 0.0); assume(b != 0.0); assume(abs(a) + abs(b) > tol(1e-300, 1e-30));
    let within_tol = a == b || abs(a - b) < e * (abs(a) + abs(b));
    holds(nearly_equal(a, b, e) == within_tol);
}
pub fn r_absolute_left(b: f64, e: f64) { assume(e > 0.0); let w = abs(b) < e; holds(nearly_equal(0.0, b, e) == w); }
pub fn r_absolute_right(a: f64, e: f64) { assume(e > 0.0); let w = abs(a) < e; holds(nearly_equal(a, 0.0, e) == w); }
pub fn r_vanishing(a: f64, b: f64, e: f64) {
    assume(e > 0.0); assume(abs(a) + abs(b) < f64::MIN_POSITIVE);
    let w = abs(a - b) < e;
    holds(nearly_equal(a, b, e) == w);
}
pub fn r_nearly_zero(a: f64) { let w = abs(a) < f64::EPSILON; holds(nearly_zero(a) == w); }
pub fn r_nearly_zero_f32(a: f32) { let m = if a < 0.0 { -a } else { a }; let w = m < f32::EPSILON; holds(nearly_zero(a) == w); }
pub fn r_compare_floats(a: f64, b: f64, e: f64) { let w = abs(a - b) < e; holds(compare_floats(a, b, e) == w); holds(compare_floats(a, b, e) == compare_floats(b, a, e)); }
macro_rules! vecs {
    ($f:ident, $n:expr) => {
        pub fn $f(a: [f64; $n], b: [f64; $n], e: f64) {
            partial();
            assume(e > 0.0);
            let r = compare_vecs(&a, &b, e);
            let mut all = true; let mut i = 0;
            while i < $n { if !nearly_equal(a[i], b[i], e) { all = false; } i += 1; }
            holds(r == all);
        }
    };
}
vecs!(r_vecs1, 1);
vecs!(r_vecs2, 2);
vecs!(r_vecs3, 3);
vecs!(r_vecs4, 4);
vecs!(r_vecs9, 9);
pub fn r_vecs_shorter(a: [f64; 2], b: [f64; 3], e: f64) { assume(e > 0.0); holds(!compare_vecs(&a, &b, e)); }
pub fn r_vecs_longer(a: [f64; 3], b: [f64; 2], e: f64) { assume(e > 0.0); holds(!compare_vecs(&a, &b, e)); }
pub fn r_vecs_empty(b: [f64; 2], e: f64) { assume(e > 0.0); holds(!compare_vecs(&[], &b, e)); holds(compare_vecs::<f64>(&[], &[], e)); }
fn dq(a: &[f64; 8]) -> DualQuaternion<f64> {
    DualQuaternion::new(Quaternion::new(a[0], V3::new_from(a[1], a[2], a[3])), Quaternion::new(a[4], V3::new_from(a[5], a[6], a[7])))
}
pub fn r_dq(a: [f64; 8], b: [f64; 8], e: f64) {
    partial();
    assume(e > 0.0);
    let r = compare_dual_quaternions(dq(&a), dq(&b), e);
    let mut all = true; let mut i = 0;
    while i < 8 { if !nearly_equal(a[i], b[i], e) { all = false; } i += 1; }
    holds(r == all);
}
const TOL: f64 = 1e-5;
fn m33(a: &[[f64; 3]; 3]) -> M33<f64> { M33::new(*a) }
pub fn r_rotation_sound(a: [[f64; 3]; 3]) {
    if is_rotation(m33(&a)) {
        let d = det3(&a);
        label("det"); holds(d > 1.0 - TOL); holds(d < 1.0 + TOL);
        let g = mm(tr(a), a);
        label("gram");
        let mut i = 0;
        while i < 3 { let mut j = 0; while j < 3 { let w = if i == j { 1.0 } else { 0.0 }; holds(abs(g[i][j] - w) < TOL); j += 1; } i += 1; }
    }
}
fn det3(a: &[[f64; 3]; 3]) -> f64 {
    a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
}
pub fn r_rotation_complete(q: [f64; 4]) {
    unit(q);
    holds(is_rotation(m33(&qmat(q))));
}
/// rounding leaves a rotation orthogonal only up to a few units in the last place
pub fn r_rotation_rounded(q: [f64; 4], k: f64) {
    unit(q); within(k, tol(0.999999999, 0.9999999), tol(1.000000001, 1.0000001));
    holds(is_rotation(m33(&mscale(qmat(q), k))));
}
pub fn r_rotation_h_rounded(q: [f64; 4], k: f64, p: [f64; 3]) {
    unit(q); within(k, tol(0.999999999, 0.9999999), tol(1.000000001, 1.0000001));
    holds(is_rotation_h(M44::new(homog(mscale(qmat(q), k), p))));
}
pub fn r_rotation_h_complete(q: [f64; 4], p: [f64; 3]) {
    unit(q);
    holds(is_rotation_h(M44::new(homog(qmat(q), p))));
}
pub fn r_rotation_h_sound(a: [[f64; 3]; 3], p: [f64; 3]) {
    if is_rotation_h(M44::new(homog(a, p))) {
        let d = det3(&a);
        label("det"); holds(d > 1.0 - TOL); holds(d < 1.0 + TOL);
        let g = mm(tr(a), a);
        label("gram");
        let mut i = 0;
        while i < 3 { let mut j = 0; while j < 3 { let w = if i == j { 1.0 } else { 0.0 }; holds(abs(g[i][j] - w) < TOL); j += 1; } i += 1; }
    }
}
pub fn r_rotation_reflection(q: [f64; 4]) {
    unit(q);
    let r = qmat(q);
    holds(!is_rotation(m33(&mscale(r, -1.0))));
}
pub fn r_distance(a: [[f64; 3]; 3]) {
    let d = static_math::transformations::distance_to_manifold(&m33(&a));
    if det3(&a) > 0.0 {
        let g = mm(a, tr(a));
        let mut s = 0.0; let mut i = 0;
        while i < 3 { let mut j = 0; while j < 3 { let w = if i == j { 1.0 } else { 0.0 }; s += (g[i][j] - w) * (g[i][j] - w); j += 1; } i += 1; }
        label("frobenius"); eq(&(d * d), &s); holds(d >= 0.0);
    } else {
        label("infinite"); eq(&d, &f64::INFINITY);
    }
}
pub fn r_distance_rotation(q: [f64; 4]) {
    unit(q);
    eq(&static_math::transformations::distance_to_manifold(&m33(&qmat(q))), &0.0);
}
