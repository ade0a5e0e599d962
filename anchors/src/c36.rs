//! C36: no operation leaves the domain of the real functions it uses, whatever the operands.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::quaternion::Quaternion;
use static_math::slices_methods as sm;
use static_math::traits::LinearAlgebra;
use static_math::transformations::*;
use static_math::*;
fn done<T>(_x: T) { holds(true); }
macro_rules! vecs {
    ($m:ident, $V:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            pub fn r_norm2(a: [f64; $n]) { total(); done($V::new(a).norm2()); }
            pub fn r_normalize(a: [f64; $n]) { total(); done($V::new(a).normalize()); }
            pub fn r_slice_norm2(a: [f64; $n]) { total(); done(sm::norm2(&a)); }
            pub fn r_slice_normalize(a: [f64; $n]) { total(); assume(dotn(&a, &a) > 0.0); let mut b = a; sm::normalize(&mut b); holds(true); }
            pub fn r_slice_project(a: [f64; $n], b: [f64; $n]) { total(); assume(dotn(&b, &b) > 0.0); done(sm::project_x_over_y(&a, &b)); }
        }
    };
}
vecs!(v2, V2, 2);
vecs!(v3, V3, 3);
vecs!(v4, V4, 4);
vecs!(v5, V5, 5);
vecs!(v6, V6, 6);
macro_rules! mats {
    ($m:ident, $M:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            type A = [[f64; $n]; $n];
            pub fn r_norm2(a: A) { total(); done($M::new(a).norm2()); }
            pub fn r_inverse(a: A) { if $n > 4 { budget(120); } total(); done($M::new(a).inverse()); }
            pub fn r_det(a: A) { if $n > 4 { budget(120); } total(); done($M::new(a).det()); }
        }
    };
}
mats!(m2, M22, 2);
mats!(m3, M33, 3);
mats!(m4, M44, 4);
mats!(m5, M55, 5);
mats!(m6, M66, 6);
pub mod lu { use super::*;
    pub fn r_m2(a: [[f64; 2]; 2]) { total(); may_panic("the matrix should be non zero"); done(M22::new(a).lu()); }
}
pub mod qr { use super::*;
    pub fn r_m2(a: [[f64; 2]; 2]) { done(M22::new(a).qr()); }
}
pub fn r_eigen(a: [[f64; 2]; 2]) { total(); done(M22::new(a).real_eigenvals()); }
pub mod quat { use super::*;
    pub fn r_norm2(a: [f64; 4]) { total(); done(q(a).norm2()); }
    pub fn r_normalize(a: [f64; 4]) { total(); done(q(a).normalize()); }
    pub fn r_normalize_q(a: [f64; 4]) { total(); done(q(a).normalize_q()); }
    pub fn r_abs_imag(a: [f64; 4]) { total(); done(q(a).abs_imag()); }
    pub fn r_inverse(a: [f64; 4]) { total(); done(q(a).inverse()); }
    pub fn r_argq(a: [f64; 4]) { total(); done(q(a).argq()); }
    pub fn r_exp(a: [f64; 4]) { total(); done(q(a).exp()); }
    pub fn r_exp_marked(a: [f64; 4]) { total(); if let Some(x) = q(a).normalize() { done(x.exp()); } }
    /// the logarithm of zero does not exist
    pub fn r_ln(a: [f64; 4]) { total(); assume(dotn(&a, &a) > 0.0); done(q(a).ln()); }
    pub fn r_ln_marked(a: [f64; 4]) { total(); if let Some(x) = q(a).normalize() { done(x.ln()); } }
    pub fn r_sqrt(a: [f64; 4]) { assume(dotn(&a, &a) > 0.0); done(q(a).sqrt()); }
    pub fn r_sin(a: [f64; 4]) { done(q(a).sin()); }
    pub fn r_cos(a: [f64; 4]) { done(q(a).cos()); }
    /// a dot product beyond one in magnitude too
    pub fn r_slerp(a: [f64; 4], b: [f64; 4], t: f64) { total(); done(Quaternion::slerp(q(a), q(b), t)); }
    pub fn r_get_angle(a: [f64; 4]) { total(); done(q(a).get_angle()); }
    pub fn r_get_axis(a: [f64; 4]) { done(q(a).get_axis()); }
    pub fn r_axis_angle(a: [f64; 4]) { done(q(a).axis_angle()); }
    pub fn r_rotation_norm_encoded(v: [f64; 3]) { total(); done(Quaternion::rotation_norm_encoded(&v3(v))); }
    pub fn r_rotation(t: f64, v: [f64; 3]) { total(); may_panic("non zero vector"); done(Quaternion::rotation(t, &v3(v))); }
    pub fn r_from_rotation(a: [[f64; 3]; 3]) {
        total();
        // a rotation up to rounding: its trace does not fall below minus one but for that
        near_rotation(a);
        done(Quaternion::from_rotation(&M33::new(a)));
    }
    pub fn r_euler(a: [f64; 4]) { done(q(a).to_euler_angles()); }
    pub fn r_to_rotation(a: [f64; 4]) { total(); done(q(a).to_rotation()); }
}
/// the diagonal of a matrix within a thousandth of a rotation
fn near_rotation(a: [[f64; 3]; 3]) {
    let mut i = 0;
    while i < 3 { let mut j = 0; while j < 3 { within(a[i][j], -1.001, 1.001); j += 1; } i += 1; }
    let (x, y, z) = (a[0][0], a[1][1], a[2][2]);
    // every diagonal combination is four times the square of a quaternion component
    assume(1.0 + x + y + z > -0.001); assume(1.0 + x - y - z > -0.001); assume(1.0 - x + y - z > -0.001); assume(1.0 - x - y + z > -0.001);
    assume(x + y + z < 3.001);
}
pub mod rigid { use super::*;
    fn m(a: [[f64; 3]; 3], p: [f64; 3]) -> M44<f64> { M44::new([[a[0][0], a[0][1], a[0][2], p[0]], [a[1][0], a[1][1], a[1][2], p[1]], [a[2][0], a[2][1], a[2][2], p[2]], [0.0, 0.0, 0.0, 1.0]]) }
    pub fn r_log(a: [[f64; 3]; 3]) { total(); near_rotation(a); done(matrix_log(&M33::new(a))); }
    pub fn r_log6(a: [[f64; 3]; 3], p: [f64; 3]) { total(); near_rotation(a); done(matrix_log6(&m(a, p))); }
    pub fn r_exp(a: [[f64; 3]; 3]) { total(); done(matrix_exponential(&M33::new(a))); }
    pub fn r_exp6(a: [[f64; 4]; 4]) { total(); done(matrix_exponential6(&M44::new(a))); }
    pub fn r_axis_angle(v: [f64; 3]) { total(); may_panic("empty vector"); done(axis_angle(&v3(v))); }
    pub fn r_axis_angle6(v: [f64; 6]) { total(); done(axis_angle6(&V6::new(v))); }
    pub fn r_euler(a: [[f64; 3]; 3]) { total(); done(rotation_to_euler(&M33::new(a))); }
    pub fn r_parts(a: [[f64; 4]; 4]) { total(); done(get_parts(&M44::new(a))); }
    pub fn r_distance(a: [[f64; 3]; 3]) { done(distance_to_manifold(&M33::new(a))); }
}
pub mod dual { use super::*;
    fn x(a: [f64; 4], b: [f64; 4]) -> DualQuaternion<f64> { DualQuaternion::new(q(a), q(b)) }
    pub fn r_normalize(a: [f64; 4], b: [f64; 4]) { total(); done(x(a, b).normalize()); }
    pub fn r_is_normalized(a: [f64; 4], b: [f64; 4]) { total(); done(x(a, b).is_normalized()); }
    pub fn r_inverse(a: [f64; 4], b: [f64; 4]) { total(); may_panic("zero Quaternion cannot be inverted"); done(x(a, b).inverse()); }
    pub fn r_pow(a: [f64; 4], b: [f64; 4], t: f64) { total(); done(x(a, b).pow(t)); }
    /// interpolating between poses that are unit only up to rounding
    pub fn r_screw_lerp(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4], t: f64) { may_panic("zero Quaternion cannot be inverted"); done(DualQuaternion::screw_lerp(&x(a, b), &x(c, e), t)); }
    pub fn r_screw(a: [f64; 4], b: [f64; 4]) { assume(a[1] * a[1] + a[2] * a[2] + a[3] * a[3] > 0.001); done(x(a, b).get_screw_parameters()); }
    pub fn r_from_screw(l: [f64; 3], m: [f64; 3], t: f64, h: f64) { total(); done(DualQuaternion::new_from_screw_parameters(&v3(l), &v3(m), t, h)); }
    pub fn r_log(a: [f64; 4], p: [f64; 3]) { assume(a[1] * a[1] + a[2] * a[2] + a[3] * a[3] > 0.001); done(DualQuaternion::new_from_rot_trans(&q(a), &v3(p)).log()); }
    pub fn r_from_rot_trans(a: [f64; 4], p: [f64; 3]) { total(); may_panic("it can't be zero"); done(DualQuaternion::new_from_rot_trans(&q(a), &v3(p))); }
    pub fn r_from_homogeneous(a: [[f64; 3]; 3], p: [f64; 3]) {
        may_panic("it can't be zero"); near_rotation(a);
        done(DualQuaternion::new_from_homogeneous(&M44::new([[a[0][0], a[0][1], a[0][2], p[0]], [a[1][0], a[1][1], a[1][2], p[1]], [a[2][0], a[2][1], a[2][2], p[2]], [0.0, 0.0, 0.0, 1.0]])));
    }
}
