//! C26: logarithm maps.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::transformations::*;
fn rod(u: [f64; 3], t: f64) -> [[f64; 3]; 3] { let k = skew(u); madd(id::<3>(), madd(mscale(k, t.sin()), mscale(mm(k, k), 1.0 - t.cos()))) }
fn se3(s: [[f64; 3]; 3], v: [f64; 3]) -> [[f64; 4]; 4] { [[s[0][0], s[0][1], s[0][2], v[0]], [s[1][0], s[1][1], s[1][2], v[1]], [s[2][0], s[2][1], s[2][2], v[2]], [0.0; 4]] }
fn trans(u: [f64; 3], v: [f64; 3], t: f64) -> [f64; 3] { let k = skew(u); mv(madd(mscale(id::<3>(), t), madd(mscale(k, 1.0 - t.cos()), mscale(mm(k, k), t - t.sin()))), v) }
fn acute(t: f64) { within(t, 0.0, core::f64::consts::PI); assume(t.cos() < 1.0); assume(t.cos() > -tol(0.999999999999, 0.999999)); assume(t.sin() > 0.0); }
/// the half turn about the unit axis u
fn half(u: [f64; 3]) -> [[f64; 3]; 3] { let k = skew(u); madd(id::<3>(), mscale(mm(k, k), 2.0)) }
pub mod log3 { use super::*;
    pub fn r_angle(u: [f64; 3], t: f64) { unit3(u); acute(t); eq(&m3a(matrix_log(&m3(rod(u, t)))), &mscale(skew(u), t)); }
    pub fn r_identity(_t: f64) { eq(&m3a(matrix_log(&m3(id::<3>()))), &[[0.0; 3]; 3]); }
    pub fn r_half_z(u: [f64; 3]) {
        unit3(u); assume(abs(u[2]) > tol(2e-8, 4e-4));
        let k = m3a(matrix_log(&m3(half(u))));
        let w = [k[2][1], k[0][2], k[1][0]];
        eq(&k, &skew(w));
        let pi = core::f64::consts::PI;
        label("length"); eq(&dotn(&w, &w), &(pi * pi));
        label("axis"); eq(&cross(w, u), &[0.0; 3]);
    }
    /// the axis is read off a column that is not small
    pub fn r_half_well_conditioned(u: [f64; 3]) { unit3(u); margin(0.05); let _ = matrix_log(&m3(half(u))); holds(true); }
    pub fn r_half_any(u: [f64; 3]) {
        unit3(u);
        let k = m3a(matrix_log(&m3(half(u))));
        let w = [k[2][1], k[0][2], k[1][0]];
        let pi = core::f64::consts::PI;
        label("length"); eq(&dotn(&w, &w), &(pi * pi));
        label("axis"); eq(&cross(w, u), &[0.0; 3]);
    }
    pub fn r_half_y(u: [f64; 2]) {
        sqr_is(u[0], 1.0 - u[1] * u[1]); assume(abs(u[1]) > tol(2e-8, 4e-4));
        let k = m3a(matrix_log(&m3(half([u[0], u[1], 0.0]))));
        let w = [k[2][1], k[0][2], k[1][0]];
        eq(&k, &skew(w));
        let pi = core::f64::consts::PI;
        eq(&dotn(&w, &w), &(pi * pi));
        eq(&cross(w, [u[0], u[1], 0.0]), &[0.0; 3]);
    }
    pub fn r_half_x(_t: f64) {
        let k = m3a(matrix_log(&m3([[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0]])));
        let w = [k[2][1], k[0][2], k[1][0]];
        eq(&k, &skew(w));
        let pi = core::f64::consts::PI;
        eq(&dotn(&w, &w), &(pi * pi));
        eq(&[w[1], w[2]], &[0.0; 2]);
    }
    pub fn r_exp(u: [f64; 3], t: f64) { unit3(u); acute(t); assume(t > tol(2e-8, 4e-4)); eq(&m3a(matrix_exponential(&matrix_log(&m3(rod(u, t))))), &rod(u, t)); }
    pub fn r_antisymmetric(u: [f64; 4]) { unit(u); let k = m3a(matrix_log(&m3(qmat(u)))); eq(&madd(k, tr(k)), &[[0.0; 3]; 3]); }
}
pub mod log6 { use super::*;
    pub fn r_rotation_part(u: [f64; 3], p: [f64; 3], t: f64) {
        unit3(u); acute(t);
        let k = m4a(matrix_log6(&m4(homog(rod(u, t), p))));
        let s = skew(u);
        eq(&[[k[0][0], k[0][1], k[0][2]], [k[1][0], k[1][1], k[1][2]], [k[2][0], k[2][1], k[2][2]]], &mscale(s, t));
        eq(&k[3], &[0.0; 4]);
    }
    /// the logarithm of the motion of a twist is the twist
    pub fn r_motion(u: [f64; 3], v: [f64; 3], t: f64) {
        unit3(u); acute(t);
        let k = m4a(matrix_log6(&m4(homog(rod(u, t), trans(u, v, t)))));
        eq(&k, &se3(mscale(skew(u), t), sc3(v, t)));
    }
    pub fn r_restore(u: [f64; 3], p: [f64; 3], t: f64) {
        unit3(u); acute(t);
        let k = m4a(matrix_log6(&m4(homog(rod(u, t), p))));
        eq(&trans(u, sc3([k[0][3], k[1][3], k[2][3]], 1.0 / t), t), &p);
    }
    pub fn r_translation(p: [f64; 3]) { eq(&m4a(matrix_log6(&m4(homog(id::<3>(), p)))), &se3([[0.0; 3]; 3], p)); }
    pub fn r_half(u: [f64; 3], p: [f64; 3]) {
        unit3(u); assume(abs(u[2]) > tol(2e-8, 4e-4));
        let k = m4a(matrix_log6(&m4(homog(half(u), p))));
        let w = m3a(matrix_log(&m3(half(u))));
        eq(&[[k[0][0], k[0][1], k[0][2]], [k[1][0], k[1][1], k[1][2]], [k[2][0], k[2][1], k[2][2]]], &w);
        let pi = core::f64::consts::PI;
        let n = mscale(w, 1.0 / pi);
        // exponential at theta = pi: (pi I + 2 N + pi N^2) v / pi
        let v = [k[0][3] / pi, k[1][3] / pi, k[2][3] / pi];
        eq(&mv(madd(mscale(id::<3>(), pi), madd(mscale(n, 2.0), mscale(mm(n, n), pi))), v), &p);
    }
    pub fn r_half_x(p: [f64; 3]) {
        let k = m4a(matrix_log6(&m4(homog([[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0]], p))));
        let pi = core::f64::consts::PI;
        let n = mscale(skew([k[2][1], k[0][2], k[1][0]]), 1.0 / pi);
        let v = [k[0][3] / pi, k[1][3] / pi, k[2][3] / pi];
        eq(&mv(madd(mscale(id::<3>(), pi), madd(mscale(n, 2.0), mscale(mm(n, n), pi))), v), &p);
    }
}
