//! C25: exponential maps.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::transformations::*;
use static_math::vector6::V6;
fn rod(u: [f64; 3], t: f64) -> [[f64; 3]; 3] { let k = skew(u); madd(id::<3>(), madd(mscale(k, t.sin()), mscale(mm(k, k), 1.0 - t.cos()))) }
/// se(3) matrix with rotation part w and translation part v
fn se3(w: [f64; 3], v: [f64; 3]) -> [[f64; 4]; 4] { let s = skew(w); [[s[0][0], s[0][1], s[0][2], v[0]], [s[1][0], s[1][1], s[1][2], v[1]], [s[2][0], s[2][1], s[2][2], v[2]], [0.0; 4]] }
fn n3(v: [f64; 3]) -> f64 { dotn(&v, &v).sqrt() }
/// the translation of the twist (u, v) at theta = t, u unit
fn trans(u: [f64; 3], v: [f64; 3], t: f64) -> [f64; 3] { let k = skew(u); mv(madd(mscale(id::<3>(), t), madd(mscale(k, 1.0 - t.cos()), mscale(mm(k, k), t - t.sin()))), v) }
pub mod rot { use super::*;
    pub fn r_axis_angle(u: [f64; 3], t: f64) { unit3(u); eq(&m3a(rotation_from_axis_angle(&v3(u), t)), &rod(u, t)); }
    pub fn r_axis_angle_quaternion(u: [f64; 3], t: f64) {
        unit3(u);
        let (s, c) = ((t / 2.0).sin(), (t / 2.0).cos());
        eq(&m3a(rotation_from_axis_angle(&v3(u), t)), &qmat([c, u[0] * s, u[1] * s, u[2] * s]));
    }
    pub fn r_orthogonal(u: [f64; 3], t: f64) {
        unit3(u);
        let r = m3a(rotation_from_axis_angle(&v3(u), t));
        eq(&mm(r, tr(r)), &id::<3>()); eq(&det(&r), &1.0);
    }
    pub fn r_zero_angle(u: [f64; 3]) { unit3(u); eq(&m3a(rotation_from_axis_angle(&v3(u), 0.0)), &id::<3>()); }
    pub fn r_elementary(t: f64) {
        eq(&m3a(rotation_from_axis_angle(&v3([1.0, 0.0, 0.0]), t)), &rx(t));
        eq(&m3a(rotation_from_axis_angle(&v3([0.0, 1.0, 0.0]), t)), &ry(t));
        eq(&m3a(rotation_from_axis_angle(&v3([0.0, 0.0, 1.0]), t)), &rz(t));
    }
}
pub mod exp3 { use super::*;
    pub fn r_rodrigues(u: [f64; 3], t: f64) { unit3(u); assume(t > tol(3e-16, 2e-7)); eq(&m3a(matrix_exponential(&m3(skew(sc3(u, t))))), &rod(u, t)); }
    pub fn r_negative(u: [f64; 3], t: f64) { unit3(u); assume(t < -tol(3e-16, 2e-7)); eq(&m3a(matrix_exponential(&m3(skew(sc3(u, t))))), &rod(u, t)); }
    pub fn r_any(w: [f64; 3]) {
        let n = n3(w); assume(n > tol(3e-16, 2e-7));
        let k = skew(w);
        eq(&m3a(matrix_exponential(&m3(k))), &madd(id::<3>(), madd(mscale(k, n.sin() / n), mscale(mm(k, k), (1.0 - n.cos()) / (n * n)))));
    }
    pub fn r_orthogonal(w: [f64; 3]) {
        let r = m3a(matrix_exponential(&m3(skew(w))));
        eq(&mm(r, tr(r)), &id::<3>());
    }
    pub fn r_det(w: [f64; 3]) { eq(&det(&m3a(matrix_exponential(&m3(skew(w))))), &1.0); }
    pub fn r_zero(_t: f64) { eq(&m3a(matrix_exponential(&m3([[0.0; 3]; 3]))), &id::<3>()); }
    pub fn r_agrees(u: [f64; 3], t: f64) { unit3(u); assume(t > tol(3e-16, 2e-7)); eq(&m3a(matrix_exponential(&m3(skew(sc3(u, t))))), &m3a(rotation_from_axis_angle(&v3(u), t))); }
    pub fn r_hat(w: [f64; 3]) { eq(&m3a(matrix_exponential(&skew_from_vec(&v3(w)))), &m3a(matrix_exponential(&m3(skew(w))))); }
    pub fn r_inverse(u: [f64; 3], t: f64) { unit3(u); assume(t > tol(3e-16, 2e-7)); eq(&mm(m3a(matrix_exponential(&m3(skew(sc3(u, t))))), m3a(matrix_exponential(&m3(skew(sc3(u, -t)))))), &id::<3>()); }
}
pub mod exp6 { use super::*;
    pub fn r_screw(u: [f64; 3], v: [f64; 3], t: f64) {
        unit3(u); assume(t > tol(3e-16, 2e-7));
        eq(&m4a(matrix_exponential6(&m4(se3(sc3(u, t), sc3(v, t))))), &homog(rod(u, t), trans(u, v, t)));
    }
    pub fn r_formula(u: [f64; 3], v: [f64; 3], t: f64) {
        unit3(u); assume(t > tol(3e-16, 2e-7));
        eq(&m4a(matrix_exponential6(&m4(se3(sc3(u, t), v)))), &homog(rod(u, t), sc3(trans(u, v, t), 1.0 / t)));
    }
    pub fn r_rotation(u: [f64; 3], t: f64) { unit3(u); assume(t > tol(3e-16, 2e-7)); eq(&m4a(matrix_exponential6(&m4(se3(sc3(u, t), [0.0; 3])))), &homog(rod(u, t), [0.0; 3])); }
    pub fn r_translation(v: [f64; 3]) { eq(&m4a(matrix_exponential6(&m4(se3([0.0; 3], v)))), &homog(id::<3>(), v)); }
    pub fn r_zero(_t: f64) { eq(&m4a(matrix_exponential6(&m4([[0.0; 4]; 4]))), &id::<4>()); }
    pub fn r_twist(w: [f64; 3], v: [f64; 3]) {
        eq(&m4a(matrix_exponential6(&twist_to_se3(&V6::new_from(w[0], w[1], w[2], v[0], v[1], v[2])))), &m4a(matrix_exponential6(&m4(se3(w, v)))));
    }
    pub fn r_same_rotation(w: [f64; 3], v: [f64; 3]) {
        let e = m4a(matrix_exponential6(&m4(se3(w, v))));
        let r = m3a(matrix_exponential(&m3(skew(w))));
        eq(&[[e[0][0], e[0][1], e[0][2]], [e[1][0], e[1][1], e[1][2]], [e[2][0], e[2][1], e[2][2]]], &r);
        eq(&e[3], &[0.0, 0.0, 0.0, 1.0]);
    }
    /// moving along a screw axis leaves the points of the axis on the axis
    pub fn r_axis_fixed(u: [f64; 3], p: [f64; 3], h: f64, t: f64) {
        unit3(u); assume(t > tol(3e-16, 2e-7));
        let s = screw_to_axis(&v3(p), &v3(u), h);
        let e = m4a(matrix_exponential6(&m4(se3(sc3(u, t), sc3([s[3], s[4], s[5]], t)))));
        let x = mv(e, [p[0], p[1], p[2], 1.0]);
        eq(&x, &[p[0] + u[0] * h * t, p[1] + u[1] * h * t, p[2] + u[2] * h * t, 1.0]);
    }
}
