//! C24: hat and vee maps, adjoint, screw axes.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::matrix2x2::M22;
use static_math::matrix6x6::M66;
use static_math::transformations::*;
use static_math::vector6::V6;
use static_math::slices_methods::norm2;
fn v6(a: [f64; 6]) -> V6<f64> { V6::new_from(a[0], a[1], a[2], a[3], a[4], a[5]) }
fn va6(v: V6<f64>) -> [f64; 6] { [v[0], v[1], v[2], v[3], v[4], v[5]] }
fn m6a(m: M66<f64>) -> [[f64; 6]; 6] { let mut r = [[0.0; 6]; 6]; let mut i = 0; while i < 6 { let mut j = 0; while j < 6 { r[i][j] = m[(i, j)]; j += 1; } i += 1; } r }
fn block(r: [[f64; 3]; 3], p: [f64; 3]) -> [[f64; 6]; 6] {
    let pr = mm(skew(p), r);
    let mut o = [[0.0; 6]; 6];
    let mut i = 0;
    while i < 3 { let mut j = 0; while j < 3 { o[i][j] = r[i][j]; o[i + 3][j + 3] = r[i][j]; o[i + 3][j] = pr[i][j]; j += 1; } i += 1; }
    o
}
pub mod hat { use super::*;
    pub fn r_skew(v: [f64; 3]) { eq(&m3a(skew_from_vec(&v3(v))), &skew(v)); }
    pub fn r_cross(v: [f64; 3], w: [f64; 3]) { eq(&va(skew_from_vec(&v3(v)) * v3(w)), &cross(v, w)); eq(&va(v3(v).cross(v3(w))), &cross(v, w)); }
    pub fn r_vee(v: [f64; 3]) { eq(&va(skew_to_vec(&skew_from_vec(&v3(v)))), &v); }
    pub fn r_vee_hat(v: [f64; 3]) { eq(&va(skew_to_vec(&m3(skew(v)))), &v); eq(&m3a(skew_from_vec(&skew_to_vec(&m3(skew(v))))), &skew(v)); }
    pub fn r_antisymmetric(v: [f64; 3]) { let s = m3a(skew_from_vec(&v3(v))); eq(&madd(s, tr(s)), &[[0.0; 3]; 3]); }
    pub fn r_scalar(x: f64) { let m: M22<f64> = skew_scalar(x); eq(&[m[(0, 0)], m[(0, 1)], m[(1, 0)], m[(1, 1)]], &[0.0, -x, x, 0.0]); eq(&vex_m22(&m), &x); }
    pub fn r_aug2(v: [f64; 3]) { eq(&m3a(skew_from_vec_aug(v3(v))), &[[0.0, -v[2], v[0]], [v[2], 0.0, v[1]], [0.0; 3]]); }
    pub fn r_aug3(v: [f64; 6]) {
        let s = skew([v[3], v[4], v[5]]);
        eq(&m4a(skew_v6(v6(v))), &[[s[0][0], s[0][1], s[0][2], v[0]], [s[1][0], s[1][1], s[1][2], v[1]], [s[2][0], s[2][1], s[2][2], v[2]], [0.0; 4]]);
    }
    pub fn r_twist(v: [f64; 6]) {
        let s = skew([v[0], v[1], v[2]]);
        let t = twist_to_se3(&v6(v));
        eq(&m4a(t), &[[s[0][0], s[0][1], s[0][2], v[3]], [s[1][0], s[1][1], s[1][2], v[4]], [s[2][0], s[2][1], s[2][2], v[5]], [0.0; 4]]);
        eq(&va6(se3_to_twist(&t)), &v);
    }
    pub fn r_twist_back(v: [f64; 6]) {
        let s = skew([v[0], v[1], v[2]]);
        let t = m4([[s[0][0], s[0][1], s[0][2], v[3]], [s[1][0], s[1][1], s[1][2], v[4]], [s[2][0], s[2][1], s[2][2], v[5]], [0.0; 4]]);
        eq(&va6(se3_to_twist(&t)), &v);
        eq(&m4a(twist_to_se3(&se3_to_twist(&t))), &m4a(t));
    }
}
pub mod adj { use super::*;
    pub fn r_block(r: [[f64; 3]; 3], p: [f64; 3]) { eq(&m6a(adjoint(&m4(homog(r, p)))), &block(r, p)); }
    pub fn r_product(u: [f64; 4], p: [f64; 3], w: [f64; 4], s: [f64; 3]) {
        unit(u); unit(w);
        let (a, b) = (m4(homog(qmat(u), p)), m4(homog(qmat(w), s)));
        eq(&m6a(adjoint(&(a * b))), &m6a(adjoint(&a) * adjoint(&b)));
    }
    pub fn r_inverse(u: [f64; 4], p: [f64; 3]) {
        unit(u);
        let a = m4(homog(qmat(u), p));
        eq(&m6a(adjoint(&homogeneous_inverse(&a)) * adjoint(&a)), &id::<6>());
    }
    pub fn r_identity(p: [f64; 3]) { eq(&m6a(adjoint(&m4(homog(id::<3>(), p)))), &block(id::<3>(), p)); }
    /// the adjoint moves twists as conjugation moves their matrices
    pub fn r_conjugates(u: [f64; 4], p: [f64; 3], v: [f64; 6]) {
        unit(u);
        let t = m4(homog(qmat(u), p));
        eq(&m4a(twist_to_se3(&(adjoint(&t) * v6(v)))), &m4a(t * twist_to_se3(&v6(v)) * homogeneous_inverse(&t)));
    }
}
pub mod screw { use super::*;
    pub fn r_axis(p: [f64; 3], s: [f64; 3], h: f64) {
        unit3(s);
        let v = add3(cross(p, s), sc3(s, h));
        eq(&va6(screw_to_axis(&v3(p), &v3(s), h)), &[s[0], s[1], s[2], v[0], v[1], v[2]]);
    }
    pub fn r_extract(v: [f64; 6]) {
        let w = [v[0], v[1], v[2]];
        assume(dotn(&w, &w).sqrt() > tol(3e-16, 2e-7));
        let (a, t) = axis_angle6(&v6(v));
        let a = va6(a);
        eq(&[a[0] * t, a[1] * t, a[2] * t, a[3] * t, a[4] * t, a[5] * t], &v);
        eq(&t, &dotn(&w, &w).sqrt());
        eq(&(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]), &1.0);
    }
    pub fn r_extract_translation(v: [f64; 3]) {
        assume(dotn(&v, &v) > 0.0);
        let (a, t) = axis_angle6(&v6([0.0, 0.0, 0.0, v[0], v[1], v[2]]));
        let a = va6(a);
        eq(&[a[0] * t, a[1] * t, a[2] * t, a[3] * t, a[4] * t, a[5] * t], &[0.0, 0.0, 0.0, v[0], v[1], v[2]]);
        eq(&t, &dotn(&v, &v).sqrt());
        eq(&(a[3] * a[3] + a[4] * a[4] + a[5] * a[5]), &1.0);
    }
    pub fn r_extract_axis(p: [f64; 3], s: [f64; 3], h: f64, t: f64) {
        unit3(s); assume(t > tol(3e-16, 2e-7));
        let v = add3(cross(p, s), sc3(s, h));
        let (a, th) = axis_angle6(&v6([s[0] * t, s[1] * t, s[2] * t, v[0] * t, v[1] * t, v[2] * t]));
        eq(&th, &t);
        eq(&va6(a), &[s[0], s[1], s[2], v[0], v[1], v[2]]);
    }
    pub fn r_axis3(v: [f64; 3]) {
        assume(dotn(&v, &v) > 0.000001);
        let (a, t) = axis_angle(&v3(v));
        eq(&sc3(va(a), t), &v);
        eq(&t, &dotn(&v, &v).sqrt());
        eq(&dotn(&va(a), &va(a)), &1.0);
    }
}
