//! C19: axis and angle.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::quaternion::Quaternion;
use static_math::transformations::axis_angle;
pub fn r_rotation(t: f64, v: [f64; 3]) {
    assume(dotn(&v, &v) > tol(1e-12, 1e-6));
    let n = v3(v).norm2();
    let x = qa(Quaternion::rotation(t, &v3(v)));
    eq(&x[0], &(t / 2.0).cos());
    let s = (t / 2.0).sin();
    eq(&[x[1] * n, x[2] * n, x[3] * n], &sc3(v, s));
    label("unit"); eq(&dotn(&x, &x), &1.0);
}
pub fn r_rotation_unit_axis(t: f64, v: [f64; 3]) { unit3(v); let s = (t / 2.0).sin(); eq(&qa(Quaternion::rotation(t, &v3(v))), &[(t / 2.0).cos(), v[0] * s, v[1] * s, v[2] * s]); }
pub fn r_norm_encoded(v: [f64; 3]) {
    assume(dotn(&v, &v) > tol(1e-12, 1e-6));
    let n = v3(v).norm2();
    let x = qa(Quaternion::rotation_norm_encoded(&v3(v)));
    eq(&x[0], &(n / 2.0).cos());
    let s = (n / 2.0).sin();
    eq(&[x[1] * n, x[2] * n, x[3] * n], &sc3(v, s));
    label("same"); eq(&x, &qa(Quaternion::rotation(n, &v3(v))));
}
pub fn r_norm_encoded_zero() { eq(&qa(Quaternion::rotation_norm_encoded(&v3([0.0; 3]))), &[1.0, 0.0, 0.0, 0.0]); }
pub fn r_rebuild(a: [f64; 4]) {
    unit(a);
    match q(a).get_axis() {
        Some(u) => {
            let x = va(u);
            label("axis"); eq(&dotn(&x, &x), &1.0);
            let t = q(a).get_angle();
            label("rebuilt"); eq(&qa(Quaternion::rotation(t, &u)), &a);
            label("pair"); let (p, s) = q(a).axis_angle();
            eq(&s, &t);
            match p { Some(w) => eq(&va(w), &x), None => holds(false) }
        }
        None => { label("none"); holds(a[1] * a[1] + a[2] * a[2] + a[3] * a[3] < tol(1e-12, 1e-6)); }
    }
}
pub fn r_rebuild_flagged(a: [f64; 4]) {
    unit(a);
    assume(a[1] * a[1] + a[2] * a[2] + a[3] * a[3] > tol(1e-12, 1e-6));
    match fq(a).axis_angle() { (Some(u), t) => eq(&qa(Quaternion::rotation(t, &u)), &a), _ => holds(false) }
}
/// the axis of a quaternion that is not unit is the axis of its direction
pub fn r_axis_any(u: [f64; 4], k: f64) {
    unit(u); assume(k > tol(1e-6, 1e-3));
    assume(u[1] * u[1] + u[2] * u[2] + u[3] * u[3] > tol(1e-12, 1e-6));
    let a = sc4(u, k);
    match q(a).get_axis() { Some(w) => { let n = q(a).abs_imag(); eq(&va(w * n), &[a[1], a[2], a[3]]); } None => holds(false) }
    let t = q(a).get_angle() / 2.0;
    label("angle"); eq(&(t.cos() * k), &a[0]); eq(&(t.sin() * k), &q(a).abs_imag());
}
pub fn r_identity_no_axis() { holds(Q::one().get_axis().is_none()); holds(q([1.0, 0.0, 0.0, 0.0]).get_axis().is_none()); holds(q([0.0; 4]).get_axis().is_none()); }
pub fn r_zero_axis_refused(t: f64) { holds(true); may_panic(""); let _ = Quaternion::rotation(t, &v3([0.0; 3])); holds(false); }
pub fn r_free_axis_angle(v: [f64; 3]) {
    assume(dotn(&v, &v) > tol(1e-12, 1e-6));
    let (u, t) = axis_angle(&v3(v));
    eq(&va(u * t), &v); eq(&(t * t), &dotn(&v, &v)); holds(t >= 0.0);
    label("unit"); let x = va(u); eq(&dotn(&x, &x), &1.0);
}
