//! C23: homogeneous transforms.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::transformations::*;
use static_math::vector4::V4;
fn ap(t: [[f64; 4]; 4], x: [f64; 3]) -> [f64; 4] { let v = m4(t) * V4::new_from(x[0], x[1], x[2], 1.0); [v[0], v[1], v[2], v[3]] }
fn rigid(u: [f64; 4], p: [f64; 3]) -> [[f64; 4]; 4] { unit(u); homog(qmat(u), p) }
fn i4() -> [[f64; 4]; 4] { id::<4>() }
/// away from gimbal lock
fn off_lock(r: &[[f64; 3]; 3]) { assume((r[0][0] * r[0][0] + r[1][0] * r[1][0]).sqrt() > tol(1e-6, 4e-4)); assume(r[2][0] <= 1.0); assume(r[2][0] >= -1.0); }
pub fn r_from_rotation(r: [[f64; 3]; 3], p: [f64; 3]) { eq(&m4a(homogeneous_from_rotation(&m3(r), &v3(p))), &homog(r, p)); }
pub fn r_from_quaternion(u: [f64; 4], p: [f64; 3]) { unit(u); eq(&m4a(homogeneous_from_quaternion(&q(u), &v3(p))), &homog(qmat(u), p)); }
pub fn r_from_marked(u: [f64; 4], p: [f64; 3]) { unit(u); eq(&m4a(homogeneous_from_quaternion(&fq(u), &v3(p))), &homog(qmat(u), p)); }
pub fn r_applies(r: [[f64; 3]; 3], p: [f64; 3], x: [f64; 3]) {
    let y = add3(mv(r, x), p);
    eq(&ap(m4a(homogeneous_from_rotation(&m3(r), &v3(p))), x), &[y[0], y[1], y[2], 1.0]);
}
pub fn r_applies_quaternion(u: [f64; 4], p: [f64; 3], x: [f64; 3]) {
    unit(u);
    let y = add3(qrot(u, x), p);
    eq(&ap(m4a(homogeneous_from_quaternion(&q(u), &v3(p))), x), &[y[0], y[1], y[2], 1.0]);
}
pub fn r_compose(u: [f64; 4], p: [f64; 3], w: [f64; 4], s: [f64; 3]) {
    unit(u); unit(w);
    let t = homogeneous_from_quaternion(&q(u), &v3(p)) * homogeneous_from_quaternion(&q(w), &v3(s));
    eq(&m4a(t), &homog(qmat(qm(u, w)), add3(qrot(u, s), p)));
}
pub fn r_raw(t: [[f64; 4]; 4]) {
    let (r, p) = get_parts_raw(&m4(t));
    eq(&m3a(r), &[[t[0][0], t[0][1], t[0][2]], [t[1][0], t[1][1], t[1][2]], [t[2][0], t[2][1], t[2][2]]]);
    eq(&va(p), &[t[0][3], t[1][3], t[2][3]]);
}
pub fn r_raw_back(r: [[f64; 3]; 3], p: [f64; 3]) { let (a, b) = get_parts_raw(&homogeneous_from_rotation(&m3(r), &v3(p))); eq(&m3a(a), &r); eq(&va(b), &p); }
pub fn r_parts(u: [f64; 4], p: [f64; 3]) {
    let t = rigid(u, p);
    off_lock(&qmat(u));
    let (a, b) = get_parts(&m4(t));
    eq(&va(b), &p);
    // the quaternion of the angles (C20: of the same rotation as these angles)
    let (y, pt, ro) = rotation_to_euler(&m3(qmat(u)));
    eq(&qmat(qa(a)), &qmat(qa(Q::from_euler_angles(y, pt, ro))));
}
pub fn r_parts_angles(y: f64, b: f64, o: f64, p: [f64; 3]) {
    assume(b.cos() > tol(1e-6, 4e-4));
    let r = mm(mm(rz(y), ry(b)), rx(o));
    let (a, s) = get_parts(&m4(homog(r, p)));
    eq(&va(s), &p);
    let x = qa(a);
    eq(&dotn(&x, &x), &1.0);
    let (yy, pp, oo) = rotation_to_euler(&m3(r));
    eq(&qmat(x), &qmat(qa(Q::from_euler_angles(yy, pp, oo))));
}
pub fn r_se3(r: [[f64; 3]; 3], p: [f64; 3]) {
    let t = se3_from_parts(&m3(r), &v3(p));
    eq(&m4a(t), &[[r[0][0], r[0][1], r[0][2], p[0]], [r[1][0], r[1][1], r[1][2], p[1]], [r[2][0], r[2][1], r[2][2], p[2]], [0.0; 4]]);
    let (a, b) = se3_get_parts(&t);
    eq(&m3a(a), &r); eq(&va(b), &p);
}
pub fn r_ksi(t: f64, x: f64, y: f64) { let (s, c) = (t.sin(), t.cos()); eq(&m3a(ksi(t, x, y)), &[[c, -s, x], [s, c, y], [0.0, 0.0, 1.0]]); }
pub fn r_ksi_compose(t: f64, x: f64, y: f64, u: f64, z: f64, w: f64) {
    eq(&m3a(ksi(t, x, y) * ksi(u, z, w)), &m3a(ksi(t + u, t.cos() * z - t.sin() * w + x, t.sin() * z + t.cos() * w + y)));
}
pub fn r_translation_2d(x: f64, y: f64) { eq(&m3a(translation_2d(x, y)), &m3a(ksi(0.0, x, y))); eq(&m3a(translation_2d(x, y)), &[[1.0, 0.0, x], [0.0, 1.0, y], [0.0, 0.0, 1.0]]); }
pub fn r_translation_3d(p: [f64; 3]) { eq(&m4a(translation_3d(p[0], p[1], p[2])), &homog(id::<3>(), p)); }
pub fn r_inverse(u: [f64; 4], p: [f64; 3]) {
    let t = rigid(u, p);
    let i = m4a(homogeneous_inverse(&m4(t)));
    label("left"); eq(&mm(i, t), &i4());
    label("right"); eq(&mm(t, i), &i4());
}
pub fn r_inverse_product(u: [f64; 4], p: [f64; 3]) { let t = m4(rigid(u, p)); eq(&m4a(homogeneous_inverse(&t) * t), &i4()); eq(&m4a(t * homogeneous_inverse(&t)), &i4()); }
pub fn r_inverse_translation(p: [f64; 3]) { eq(&m4a(homogeneous_inverse(&translation_3d(p[0], p[1], p[2]))), &homog(id::<3>(), sc3(p, -1.0))); }
pub fn r_undo(u: [f64; 4], p: [f64; 3], x: [f64; 3]) {
    let t = rigid(u, p);
    eq(&va(homogeneous_inverse_transform(&m4(t), &v3(add3(mv(qmat(u), x), p)))), &x);
}
pub fn r_undo_is_inverse(u: [f64; 4], p: [f64; 3], x: [f64; 3]) {
    let t = rigid(u, p);
    let y = ap(m4a(homogeneous_inverse(&m4(t))), x);
    eq(&va(homogeneous_inverse_transform(&m4(t), &v3(x))), &[y[0], y[1], y[2]]);
    eq(&y[3], &1.0);
}
pub fn r_rotation_inverse(r: [[f64; 3]; 3]) { eq(&m3a(rotation_inverse(&m3(r))), &tr(r)); }
pub fn r_rotation_inverse_unit(u: [f64; 4]) { unit(u); let r = m3(qmat(u)); eq(&m3a(rotation_inverse(&r) * r), &id::<3>()); eq(&m3a(r * rotation_inverse(&r)), &id::<3>()); }
/// gimbal lock, pitch plus or minus a quarter turn: the other angle is the whole turn about the vertical (C20: the
/// quaternion of these angles is that rotation)
fn lock(c: f64, s: f64, g: f64, p: [f64; 3]) {
    sqr_is(c, 1.0 - s * s);
    let (a, b) = get_parts(&m4(homog([[0.0, -s, g * c], [0.0, c, g * s], [-g, 0.0, 0.0]], p)));
    eq(&va(b), &p);
    let (x, h) = (qa(a), g * core::f64::consts::FRAC_PI_2);
    eq(&dotn(&x, &x), &1.0);
    eq(&qmat(x), &qmat(qa(Q::from_euler_angles(s.atan2(c), h, 0.0))));
}
pub fn r_parts_lock_up(c: f64, s: f64, p: [f64; 3]) { lock(c, s, 1.0, p); }
pub fn r_parts_lock_down(c: f64, s: f64, p: [f64; 3]) { lock(c, s, -1.0, p); }
