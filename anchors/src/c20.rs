//! C20: Euler angles.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::matrix2x2::M22;
use static_math::quaternion::Quaternion;
use static_math::transformations::*;
pub fn r_rotx(t: f64) { eq(&m3a(rotx(t)), &rx(t)); }
pub fn r_roty(t: f64) { eq(&m3a(roty(t)), &ry(t)); }
pub fn r_rotz(t: f64) { eq(&m3a(rotz(t)), &rz(t)); }
pub fn r_rot2(t: f64) { let m = rot2(t); let (s, c) = (t.sin(), t.cos()); eq(&[m[(0, 0)], m[(0, 1)], m[(1, 0)], m[(1, 1)]], &[c, -s, s, c]); }
macro_rules! seq { ($f:ident, $s:ident, $p:ident, $q:ident, $r:ident) => { pub fn $f(a: f64, b: f64, c: f64) { eq(&m3a(euler_to_rotation(a, b, c, Some(EulerSeq::$s))), &mm(mm($p(a), $q(b)), $r(c))); } }; }
seq!(r_xyx, XYX, rx, ry, rx);
seq!(r_xyz, XYZ, rx, ry, rz);
seq!(r_xzx, XZX, rx, rz, rx);
seq!(r_xzy, XZY, rx, rz, ry);
seq!(r_yxy, YXY, ry, rx, ry);
seq!(r_yxz, YXZ, ry, rx, rz);
seq!(r_yzx, YZX, ry, rz, rx);
seq!(r_yzy, YZY, ry, rz, ry);
seq!(r_zxy, ZXY, rz, rx, ry);
seq!(r_zxz, ZXZ, rz, rx, rz);
/// away from gimbal lock: the cosine of the pitch is not tiny (and its sine is one)
fn off_lock(r: &[[f64; 3]; 3]) { assume((r[0][0] * r[0][0] + r[1][0] * r[1][0]).sqrt() > tol(1e-6, 4e-4)); assume(r[2][0] <= 1.0); assume(r[2][0] >= -1.0); }
fn zyx(a: f64, b: f64, c: f64) -> [[f64; 3]; 3] { mm(mm(rz(a), ry(b)), rx(c)) }
pub fn r_default(a: f64, b: f64, c: f64) { eq(&m3a(euler_to_rotation(a, b, c, None)), &zyx(a, b, c)); }
pub fn r_quaternion(a: f64, b: f64, c: f64) { eq(&m3a(Quaternion::from_euler_angles(a, b, c).to_rotation()), &zyx(a, b, c)); }
pub fn r_quaternion_unit(a: f64, b: f64, c: f64) { let x = qa(Quaternion::from_euler_angles(a, b, c)); eq(&dotn(&x, &x), &1.0); }
pub fn r_extract(a: f64, b: f64, c: f64) {
    assume(abs(b.cos()) > tol(1e-6, 4e-4));
    let r = zyx(a, b, c);
    let (y, p, o) = rotation_to_euler(&m3(r));
    eq(&m3a(euler_to_rotation(y, p, o, None)), &r);
}
pub fn r_extract_any(u: [f64; 4]) {
    unit(u);
    let r = qmat(u);
    off_lock(&r);
    let (y, p, o) = rotation_to_euler(&m3(r));
    eq(&m3a(euler_to_rotation(y, p, o, None)), &r);
}
/// gimbal lock, both signs
pub fn r_extract_up(a: f64, c: f64) {
    let (sa, ca, sc, cc) = (a.sin(), a.cos(), c.sin(), c.cos());
    let r = mm(mm(rz(a), [[0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [-1.0, 0.0, 0.0]]), rx(c));
    let (y, p, o) = rotation_to_euler(&m3(r));
    eq(&m3a(euler_to_rotation(y, p, o, None)), &r);
}
pub fn r_extract_down(a: f64, c: f64) {
    let r = mm(mm(rz(a), [[0.0, 0.0, -1.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0]]), rx(c));
    let (y, p, o) = rotation_to_euler(&m3(r));
    eq(&m3a(euler_to_rotation(y, p, o, None)), &r);
}
pub fn r_quaternion_extract(u: [f64; 4]) {
    unit(u);
    let r = qmat(u);
    off_lock(&r);
    let (y, p, o) = q(u).to_euler_angles();
    // r_quaternion: the quaternion of these angles is this rotation too
    eq(&m3a(euler_to_rotation(y, p, o, None)), &r);
}
pub fn r_angles_recovered(a: f64, b: f64, c: f64) {
    assume(b.cos() > tol(1e-6, 4e-4));
    let (y, p, o) = rotation_to_euler(&m3(zyx(a, b, c)));
    eq(&p.sin(), &b.sin()); eq(&p.cos(), &b.cos());
    eq(&y.sin(), &a.sin()); eq(&y.cos(), &a.cos());
    eq(&o.sin(), &c.sin()); eq(&o.cos(), &c.cos());
}
