//! C28: dual quaternions as rigid motions.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::dual_quaternion::DualQuaternion;
use static_math::transformations::*;
use static_math::vector4::V4;
/// every way of looking at x says: rotation u, translation p
fn is_motion(x: D, u: [f64; 4], p: [f64; 3]) {
    let (r, t) = x.to_rotation_translation();
    label("rotation"); eq(&m3a(r), &qmat(u));
    label("translation"); eq(&va(t), &p);
    let (k, s) = x.to_quaternion_translation();
    label("quaternion"); eq(&qmat(qa(k)), &qmat(u));
    label("quaternion-translation"); eq(&va(s), &p);
    label("get_translation"); eq(&va(x.get_translation()), &p);
    label("homogeneous"); eq(&m4a(x.to_homogeneous()), &homog(qmat(u), p));
}
fn rt(u: [f64; 4], p: [f64; 3]) -> D { unit(u); DualQuaternion::new_from_rot_trans(&fq(u), &v3(p)) }
fn rt2(u: [f64; 4], p: [f64; 3]) -> D { unit(u); d(u, sc4(qm(pure(p), u), 0.5)) }
pub mod make { use super::*;
    pub fn r_rot_trans(u: [f64; 4], p: [f64; 3]) { unit(u); is_motion(DualQuaternion::new_from_rot_trans(&q(u), &v3(p)), u, p); }
    pub fn r_rot_trans_marked(u: [f64; 4], p: [f64; 3]) { is_motion(rt(u, p), u, p); }
    pub fn r_rot_trans_scaled(u: [f64; 4], p: [f64; 3], k: f64) { unit(u); assume(k > tol(3e-16, 2e-7)); is_motion(DualQuaternion::new_from_rot_trans(&q(sc4(u, k)), &v3(p)), u, p); }
    pub fn r_definition(u: [f64; 4], p: [f64; 3]) { is_motion(rt2(u, p), u, p); }
    pub fn r_homogeneous(u: [f64; 4], p: [f64; 3]) { unit(u); is_motion(DualQuaternion::new_from_homogeneous(&m4(homog(qmat(u), p))), u, p); }
    pub fn r_rotation_matrix(u: [f64; 4]) { unit(u); is_motion(DualQuaternion::new_from_rotation_matrix(&m3(qmat(u))), u, [0.0; 3]); }
    pub fn r_rotation(u: [f64; 4]) { unit(u); is_motion(DualQuaternion::new_from_rotation(&q(u)), u, [0.0; 3]); is_motion(DualQuaternion::new_from_rotation(&fq(u)), u, [0.0; 3]); }
    pub fn r_translation(p: [f64; 3]) { is_motion(DualQuaternion::new_from_translation(&v3(p)), [1.0, 0.0, 0.0, 0.0], p); }
    pub fn r_array(u: [f64; 4], p: [f64; 3]) { unit(u); is_motion(DualQuaternion::new_from_array([u[0], u[1], u[2], u[3], p[0], p[1], p[2]]), u, p); }
    pub fn r_one(_t: f64) { is_motion(DualQuaternion::one(), [1.0, 0.0, 0.0, 0.0], [0.0; 3]); }
    pub fn r_point(p: [f64; 3]) { eq(&da(DualQuaternion::new_from_point(&v3(p))), &[[1.0, 0.0, 0.0, 0.0], pure(p)]); }
    pub fn r_round_trip(u: [f64; 4], p: [f64; 3]) {
        unit(u);
        let t = homogeneous_from_quaternion(&q(u), &v3(p));
        eq(&m4a(DualQuaternion::new_from_homogeneous(&t).to_homogeneous()), &m4a(t));
    }
    pub fn r_normalize(u: [f64; 4], p: [f64; 3], k: f64) {
        assume(k > tol(3e-16, 2e-7));
        match (rt2(u, p) * k).normalize() { Some(x) => is_motion(x, u, p), None => diverges() }
    }
    pub fn r_normalize_marked(u: [f64; 4], p: [f64; 3]) { match rt(u, p).normalize() { Some(x) => is_motion(x, u, p), None => diverges() } }
}
pub mod compose { use super::*;
    pub fn r_product(u: [f64; 4], p: [f64; 3], w: [f64; 4], s: [f64; 3]) { let x = rt(u, p) * rt(w, s); is_motion(x, qm(u, w), add3(qrot(u, s), p)); }
    pub fn r_matrices(u: [f64; 4], p: [f64; 3], w: [f64; 4], s: [f64; 3]) {
        let (a, b) = (rt(u, p), rt(w, s));
        eq(&m4a((a * b).to_homogeneous()), &m4a(a.to_homogeneous() * b.to_homogeneous()));
    }
    pub fn r_inverse(u: [f64; 4], p: [f64; 3]) { let x = rt(u, p).inverse(); is_motion(x, qc(u), sc3(qrot(qc(u), p), -1.0)); }
    pub fn r_inverse_plain(u: [f64; 4], p: [f64; 3]) { let x = rt2(u, p).inverse(); is_motion(x, qc(u), sc3(qrot(qc(u), p), -1.0)); }
    pub fn r_conj(u: [f64; 4], p: [f64; 3]) { let x = rt(u, p).conj(); is_motion(x, qc(u), sc3(qrot(qc(u), p), -1.0)); }
    pub fn r_translate_then_rotate(u: [f64; 4], p: [f64; 3]) {
        unit(u);
        is_motion(DualQuaternion::new_from_translation(&v3(p)) * DualQuaternion::new_from_rotation(&fq(u)), u, p);
        is_motion(DualQuaternion::new_from_rotation(&fq(u)) * DualQuaternion::new_from_translation(&v3(p)), u, qrot(u, p));
    }
    pub fn r_same_motion(u: [f64; 4], p: [f64; 3]) { let x = -rt(u, p); is_motion(x, u, p); }
}
pub mod point { use super::*;
    /// the rotation acts on points
    pub fn r_linear(u: [f64; 4], p: [f64; 3], x: [f64; 3]) {
        let t = rt(u, p);
        let (y, o) = (va(t.transform_point(&v3(x))), va(t.transform_point(&v3([0.0; 3]))));
        eq(&add3(y, sc3(o, -1.0)), &qrot(u, x));
    }
    pub fn r_rotation(u: [f64; 4], x: [f64; 3]) { unit(u); eq(&va(DualQuaternion::new_from_rotation(&fq(u)).transform_point(&v3(x))), &qrot(u, x)); }
    pub fn r_rotation_plain(u: [f64; 4], x: [f64; 3]) { unit(u); eq(&va(DualQuaternion::new_from_rotation(&q(u)).transform_point(&v3(x))), &qrot(u, x)); }
    pub fn r_composes_rotations(u: [f64; 4], w: [f64; 4], x: [f64; 3]) {
        unit(u); unit(w);
        let (a, b) = (DualQuaternion::new_from_rotation(&fq(u)), DualQuaternion::new_from_rotation(&fq(w)));
        eq(&va((a * b).transform_point(&v3(x))), &va(a.transform_point(&b.transform_point(&v3(x)))));
    }
    /// the image of the origin is the translation (or stays, see the listed finding)
    pub fn r_origin(u: [f64; 4], p: [f64; 3]) {
        let o = va(rt(u, p).transform_point(&v3([0.0; 3])));
        let (z, t) = (o[0] == 0.0 && o[1] == 0.0 && o[2] == 0.0, o[0] == p[0] && o[1] == p[1] && o[2] == p[2]);
        holds(z || t);
    }
    pub fn r_full(u: [f64; 4], p: [f64; 3], x: [f64; 3]) { eq(&va(rt(u, p).transform_point(&v3(x))), &add3(qrot(u, x), p)); }
}
