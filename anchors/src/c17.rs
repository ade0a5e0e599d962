//! C17: quaternion rotation against the rotation matrix.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::quaternion::Quaternion;
use static_math::vector3::V3;
pub fn r_direct(a: [f64; 4], v: [f64; 3]) { unit(a); eq(&va(q(a) * v3(v)), &qrot(a, v)); }
/// twice the cross product and its multiples need no division: the same for whole numbers
pub fn r_whole(a: [f64; 4], v: [f64; 3]) {
    use crate::zint::*;
    let (x, u) = (z(a), z(v));
    let w = Quaternion::new_from(x[0], x[1], x[2], x[3]) * V3::new(u);
    let t = sc3(cross([a[1], a[2], a[3]], v), 2.0);
    let e = add3(v, add3(sc3(t, a[0]), cross([a[1], a[2], a[3]], t)));
    unit(a);
    eq(&[w[0], w[1], w[2]], &z(e));
}
pub fn r_direct_flagged(a: [f64; 4], v: [f64; 3]) { unit(a); eq(&va(fq(a) * v3(v)), &qrot(a, v)); eq(&m3a(fq(a).to_rotation()), &qmat(a)); }
pub fn r_sandwich(a: [f64; 4], v: [f64; 3]) { unit(a); eq(&qa(q(a) * q(pure(v)) * q(a).conj()), &pure(va(q(a) * v3(v)))); }
pub fn r_matrix(a: [f64; 4], v: [f64; 3]) { unit(a); eq(&va(q(a).to_rotation() * v3(v)), &qrot(a, v)); eq(&va(q(a).to_rotation() * v3(v)), &va(q(a) * v3(v))); }
pub fn r_matrix_entries(a: [f64; 4]) { unit(a); eq(&m3a(q(a).to_rotation()), &qmat(a)); }
pub fn r_orthogonal(a: [f64; 4]) {
    unit(a);
    let r = m3a(q(a).to_rotation());
    eq(&mm(r, tr(r)), &id::<3>()); eq(&mm(tr(r), r), &id::<3>());
    label("det"); eq(&det(&r), &1.0);
}
pub fn r_product(a: [f64; 4], b: [f64; 4]) { unit(a); unit(b); eq(&m3a((q(a) * q(b)).to_rotation()), &mm(m3a(q(a).to_rotation()), m3a(q(b).to_rotation()))); }
pub fn r_product_vector(a: [f64; 4], b: [f64; 4], v: [f64; 3]) { unit(a); unit(b); eq(&va((q(a) * q(b)) * v3(v)), &va(q(a) * (q(b) * v3(v)))); }
pub fn r_inverse(a: [f64; 4], v: [f64; 3]) { unit(a); match q(a).inverse() { Some(i) => eq(&va(i * (q(a) * v3(v))), &v), None => holds(false) } }
pub fn r_conj(a: [f64; 4]) { unit(a); eq(&m3a(q(a).conj().to_rotation()), &tr(m3a(q(a).to_rotation()))); }
pub fn r_double_cover(a: [f64; 4], v: [f64; 3]) { unit(a); eq(&va((-q(a)) * v3(v)), &va(q(a) * v3(v))); }
