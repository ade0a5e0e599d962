//! C18: rotation matrix to quaternion and back.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::quaternion::Quaternion;
pub fn r_round_trip(a: [f64; 4]) {
    unit(a);
    let r = qmat(a);
    let x = qa(Quaternion::from_rotation(&m3(r)));
    label("unit"); eq(&dotn(&x, &x), &1.0);
    label("matrix"); eq(&m3a(q(x).to_rotation()), &r);
}
/// the extracted quaternion is the original one up to sign
pub fn r_quaternion(a: [f64; 4]) {
    unit(a);
    let x = qa(Quaternion::from_rotation(&m3(qmat(a))));
    let mut i = 0;
    while i < 4 { let mut j = 0; while j < 4 { eq(&(x[i] * x[j]), &(a[i] * a[j])); j += 1; } i += 1; }
}
/// in each case the component the others are divided by is the root of a number that is not small: the cases exist
/// because the other roots can be rounding residue
pub fn r_well_conditioned(a: [f64; 4]) { unit(a); margin(0.05); let _ = Quaternion::from_rotation(&m3(qmat(a))); holds(true); }
