//! A client of the library in its no-std configuration: it has no standard library in scope.
#![no_std]
use static_math::{m22_new, m33_new, m44_new, m55_new, m66_new};
use static_math::*;
pub fn m22(x: f64) -> M22<f64> { m22_new!(x, 0.0; 0.0, 1.0) }
pub fn m33(x: f64) -> M33<f64> { m33_new!(x, 0.0, 1.0; 0.0, 1.0, 2.0; 3.0, 4.0, 5.0) }
pub fn m44(x: f64) -> M44<f64> { m44_new!(x, 0.0, 1.0, 2.0; 0.0, 1.0, 2.0, 3.0; 3.0, 4.0, 5.0, 6.0; 7.0, 8.0, 9.0, 10.0) }
pub fn m55(x: f64) -> M55<f64> { m55_new!(x, 0.0, 1.0, 2.0, 3.0; 0.0, 1.0, 2.0, 3.0, 4.0; 3.0, 4.0, 5.0, 6.0, 7.0; 7.0, 8.0, 9.0, 10.0, 1.0; 1.0, 2.0, 3.0, 4.0, 5.0) }
pub fn m66(x: f64) -> M66<f64> { m66_new!(x, 0.0, 1.0, 2.0, 3.0, 4.0; 0.0, 1.0, 2.0, 3.0, 4.0, 5.0; 3.0, 4.0, 5.0, 6.0, 7.0, 1.0; 7.0, 8.0, 9.0, 10.0, 1.0, 1.0; 1.0, 2.0, 3.0, 4.0, 5.0, 6.0; 1.0, 2.0, 3.0, 4.0, 5.0, 6.0) }
pub fn rotate(q: Quaternion<f64>, v: V3<f64>) -> V3<f64> { q.normalize().map_or(v, |q| q * v) }
pub fn pose(q: &Quaternion<f64>, v: &V3<f64>) -> M44<f64> { DualQuaternion::new_from_rot_trans(q, v).to_homogeneous() }
