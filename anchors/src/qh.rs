//! library values from and to raw arrays
use static_math::dual_quaternion::DualQuaternion;
use static_math::matrix3x3::M33;
use static_math::matrix4x4::M44;
use static_math::quaternion::Quaternion;
use static_math::vector3::V3;
use crate::refm::*;
pub type Q = Quaternion<f64>;
pub type D = DualQuaternion<f64>;
pub fn q(a: [f64; 4]) -> Q { Quaternion::new_from(a[0], a[1], a[2], a[3]) }
/// the same quaternion, marked as normalised (a must be unit)
pub fn fq(a: [f64; 4]) -> Q { match q(a).normalize() { Some(r) => r, None => loop {} } }
pub fn qa(q: Q) -> [f64; 4] { let v = q.imag(); [q.real(), v[0], v[1], v[2]] }
pub fn v3(a: [f64; 3]) -> V3<f64> { V3::new_from(a[0], a[1], a[2]) }
pub fn va(v: V3<f64>) -> [f64; 3] { [v[0], v[1], v[2]] }
pub fn m3(a: [[f64; 3]; 3]) -> M33<f64> { M33::new(a) }
pub fn m4(a: [[f64; 4]; 4]) -> M44<f64> { M44::new(a) }
pub fn m3a(m: M33<f64>) -> [[f64; 3]; 3] { let mut r = [[0.0; 3]; 3]; let mut i = 0; while i < 3 { let mut j = 0; while j < 3 { r[i][j] = m[(i, j)]; j += 1; } i += 1; } r }
pub fn m4a(m: M44<f64>) -> [[f64; 4]; 4] { let mut r = [[0.0; 4]; 4]; let mut i = 0; while i < 4 { let mut j = 0; while j < 4 { r[i][j] = m[(i, j)]; j += 1; } i += 1; } r }
pub fn d(a: [f64; 4], b: [f64; 4]) -> D { DualQuaternion::new(q(a), q(b)) }
pub fn da(x: D) -> [[f64; 4]; 2] { [qa(x.real()), qa(x.dual())] }
pub fn add4(a: [f64; 4], b: [f64; 4]) -> [f64; 4] { [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]] }
pub fn sc4(a: [f64; 4], s: f64) -> [f64; 4] { [a[0] * s, a[1] * s, a[2] * s, a[3] * s] }
pub fn add3(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn sc3(a: [f64; 3], s: f64) -> [f64; 3] { [a[0] * s, a[1] * s, a[2] * s] }
pub fn abs(x: f64) -> f64 { if x < 0.0 { -x } else { x } }
pub fn pure(v: [f64; 3]) -> [f64; 4] { [0.0, v[0], v[1], v[2]] }
