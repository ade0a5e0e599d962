//! C33: Display writes every component once, in order, to the formatter it is given.
use crate::refm::*;
use crate::smrt::*;
use static_math::*;
use core::fmt::Display;
macro_rules! vec_rules {
    ($f:ident, $V:ident, $n:expr) => {
        pub fn $f(a: [f64; $n]) {
            let x = $V::new(a);
            fmt_begin();
            let r = Display::fmt(&x, fmt_dest()).is_err();
            fmt_check(&a, r);
        }
    };
}
vec_rules!(r_v2, V2, 2);
vec_rules!(r_v3, V3, 3);
vec_rules!(r_v4, V4, 4);
vec_rules!(r_v5, V5, 5);
vec_rules!(r_v6, V6, 6);
macro_rules! mat_rules {
    ($f:ident, $M:ident, $n:expr) => {
        pub fn $f(a: [[f64; $n]; $n]) {
            let x = $M::new(a);
            fmt_begin();
            let r = Display::fmt(&x, fmt_dest()).is_err();
            fmt_check(&a, r);
        }
    };
}
mat_rules!(r_m22, M22, 2);
mat_rules!(r_m33, M33, 3);
mat_rules!(r_m44, M44, 4);
mat_rules!(r_m55, M55, 5);
mat_rules!(r_m66, M66, 6);
pub fn r_quaternion(a: [f64; 4]) {
    let q = Quaternion::new(a[0], V3::new_from(a[1], a[2], a[3]));
    fmt_begin();
    let r = Display::fmt(&q, fmt_dest()).is_err();
    fmt_check(&a, r);
}
pub fn r_dual_quaternion(a: [f64; 8]) {
    let q = DualQuaternion::new(Quaternion::new(a[0], V3::new_from(a[1], a[2], a[3])), Quaternion::new(a[4], V3::new_from(a[5], a[6], a[7])));
    fmt_begin();
    let r = Display::fmt(&q, fmt_dest()).is_err();
    fmt_check(&a, r);
}
