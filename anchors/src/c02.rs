//! C02: vector products and norms are the Euclidean ones.
use crate::smrt::*;
use crate::zint::*;
use static_math::*;

fn abs(x: f64) -> f64 { if x < 0.0 { -x } else { x } }
macro_rules! vec_rules {
    ($m:ident, $V:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            type V = $V<f64>;
            type A = [f64; $n];
            fn dot(a: &A, b: &A) -> f64 { let mut s = 0.0; let mut i = 0; while i < $n { s += a[i] * b[i]; i += 1; } s }
            pub fn r_dot(a: A, b: A) { let (x, y) = (V::new(a), V::new(b)); let r = x * y; eq(&r, &dot(&a, &b)); eq::<A>(&x, &a); eq::<A>(&y, &b); }
            pub fn r_norm2(a: A) { let x = V::new(a); let n = x.norm2(); eq(&(n * n), &dot(&a, &a)); holds(n >= 0.0); eq(&(x * x), &(n * n)); eq::<A>(&x, &a); }
            pub fn r_norm_l(a: A) { let x = V::new(a); let mut s = 0.0; let mut i = 0; while i < $n { s += abs(a[i]); i += 1; } eq(&x.norm_l(), &s); eq::<A>(&x, &a); }
            pub fn r_whole(a: A, b: A) {
                let (x, y) = ($V::new(z(a)), $V::new(z(b)));
                label("dot"); eq(&(x * y), &Z(dot(&a, &b)));
                label("norm_l"); let mut s = 0.0; let mut i = 0; while i < $n { s += abs(a[i]); i += 1; } eq(&x.norm_l(), &Z(s));
            }
            pub fn r_whole_norm_inf(a: A) { let r = $V::new(z(a)).norm_inf().0; let mut p = 1.0; let mut i = 0; while i < $n { holds(r >= a[i]); holds(r >= -a[i]); p = p * (r - a[i]) * (r + a[i]); i += 1; } eq(&p, &0.0); }
            /// an upper bound of all absolute values ...
            pub fn r_norm_inf_bound(a: A) { let r = V::new(a).norm_inf(); let mut i = 0; while i < $n { holds(r >= a[i]); holds(r >= -a[i]); i += 1; } }
            /// ... that is one of them
            pub fn r_norm_inf_attained(a: A) { let r = V::new(a).norm_inf(); let mut p = 1.0; let mut i = 0; while i < $n { p = p * (r - a[i]) * (r + a[i]); i += 1; } eq(&p, &0.0); }
        }
    };
}
vec_rules!(v2, V2, 2);
vec_rules!(v3, V3, 3);
vec_rules!(v4, V4, 4);
vec_rules!(v5, V5, 5);
vec_rules!(v6, V6, 6);
pub fn r_whole_cross(a: [f64; 3], b: [f64; 3]) { let r = V3::new(z(a)).cross(V3::new(z(b))); eq::<[Z; 3]>(&r, &z([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])); }
pub fn r_cross(a: [f64; 3], b: [f64; 3]) {
    let (x, y) = (V3::new(a), V3::new(b));
    let r = x.cross(y);
    eq::<[f64; 3]>(&r, &[a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]);
    label("orthogonal");
    eq(&(r * x), &0.0);
    eq(&(r * y), &0.0);
    label("anticommutes");
    eq(&(y.cross(x) + r), &V3::new([0.0; 3]));
}
