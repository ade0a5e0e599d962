//! C01: vector arithmetic is componentwise.
use crate::smrt::*;
use crate::zint::*;
use static_math::*;

macro_rules! vec_rules {
    ($m:ident, $V:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            type V = $V<f64>;
            type A = [f64; $n];
            fn map2(a: A, b: A, f: fn(f64, f64) -> f64) -> A { let mut r = [0.0; $n]; let mut i = 0; while i < $n { r[i] = f(a[i], b[i]); i += 1; } r }
            fn map1(a: A, s: f64, f: fn(f64, f64) -> f64) -> A { map2(a, [s; $n], f) }
            pub fn r_add(a: A, b: A) { let (x, y) = (V::new(a), V::new(b)); let r = x + y; eq::<A>(&r, &map2(a, b, |p, q| p + q)); eq::<A>(&x, &a); eq::<A>(&y, &b); }
            pub fn r_sub(a: A, b: A) { let r = V::new(a) - V::new(b); eq::<A>(&r, &map2(a, b, |p, q| p - q)); }
            pub fn r_neg(a: A) { let r = -V::new(a); eq::<A>(&r, &map1(a, 0.0, |p, _| -p)); }
            pub fn r_mul_scalar(a: A, s: f64) { let r = V::new(a) * s; eq::<A>(&r, &map1(a, s, |p, q| p * q)); }
            pub fn r_div_scalar(a: A, s: f64) { may_panic("divides by zero"); let r = V::new(a) / s; eq::<A>(&r, &map1(a, s, |p, q| p / q)); }
            pub fn r_scalar_mul(a: [f32; $n], s: f32) { let r = s * $V::<f32>::new(a); let mut w = [0.0f32; $n]; let mut i = 0; while i < $n { w[i] = s * a[i]; i += 1; } eq::<[f32; $n]>(&r, &w); }
            pub fn r_add_assign(a: A, b: A) { let mut x = V::new(a); let y = V::new(b); x += y; eq::<A>(&x, &map2(a, b, |p, q| p + q)); eq::<A>(&y, &b); }
            pub fn r_sub_assign(a: A, b: A) { let mut x = V::new(a); let y = V::new(b); x -= y; eq::<A>(&x, &map2(a, b, |p, q| p - q)); eq::<A>(&y, &b); }
            // whole numbers: the operations are the element type's own
            fn zmap(a: A, b: A, f: fn(Z, Z) -> Z) -> [Z; $n] { let mut r = z(a); let mut i = 0; while i < $n { r[i] = f(Z(a[i]), Z(b[i])); i += 1; } r }
            pub fn r_whole(a: A, b: A, s: f64) {
                let (x, y) = ($V::new(z(a)), $V::new(z(b)));
                label("add"); eq::<[Z; $n]>(&(x + y), &zmap(a, b, |p, q| p + q));
                label("sub"); eq::<[Z; $n]>(&(x - y), &zmap(a, b, |p, q| p - q));
                label("neg"); eq::<[Z; $n]>(&-x, &zmap(a, b, |p, _| -p));
                label("scale"); eq::<[Z; $n]>(&(x * Z(s)), &zmap(a, [s; $n], |p, q| p * q));
                label("add-assign"); let mut v = x; v += y; eq::<[Z; $n]>(&v, &zmap(a, b, |p, q| p + q));
                label("sub-assign"); let mut v = x; v -= y; eq::<[Z; $n]>(&v, &zmap(a, b, |p, q| p - q));
            }
            pub fn r_whole_div(a: A, s: f64) { may_panic("divides by zero"); let r = $V::new(z(a)) / Z(s); eq::<[Z; $n]>(&r, &zmap(a, [s; $n], |p, q| p / q)); }
            // the 32-bit float instance
            pub fn r_add_f32(a: [f32; $n], b: [f32; $n]) { let r = $V::<f32>::new(a) + $V::<f32>::new(b); let mut w = a; let mut i = 0; while i < $n { w[i] = a[i] + b[i]; i += 1; } eq::<[f32; $n]>(&r, &w); }
        }
    };
}
vec_rules!(v2, V2, 2);
vec_rules!(v3, V3, 3);
vec_rules!(v4, V4, 4);
vec_rules!(v5, V5, 5);
vec_rules!(v6, V6, 6);
pub fn r_f64_mul_v3(a: [f64; 3], s: f64) { let r = s * V3::new(a); eq::<[f64; 3]>(&r, &[s * a[0], s * a[1], s * a[2]]); }
pub fn r_bitand(a: [bool; 4], b: [bool; 4]) { let r = V4::new(a) & V4::new(b); eq::<[bool; 4]>(&r, &[a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]); }
