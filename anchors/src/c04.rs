//! C04: matrix addition, subtraction and scaling are entrywise.
use crate::smrt::*;
use crate::zint::*;
use static_math::*;
macro_rules! mat_rules {
    ($m:ident, $M:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            type M = $M<f64>;
            type A = [[f64; $n]; $n];
            fn map2(a: A, b: A, f: fn(f64, f64) -> f64) -> A { let mut r = a; let mut i = 0; while i < $n { let mut j = 0; while j < $n { r[i][j] = f(a[i][j], b[i][j]); j += 1; } i += 1; } r }
            fn map1(a: A, s: f64, f: fn(f64, f64) -> f64) -> A { map2(a, [[s; $n]; $n], f) }
            pub fn r_add(a: A, b: A) { let (x, y) = (M::new(a), M::new(b)); let r = x + y; eq::<A>(&r, &map2(a, b, |p, q| p + q)); eq::<A>(&x, &a); eq::<A>(&y, &b); }
            pub fn r_sub(a: A, b: A) { let r = M::new(a) - M::new(b); eq::<A>(&r, &map2(a, b, |p, q| p - q)); }
            pub fn r_neg(a: A) { let r = -M::new(a); eq::<A>(&r, &map1(a, 0.0, |p, _| -p)); }
            pub fn r_mul_scalar(a: A, s: f64) { let r = M::new(a) * s; eq::<A>(&r, &map1(a, s, |p, q| p * q)); }
            pub fn r_div_scalar(a: A, s: f64) { may_panic("divides by zero"); let r = M::new(a) / s; eq::<A>(&r, &map1(a, s, |p, q| p / q)); }
            // whole numbers: the operations are the element type's own
            fn zmap(a: A, b: A, f: fn(Z, Z) -> Z) -> [[Z; $n]; $n] { let mut r = zz(a); let mut i = 0; while i < $n { let mut j = 0; while j < $n { r[i][j] = f(Z(a[i][j]), Z(b[i][j])); j += 1; } i += 1; } r }
            pub fn r_whole(a: A, b: A, s: f64) {
                let (x, y) = ($M::new(zz(a)), $M::new(zz(b)));
                label("add"); eq::<[[Z; $n]; $n]>(&(x + y), &zmap(a, b, |p, q| p + q));
                label("sub"); eq::<[[Z; $n]; $n]>(&(x - y), &zmap(a, b, |p, q| p - q));
                label("neg"); eq::<[[Z; $n]; $n]>(&-x, &zmap(a, b, |p, _| -p));
                label("scale"); eq::<[[Z; $n]; $n]>(&(x * Z(s)), &zmap(a, [[s; $n]; $n], |p, q| p * q));
                label("add-assign"); let mut v = x; v += y; eq::<[[Z; $n]; $n]>(&v, &zmap(a, b, |p, q| p + q));
                label("sub-assign"); let mut v = x; v -= y; eq::<[[Z; $n]; $n]>(&v, &zmap(a, b, |p, q| p - q));
            }
            pub fn r_whole_div(a: A, s: f64) { may_panic("divides by zero"); let r = $M::new(zz(a)) / Z(s); eq::<[[Z; $n]; $n]>(&r, &zmap(a, [[s; $n]; $n], |p, q| p / q)); }
            pub fn r_add_assign(a: A, b: A) { let mut x = M::new(a); let y = M::new(b); x += y; eq::<A>(&x, &map2(a, b, |p, q| p + q)); eq::<A>(&y, &b); }
            pub fn r_sub_assign(a: A, b: A) { let mut x = M::new(a); let y = M::new(b); x -= y; eq::<A>(&x, &map2(a, b, |p, q| p - q)); eq::<A>(&y, &b); }
        }
    };
}
mat_rules!(m2, M22, 2);
mat_rules!(m3, M33, 3);
mat_rules!(m4, M44, 4);
mat_rules!(m5, M55, 5);
mat_rules!(m6, M66, 6);
macro_rules! left {
    ($f:ident, $M:ident, $t:ty, $n:expr) => {
        pub fn $f(a: [[$t; $n]; $n], s: $t) {
            let r = s * $M::<$t>::new(a);
            let mut w = a; let mut i = 0;
            while i < $n { let mut j = 0; while j < $n { w[i][j] = s * a[i][j]; j += 1; } i += 1; }
            eq::<[[$t; $n]; $n]>(&r, &w);
        }
    };
}
left!(r_f32_mul_m22, M22, f32, 2);
left!(r_f32_mul_m33, M33, f32, 3);
left!(r_f64_mul_m33, M33, f64, 3);
