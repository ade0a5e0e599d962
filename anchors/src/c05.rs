//! C05: matrix products follow the row-by-column rule.
use crate::refm::*;
use crate::smrt::*;
use static_math::traits::LinearAlgebra;
use crate::zint::*;
use static_math::*;
macro_rules! mat_rules {
    ($m:ident, $M:ident, $V:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            type M = $M<f64>;
            type V = $V<f64>;
            type A = [[f64; $n]; $n];
            type B = [f64; $n];
            pub fn r_mat_mat(a: A, b: A) { let (x, y) = (M::new(a), M::new(b)); let r = x * y; eq::<A>(&r, &mm(a, b)); eq::<A>(&x, &a); eq::<A>(&y, &b); }
            pub fn r_mat_vec(a: A, v: B) { let r = M::new(a) * V::new(v); eq::<B>(&r, &mv(a, v)); }
            pub fn r_vec_mat(a: A, v: B) { let r = V::new(v) * M::new(a); eq::<B>(&r, &vm(v, a)); }
            pub fn r_whole(a: A, b: A, v: B) {
                let (x, y, u) = ($M::new(zz(a)), $M::new(zz(b)), $V::new(z(v)));
                label("mat-mat"); eq::<[[Z; $n]; $n]>(&(x * y), &zz(mm(a, b)));
                label("mat-vec"); eq::<[Z; $n]>(&(x * u), &z(mv(a, v)));
                label("vec-mat"); eq::<[Z; $n]>(&(u * x), &z(vm(v, a)));
            }
            pub fn r_transpose_of_product(a: A, b: A) { let (x, y) = (M::new(a), M::new(b)); let l = (x * y).transpose(); let r = y.transpose() * x.transpose(); eq::<A>(&l, &r); }
        }
    };
}
mat_rules!(m2, M22, V2, 2);
mat_rules!(m3, M33, V3, 3);
mat_rules!(m4, M44, V4, 4);
mat_rules!(m5, M55, V5, 5);
mat_rules!(m6, M66, V6, 6);
macro_rules! assoc { ($f:ident, $M:ident, $n:expr) => { pub fn $f(a: [[f64; $n]; $n], b: [[f64; $n]; $n], c: [[f64; $n]; $n]) { let (x, y, z) = ($M::new(a), $M::new(b), $M::new(c)); let l = (x * y) * z; let r = x * (y * z); eq::<[[f64; $n]; $n]>(&l, &r); } } }
assoc!(r_assoc2, M22, 2);
assoc!(r_assoc3, M33, 3);
