//! C06: determinant, trace, transpose and norm.
use crate::refm;
use crate::smrt::*;
use static_math::traits::LinearAlgebra;
use static_math::*;
macro_rules! mat_rules {
    ($m:ident, $M:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            type M = $M<f64>;
            type A = [[f64; $n]; $n];
            pub fn r_det(a: A) { let x = M::new(a); eq(&x.det(), &refm::det(&a)); eq::<A>(&x, &a); }
            pub fn r_trace(a: A) { let mut s = 0.0; let mut i = 0; while i < $n { s += a[i][i]; i += 1; } eq(&M::new(a).trace(), &s); }
            pub fn r_transpose(a: A) { let x = M::new(a); let t = x.transpose(); eq::<A>(&t, &refm::tr(a)); eq::<A>(&t.transpose(), &a); eq::<A>(&x, &a); }
            pub fn r_norm2(a: A) { let n = M::new(a).norm2(); let mut s = 0.0; let mut i = 0; while i < $n { let mut j = 0; while j < $n { s += a[i][j] * a[i][j]; j += 1; } i += 1; } eq(&(n * n), &s); holds(n >= 0.0); }
        }
    };
}
mat_rules!(m2, M22, 2);
mat_rules!(m3, M33, 3);
mat_rules!(m4, M44, 4);
mat_rules!(m5, M55, 5);
mat_rules!(m6, M66, 6);
macro_rules! mult { ($f:ident, $M:ident, $n:expr) => { pub fn $f(a: [[f64; $n]; $n], b: [[f64; $n]; $n]) { let (x, y) = ($M::new(a), $M::new(b)); eq(&(x * y).det(), &(x.det() * y.det())); eq(&x.transpose().det(), &x.det()); } } }
mult!(r_multiplicative2, M22, 2);
mult!(r_multiplicative3, M33, 3);
