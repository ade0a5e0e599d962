//! C08: QR factorisation.
use crate::refm::*;
use crate::smrt::*;
use static_math::traits::LinearAlgebra;
use static_math::*;
macro_rules! mat_rules {
    ($m:ident, $M:ident, $n:expr, $b:expr) => {
        pub mod $m {
            use super::*;
            type M = $M<f64>;
            type A = [[f64; $n]; $n];
            pub fn r_qr(a: A) {
                if $n > 2 { budget($b); partial(); }
                let x = M::new(a);
                let d = det(&a);
                assume(d > tol(1e-9, 1e-6) || d < -tol(1e-9, 1e-6));
                match x.qr() {
                    Some((q, r)) => {
                        label("orthonormal"); eq::<A>(&mm(tr(*q), *q), &id());
                        label("triangular"); let mut i = 0; while i < $n { let mut j = 0; while j < i { eq(&r[i][j], &0.0); j += 1; } i += 1; }
                        label("product"); eq::<A>(&mm(*q, *r), &a);
                    }
                    None => diverges(),
                }
                label("receiver");
                eq::<A>(&x, &a);
            }
            pub fn r_equal_columns_none(a: A) {
                let mut b = a; let mut i = 0; while i < $n { b[i][$n - 1] = b[i][0]; i += 1; }
                holds(M::new(b).qr().is_none());
            }
        }
    };
}
mat_rules!(m2, M22, 2, 4000);
mat_rules!(m3, M33, 3, 200);
mat_rules!(m4, M44, 4, 60);
mat_rules!(m5, M55, 5, 40);
mat_rules!(m6, M66, 6, 40);
