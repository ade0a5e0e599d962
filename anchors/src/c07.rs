//! C07: inversion returns the true inverse, or none for a singular matrix, and never panics.
use crate::refm::*;
use crate::smrt::*;
use static_math::traits::LinearAlgebra;
use static_math::*;
macro_rules! mat_rules {
    ($m:ident, $M:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            type M = $M<f64>;
            type A = [[f64; $n]; $n];
            /// whatever is returned is an inverse on both sides
            pub fn r_some_is_inverse(a: A) {
                let x = M::new(a);
                match x.inverse() {
                    Some(r) => {
                        label("right"); eq::<A>(&mm(a, *r), &id());
                        label("left"); eq::<A>(&mm(*r, a), &id());
                    }
                    None => {}
                }
                label("receiver");
                eq::<A>(&x, &a);
            }
            /// determinant away from zero: there is a value
            pub fn r_regular_is_some(a: A) {
                let d = det(&a);
                assume(d > tol(1e-9, 1e-6) || d < -tol(1e-9, 1e-6));
                holds(M::new(a).inverse().is_some());
            }
            /// two equal rows, and a zero column: none
            pub fn r_equal_rows_none(a: A) {
                let mut b = a; b[$n - 1] = b[0];
                holds(M::new(b).inverse().is_none());
            }
            pub fn r_zero_column_none(a: A) {
                let mut b = a; let mut i = 0; while i < $n { b[i][0] = 0.0; i += 1; }
                holds(M::new(b).inverse().is_none());
            }
        }
    };
}
mat_rules!(m2, M22, 2);
mat_rules!(m3, M33, 3);
mat_rules!(m4, M44, 4);
mat_rules!(m5, M55, 5);
mat_rules!(m6, M66, 6);
