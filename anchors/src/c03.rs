//! C03: normalisation gives the unit vector of the same direction, or an error for zero.
use crate::refm::*;
use crate::smrt::*;
use static_math::errors::VectorErrors;
use static_math::*;
macro_rules! vec_rules {
    ($m:ident, $V:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            type A = [f64; $n];
            pub fn r_nonzero(a: A) {
                let mut x = $V::new(a);
                assume(dotn(&a, &a) > 0.0);
                let n = x.norm2();
                match x.normalize() {
                    Ok(r) => {
                        let mut i = 0;
                        while i < $n { eq(&(r[i] * n), &a[i]); i += 1; }
                        label("unit");
                        eq(&dotn(&r, &r), &1.0);
                        label("by-norm");
                        let mut w = a; let mut i = 0; while i < $n { w[i] = a[i] / n; i += 1; }
                        eq::<A>(&r, &w);
                    }
                    Err(_) => diverges(),
                }
                label("receiver");
                eq::<A>(&x, &a);
                holds(n > 0.0);
            }
            pub fn r_zero() {
                let mut x = $V::new([0.0 as f64; $n]);
                match x.normalize() { Ok(_) => diverges(), Err(e) => { match e { VectorErrors::Norm2IsZero => holds(true), _ => diverges() } } }
            }
            /// every value returned is a unit vector, however short the input
            pub fn r_ok_is_unit(a: A) {
                let mut x = $V::new(a);
                if let Ok(r) = x.normalize() { eq(&dotn(&r, &r), &1.0); }
            }
        }
    };
}
vec_rules!(v2, V2, 2);
vec_rules!(v3, V3, 3);
vec_rules!(v4, V4, 4);
vec_rules!(v5, V5, 5);
vec_rules!(v6, V6, 6);
