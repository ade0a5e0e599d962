//! C12: zeros, identities, constants and constructors.
use crate::refm::*;
use crate::smrt::*;
use num::{One, Zero};
use static_math::*;
macro_rules! both {
    ($m:ident, $M:ident, $V:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            type A = [[f64; $n]; $n];
            type B = [f64; $n];
            pub fn r_zero_matrix(a: A) {
                let z = $M::<f64>::zeros();
                eq::<A>(&z, &[[0.0; $n]; $n]); eq::<A>(&$M::<f64>::zero(), &[[0.0; $n]; $n]);
                eq::<A>(&($M::new(a) + z), &a); eq::<A>(&(z + $M::new(a)), &a);
                holds(z.is_zero());
            }
            /// is_zero is true exactly of the zero matrix
            pub fn r_is_zero_matrix(a: A) {
                let x = $M::new(a).is_zero();
                let mut all = true; let mut i = 0;
                while i < $n { let mut j = 0; while j < $n { if a[i][j] != 0.0 { all = false; } j += 1; } i += 1; }
                holds(x == all);
            }
            pub fn r_identity(a: A, v: B) {
                let e = $M::<f64>::identity();
                eq::<A>(&e, &id()); eq::<A>(&$M::<f64>::one(), &id());
                eq::<A>(&($M::new(a) * e), &a); eq::<A>(&(e * $M::new(a)), &a); eq::<B>(&(e * $V::new(v)), &v);
            }
            pub fn r_zero_vector(a: B) {
                let z = $V::<f64>::zeros();
                eq::<B>(&z, &[0.0; $n]); eq::<B>(&$V::<f64>::zero(), &[0.0; $n]);
                eq::<B>(&($V::new(a) + z), &a); eq::<B>(&(z + $V::new(a)), &a);
                holds(z.is_zero());
                eq::<B>(&$V::<f64>::ones(), &[1.0; $n]);
            }
            pub fn r_is_zero_vector(a: B) {
                let x = $V::new(a).is_zero();
                let mut all = true; let mut i = 0;
                while i < $n { if a[i] != 0.0 { all = false; } i += 1; }
                holds(x == all);
            }
        }
    };
}
both!(d2, M22, V2, 2);
both!(d3, M33, V3, 3);
both!(d4, M44, V4, 4);
both!(d5, M55, V5, 5);
both!(d6, M66, V6, 6);
pub fn r_new_from(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) {
    eq::<[f64; 2]>(&V2::new_from(a, b), &[a, b]);
    eq::<[f64; 3]>(&V3::new_from(a, b, c), &[a, b, c]);
    eq::<[f64; 4]>(&V4::new_from(a, b, c, d), &[a, b, c, d]);
    eq::<[f64; 5]>(&V5::new_from(a, b, c, d, e), &[a, b, c, d, e]);
    eq::<[f64; 6]>(&V6::new_from(a, b, c, d, e, f), &[a, b, c, d, e, f]);
    eq::<[[f64; 2]; 2]>(&M22::new_from(a, b, c, d), &[[a, b], [c, d]]);
}
pub fn r_macros(a: [[f64; 6]; 6]) {
    eq::<[[f64; 2]; 2]>(&m22_new!(a[0][0], a[0][1]; a[1][0], a[1][1]), &[[a[0][0], a[0][1]], [a[1][0], a[1][1]]]);
    eq::<[[f64; 3]; 3]>(&m33_new!(a[0][0], a[0][1], a[0][2]; a[1][0], a[1][1], a[1][2]; a[2][0], a[2][1], a[2][2]),
        &[[a[0][0], a[0][1], a[0][2]], [a[1][0], a[1][1], a[1][2]], [a[2][0], a[2][1], a[2][2]]]);
    let r = m44_new!(a[0][0], a[0][1], a[0][2], a[0][3]; a[1][0], a[1][1], a[1][2], a[1][3]; a[2][0], a[2][1], a[2][2], a[2][3]; a[3][0], a[3][1], a[3][2], a[3][3]);
    let mut i = 0; while i < 4 { let mut j = 0; while j < 4 { eq(&r[(i, j)], &a[i][j]); j += 1; } i += 1; }
    let r = m55_new!(a[0][0], a[0][1], a[0][2], a[0][3], a[0][4]; a[1][0], a[1][1], a[1][2], a[1][3], a[1][4]; a[2][0], a[2][1], a[2][2], a[2][3], a[2][4];
        a[3][0], a[3][1], a[3][2], a[3][3], a[3][4]; a[4][0], a[4][1], a[4][2], a[4][3], a[4][4]);
    let mut i = 0; while i < 5 { let mut j = 0; while j < 5 { eq(&r[(i, j)], &a[i][j]); j += 1; } i += 1; }
    let r = m66_new!(a[0][0], a[0][1], a[0][2], a[0][3], a[0][4], a[0][5]; a[1][0], a[1][1], a[1][2], a[1][3], a[1][4], a[1][5]; a[2][0], a[2][1], a[2][2], a[2][3], a[2][4], a[2][5];
        a[3][0], a[3][1], a[3][2], a[3][3], a[3][4], a[3][5]; a[4][0], a[4][1], a[4][2], a[4][3], a[4][4], a[4][5]; a[5][0], a[5][1], a[5][2], a[5][3], a[5][4], a[5][5]);
    eq::<[[f64; 6]; 6]>(&r, &a);
}
pub fn r_constants() {
    eq::<[f32; 2]>(&V2_ZEROS, &[0.0; 2]); eq::<[f32; 3]>(&V3_ZEROS, &[0.0; 3]); eq::<[f32; 4]>(&V4_ZEROS, &[0.0; 4]);
    eq::<[f32; 5]>(&V5_ZEROS, &[0.0; 5]); eq::<[f32; 6]>(&V6_ZEROS, &[0.0; 6]);
    eq::<[f32; 3]>(&X_AXIS, &[1.0, 0.0, 0.0]); eq::<[f32; 3]>(&Y_AXIS, &[0.0, 1.0, 0.0]); eq::<[f32; 3]>(&Z_AXIS, &[0.0, 0.0, 1.0]);
    eq::<[f32; 2]>(&static_math::vector2::X_AXIS, &[1.0, 0.0]); eq::<[f32; 2]>(&static_math::vector2::Y_AXIS, &[0.0, 1.0]);
    eq::<[[f32; 2]; 2]>(&static_math::matrix2x2::M22_ZEROS, &[[0.0; 2]; 2]);
    eq::<[[f32; 2]; 2]>(&static_math::matrix2x2::M22_IDENT, &[[1.0, 0.0], [0.0, 1.0]]);
    eq::<[f64; 3]>(&V3::x_axis(), &[1.0, 0.0, 0.0]); eq::<[f64; 3]>(&V3::y_axis(), &[0.0, 1.0, 0.0]); eq::<[f64; 3]>(&V3::z_axis(), &[0.0, 0.0, 1.0]);
}
/// integer vectors and matrices are built the same way
pub fn r_integer() {
    eq::<[i32; 3]>(&V3::<i32>::zeros(), &[0; 3]); eq::<[i32; 3]>(&V3::<i32>::ones(), &[1; 3]);
    eq::<[[i32; 3]; 3]>(&M33::<i32>::identity(), &[[1, 0, 0], [0, 1, 0], [0, 0, 1]]);
}
