//! C11: all views of a matrix refer to the same entries.
use crate::refm::*;
use crate::smrt::*;
use static_math::traits::LinearAlgebra;
use static_math::*;
macro_rules! mat_rules {
    ($m:ident, $M:ident, $V:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            type M = $M<f64>;
            type A = [[f64; $n]; $n];
            pub fn r_index(a: A) {
                let x = M::new(a);
                let mut i = 0;
                while i < $n { eq(&x[i], &a[i]); let mut j = 0; while j < $n { eq(&x[(i, j)], &a[i][j]); eq(&x[i][j], &a[i][j]); j += 1; } i += 1; }
                let y: M = a.into();
                eq::<A>(&y, &a);
            }
            pub fn r_write_pair(a: A, v: A) {
                // each entry written separately: it changes, the others do not
                let mut i = 0;
                while i < $n { let mut j = 0; while j < $n {
                    let mut x = M::new(a); x[(i, j)] = v[i][j];
                    let mut w = a; w[i][j] = v[i][j];
                    eq::<A>(&x, &w);
                    let mut x = M::new(a); x[i][j] = v[i][j];
                    eq::<A>(&x, &w);
                    j += 1; } i += 1; }
            }
            pub fn r_write_row(a: A, v: [f64; $n]) {
                let mut i = 0;
                while i < $n { let mut x = M::new(a); x[i] = v; let mut w = a; w[i] = v; eq::<A>(&x, &w); i += 1; }
            }
            pub fn r_write_deref(a: A, v: A) {
                let mut x = M::new(a);
                label("read"); eq::<A>(&*x, &a); holds((*x).len() == $n);
                let mut i = 0;
                while i < $n { let mut j = 0; while j < $n {
                    let mut x = M::new(a); (*x)[i][j] = v[i][j];
                    let mut w = a; w[i][j] = v[i][j];
                    label("write"); eq::<A>(&*x, &w); eq(&x[(i, j)], &v[i][j]);
                    j += 1; } i += 1; }
                for (r, k) in x.iter_mut().zip(v.iter()) { *r = *k; }
                label("rows"); eq::<A>(&*x, &v);
            }
            pub fn r_rows_cols(a: A) {
                let x = M::new(a);
                let (r, c) = (x.get_rows(), x.get_cols());
                let mut i = 0;
                while i < $n { label("row"); eq::<[f64; $n]>(&r[i], &a[i]); label("col"); let mut j = 0; while j < $n { eq(&c[i][j], &a[j][i]); j += 1; } i += 1; }
                label("from-columns");
                eq::<A>(&M::new_from_vecs(c), &a);
            }
            pub fn r_diagonal(a: A) { let d = M::new(a).get_diagonal(); let mut i = 0; while i < $n { eq(&d[i], &a[i][i]); i += 1; } }
            pub fn r_as_vec(a: A) { let v = M::new(a).as_vec(); let mut i = 0; holds(v.len() == $n * $n); while i < $n { let mut j = 0; while j < $n { eq(&v[i * $n + j], &a[i][j]); j += 1; } i += 1; } }
            pub fn r_for_each(a: A, k: f64) {
                let r = M::new(a).for_each(|x| x * x + k);
                let mut w = a; let mut i = 0;
                while i < $n { let mut j = 0; while j < $n { w[i][j] = a[i][j] * a[i][j] + k; j += 1; } i += 1; }
                eq::<A>(&r, &w);
            }
            pub fn r_shape(a: A) {
                let x = M::new(a);
                holds(x.rows() == $n); holds(x.cols() == $n);
                let l: &dyn Shape = &x; let _ = l;
                holds(LinearAlgebra::rows(&x) == $n); holds(LinearAlgebra::cols(&x) == $n);
                let s = x.shape(); holds(s.0 == $n); holds(s.1 == $n);
            }
        }
    };
}
pub trait Shape {}
impl<T> Shape for T {}
mat_rules!(m2, M22, V2, 2);
mat_rules!(m3, M33, V3, 3);
mat_rules!(m4, M44, V4, 4);
mat_rules!(m5, M55, V5, 5);
mat_rules!(m6, M66, V6, 6);
macro_rules! tri {
    ($f:ident, $M:ident, $n:expr, $u:ident, $l:ident) => {
        pub fn $f(a: [[f64; $n]; $n]) {
            let x = $M::new(a);
            let (u, l) = (x.$u(), x.$l());
            holds(u.len() == $n * ($n - 1) / 2); holds(l.len() == $n * ($n - 1) / 2);
            let (mut i, mut p, mut q) = (0, 0, 0);
            while i < $n { let mut j = 0; while j < $n {
                if j > i { label("upper"); eq(&u[p], &a[i][j]); p += 1; }
                if j < i { label("lower"); eq(&l[q], &a[i][j]); q += 1; }
                j += 1; } i += 1; }
        }
    };
}
tri!(r_triangles3, M33, 3, get_upper_triagular, get_lower_triangular);
tri!(r_triangles4, M44, 4, get_upper_triagular, get_lower_triangular);
tri!(r_triangles5, M55, 5, get_upper_triagular, get_lower_triangular);
tri!(r_triangles6, M66, 6, get_upper_triangular, get_lower_triangular);
pub fn r_submatrix4(a: [[f64; 4]; 4]) {
    let x = M44::new(a);
    let mut i = 0;
    while i < 4 { let mut j = 0; while j < 4 {
        let s = x.get_submatrix((i, j));
        let mut p = 0;
        while p < 3 { let mut q = 0; while q < 3 { eq(&s[(p, q)], &a[if p < i { p } else { p + 1 }][if q < j { q } else { q + 1 }]); q += 1; } p += 1; }
        j += 1; } i += 1; }
}
pub fn r_copy_block(a: [[f64; 6]; 6], b: [[f64; 3]; 3]) {
    let mut k = 1;
    while k <= 4 {
        let mut x = M66::new(a);
        x.copy_elements_from(&M33::new(b), k);
        let (r0, c0) = (if k > 2 { 3 } else { 0 }, if k % 2 == 0 { 3 } else { 0 });
        let mut w = a; let mut i = 0;
        while i < 3 { let mut j = 0; while j < 3 { w[r0 + i][c0 + j] = b[i][j]; j += 1; } i += 1; }
        eq::<[[f64; 6]; 6]>(&x, &w);
        k += 1;
    }
}
/// the vectors' components, for reading and writing
macro_rules! vec_rules { ($f:ident, $V:ident, $n:expr) => { pub fn $f(a: [f64; $n], b: [f64; $n]) {
    let x = $V::new(a); holds(x.len() == $n);
    let y: $V<f64> = a.into(); eq::<[f64; $n]>(&y, &a);
    let mut i = 0;
    while i < $n { eq(&x[i], &a[i]); let mut z = $V::new(a); z[i] = b[i]; let mut w = a; w[i] = b[i]; eq::<[f64; $n]>(&z, &w); i += 1; }
} } }
vec_rules!(r_v2, V2, 2);
vec_rules!(r_v3, V3, 3);
vec_rules!(r_v4, V4, 4);
vec_rules!(r_v5, V5, 5);
vec_rules!(r_v6, V6, 6);
