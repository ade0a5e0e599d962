//! C09: LU decomposition with partial pivoting.
use crate::refm::*;
use crate::smrt::*;
use static_math::*;
/// combine unit-lower and upper factor; permute rows of a as the sequence of exchanges says; compare
fn check<const N: usize>(a: [[f64; N]; N], lu: [[f64; N]; N], d: f64, ix: [usize; N], want_det: f64) {
    let mut l = id::<N>();
    let mut u = [[0.0; N]; N];
    let mut i = 0;
    while i < N { let mut j = 0; while j < N { if j < i { l[i][j] = lu[i][j]; } else { u[i][j] = lu[i][j]; } j += 1; } i += 1; }
    let mut p = a;
    let mut k = 0;
    while k < N { holds(ix[k] < N); holds(ix[k] >= k); let t = p[k]; p[k] = p[ix[k]]; p[ix[k]] = t; k += 1; }
    label("product");
    eq(&mm(l, u), &p);
    label("det");
    eq(&d, &want_det);
}
/// as `check`, but the pivot `z` is a vanishing one in the place of zero
fn check_singular<const N: usize>(a: [[f64; N]; N], lu: [[f64; N]; N], d: f64, ix: [usize; N], z: usize) {
    let mut l = id::<N>();
    let mut u = [[0.0; N]; N];
    let mut i = 0;
    while i < N { let mut j = 0; while j < N { if j < i { l[i][j] = lu[i][j]; } else { u[i][j] = lu[i][j]; } j += 1; } i += 1; }
    let mut p = a;
    let mut k = 0;
    while k < N { holds(ix[k] < N); holds(ix[k] >= k); let t = p[k]; p[k] = p[ix[k]]; p[ix[k]] = t; k += 1; }
    let mut m = mm(l, u);
    label("vanishing pivot");
    holds(m[z][z] < 1e-30); holds(m[z][z] > -1e-30);
    m[z][z] = p[z][z];
    label("product");
    eq(&m, &p);
    label("det");
    holds(d < 1e-30); holds(d > -1e-30);
}
fn sign<const N: usize>(p: [usize; N]) -> f64 {
    let mut s = 1.0;
    let mut i = 0;
    while i < N { let mut j = i + 1; while j < N { if p[j] < p[i] { s = -s; } j += 1; } i += 1; }
    s
}
/// 2x2, every regular matrix
pub fn r_lu2(a: [[f64; 2]; 2]) {
    let d = det(&a);
    assume(d > tol(1e-9, 1e-6) || d < -tol(1e-9, 1e-6));
    let x = M22::new(a);
    let (lu, dd, ix) = x.lu();
    check(a, *lu, dd, *ix, d);
    label("receiver");
    eq::<[[f64; 2]; 2]>(&x, &a);
}
macro_rules! each {
    (2, $f:ident, $d:expr) => { pub fn r_0(e: A) { $f(e, 0, $d); } pub fn r_1(e: A) { $f(e, 1, $d); } };
    (3, $f:ident, $d:expr) => { each!(2, $f, $d); pub fn r_2(e: A) { $f(e, 2, $d); } };
    (4, $f:ident, $d:expr) => { each!(3, $f, $d); pub fn r_3(e: A) { $f(e, 3, $d); } };
    (5, $f:ident, $d:expr) => { each!(4, $f, $d); pub fn r_4(e: A) { $f(e, 4, $d); } };
    (6, $f:ident, $d:expr) => { each!(5, $f, $d); pub fn r_5(e: A) { $f(e, 5, $d); } };
}
macro_rules! dominant {
    ($m:ident, $M:ident, $n:tt, $b:expr) => {
        pub mod $m {
            use super::*;
            type A = [[f64; $n]; $n];
            /// matrices whose rows, once reordered by `perm`, have a dominant diagonal: the pivot choice is fixed,
            /// all entries stay symbolic
            fn run(e: A, perm: [usize; $n]) {
                budget($b);
                let mut a = e;
                let mut i = 0;
                while i < $n {
                    let mut j = 0;
                    while j < $n {
                        within(e[i][j], 0.5, 1.0);
                        a[perm[i]][j] = if i == j { e[i][j] + 1000.0 } else { e[i][j] };
                        j += 1;
                    }
                    i += 1;
                }
                let (lu, dd, ix) = $M::new(a).lu();
                check(a, *lu, dd, *ix, det(&a));
            }
            fn ident() -> [usize; $n] { let mut p = [0; $n]; let mut i = 0; while i < $n { p[i] = i; i += 1; } p }
            pub fn r_ident(e: A) { run(e, ident()); }
            pub fn r_reversed(e: A) { let mut p = ident(); let mut i = 0; while i < $n { p[i] = $n - 1 - i; i += 1; } run(e, p); }
            pub fn r_cycle(e: A) { let mut p = ident(); let mut i = 0; while i < $n { p[i] = (i + 1) % $n; i += 1; } run(e, p); }
            pub fn r_shift2(e: A) { let mut p = ident(); let mut i = 0; while i < $n { p[i] = (i + 2) % $n; i += 1; } run(e, p); }
            /// upper triangular up to the order of the rows: every pivot but one in its column is exactly zero, so the
            /// exchange is forced
            fn tri(e: A, perm: [usize; $n], zero: usize) { triangular(e, perm, zero, false) }
            fn triangular(e: A, perm: [usize; $n], zero: usize, ordered: bool) {
                budget($b);
                let mut a = [[0.0; $n]; $n];
                let mut want = 1.0;
                let mut i = 0;
                while i < $n {
                    let mut j = i;
                    while j < $n {
                        if ordered { let lo = 0.5 + ((i * $n + j) * 7 % 41) as f64 * 0.0625; within(e[i][j], lo, lo + 0.03125); } else { within(e[i][j], 0.5, 2.0); }
                        a[perm[i]][j] = if i == j && i == zero { 0.0 } else { e[i][j] };
                        j += 1;
                    }
                    want *= e[i][i];
                    i += 1;
                }
                let (lu, dd, ix) = $M::new(a).lu();
                if zero >= $n {
                    let s = sign(perm);
                    check(a, *lu, dd, *ix, want * s);
                } else {
                    check_singular(a, *lu, dd, *ix, zero);
                }
            }
            pub fn r_tri_ident(e: A) { tri(e, ident(), 9); }
            pub fn r_tri_reversed(e: A) { let mut p = ident(); let mut i = 0; while i < $n { p[i] = $n - 1 - i; i += 1; } tri(e, p, 9); }
            pub fn r_tri_cycle(e: A) { let mut p = ident(); let mut i = 0; while i < $n { p[i] = (i + 1) % $n; i += 1; } tri(e, p, 9); }
            pub fn r_tri_back(e: A) { let mut p = ident(); let mut i = 0; while i < $n { p[i] = (i + $n - 1) % $n; i += 1; } tri(e, p, 9); }
            pub fn r_tri_swap_last(e: A) { let mut p = ident(); p[$n - 1] = $n - 2; p[$n - 2] = $n - 1; tri(e, p, 9); }
            /// a pivot that vanishes: the matrix is singular
            pub fn r_zero_first(e: A) { tri(e, ident(), 0); }
            pub fn r_zero_before_last(e: A) { tri(e, ident(), $n - 2); }
            pub fn r_zero_before_last_cycle(e: A) { let mut p = ident(); let mut i = 0; while i < $n { p[i] = (i + 1) % $n; i += 1; } tri(e, p, $n - 2); }
            /// the k-th permutation
            fn nth(mut k: usize) -> [usize; $n] {
                let mut p = ident();
                let mut i = 0;
                while i < $n {
                    let j = i + k % ($n - i);
                    k /= $n - i;
                    let x = p[j]; let mut m = j; while m > i { p[m] = p[m - 1]; m -= 1; } p[i] = x;
                    i += 1;
                }
                p
            }
            /// dominant, a third of the entries symbolic
            fn sparse(e: A, perm: [usize; $n]) {
                budget($b);
                let mut a = [[0.0; $n]; $n];
                let mut i = 0;
                while i < $n {
                    let mut j = 0;
                    while j < $n {
                        let lo = 0.5 + ((i * $n + j) * 7 % 41) as f64 * 0.015625;
                        within(e[i][j], lo, lo + 0.0078125);
                        let x = if (i + 2 * j) % 3 == 0 { e[i][j] } else { lo };
                        a[perm[i]][j] = if i == j { x + 1000.0 } else { x };
                        j += 1;
                    }
                    i += 1;
                }
                let (lu, dd, ix) = $M::new(a).lu();
                // the product tells the determinant up to the sign of the exchanges
                let mut want = 1.0;
                let mut i = 0;
                while i < $n { want *= lu[(i, i)]; if ix[i] != i { want = -want; } i += 1; }
                check(a, *lu, dd, *ix, want);
            }
            /// every order of the rows in which row `first` comes first
            fn orders(e: A, first: usize, dense: bool) {
                let mut f = 1; let mut i = 2; while i < $n { f *= i; i += 1; }
                let mut k = 0;
                while k < f { let p = nth(first + $n * k); if dense { run(e, p); } else { sparse(e, p); } k += 1; }
            }
            /// every vanishing pivot
            pub fn r_zeros(e: A) { let mut z = 0; while z < $n { triangular(e, ident(), z, true); z += 1; } }
            pub mod orders { use super::*; each!($n, orders, $n < 6); }
            pub fn r_swap_last(e: A) { let mut p = ident(); p[$n - 1] = $n - 2; p[$n - 2] = $n - 1; run(e, p); }
        }
    };
}
dominant!(m2, M22, 2, 2000);
dominant!(m3, M33, 3, 2000);
dominant!(m4, M44, 4, 200);
dominant!(m5, M55, 5, 60);
dominant!(m6, M66, 6, 40);
/// 3x3, the largest entry of every row known: every order of the pivots
pub fn r_lu3(a: [[f64; 2]; 3]) {
    budget(300);
    let mut m = [[10.0; 3]; 3];
    let mut i = 0;
    while i < 3 { within(a[i][0], -1.0, 1.0); within(a[i][1], -1.0, 1.0); m[i][0] = a[i][0]; m[i][1] = a[i][1]; i += 1; }
    let d = det(&m);
    assume(d > tol(1e-9, 1e-6) || d < -tol(1e-9, 1e-6));
    // no minor of the first two columns vanishes (vanishing pivots have their own rules)
    let mut i = 0;
    while i < 3 { let j = (i + 1) % 3; let w = a[i][0] * a[j][1] - a[i][1] * a[j][0]; assume(w > 0.0 || w < 0.0); i += 1; }
    let (lu, dd, ix) = M33::new(m).lu();
    check(m, *lu, dd, *ix, d);
}
