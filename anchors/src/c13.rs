//! C13: slice utilities.
use crate::refm::*;
use crate::smrt::*;
use static_math::slices_methods::*;
fn abs(x: f64) -> f64 { if x < 0.0 { -x } else { x } }
macro_rules! rules {
    ($m:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            type B = [f64; $n];
            pub fn r_max_min(a: B) {
                let r = find_max_min(&a);
                let mut i = 0;
                label("bounds");
                while i < $n { holds(r.max.0 >= a[i]); holds(r.min.0 <= a[i]); i += 1; }
                label("position");
                holds(r.max.1 < $n); holds(r.min.1 < $n);
                eq(&a[r.max.1], &r.max.0); eq(&a[r.min.1], &r.min.0);
                label("first");
                let mut i = 0;
                while i < $n { if i < r.max.1 { holds(a[i] < r.max.0); } if i < r.min.1 { holds(a[i] > r.min.0); } i += 1; }
            }
            pub fn r_dot(a: B, b: B) { eq(&dot(&a, &b), &dotn(&a, &b)); }
            pub fn r_norm2(a: B) { let n = norm2(&a); eq(&(n * n), &dotn(&a, &a)); holds(n >= 0.0); }
            pub fn r_norm_l(a: B) { let mut s = 0.0; let mut i = 0; while i < $n { s += abs(a[i]); i += 1; } eq(&norm_l(&a), &s); }
            pub fn r_norm_inf(a: B) {
                let r = norm_inf(&a);
                let mut i = 0;
                label("bound"); while i < $n { holds(r >= a[i]); holds(r >= -a[i]); i += 1; }
                label("attained"); let mut p = 1.0; let mut i = 0; while i < $n { p = p * (r - a[i]) * (r + a[i]); i += 1; } eq(&p, &0.0);
            }
            pub fn r_normalize(a: B) {
                assume(dotn(&a, &a) > 0.0);
                let mut x = a;
                let n = norm2(&a);
                normalize(&mut x);
                let mut i = 0; while i < $n { eq(&(x[i] * n), &a[i]); i += 1; }
                label("unit"); eq(&dotn(&x, &x), &1.0);
            }
            pub fn r_project(a: B, b: B) { assume(dotn(&b, &b) > 0.0); eq(&project_x_over_y(&a, &b), &(dotn(&a, &b) / dotn(&b, &b))); }
            pub fn r_check(a: B) {
                let r = check_elements(&a, 0.001);
                let mut any = false; let mut i = 0;
                while i < $n { if abs(a[i]) < 0.001 { any = true; } i += 1; }
                holds(r == any);
            }
        }
    };
}
rules!(n1, 1);
rules!(n2, 2);
rules!(n3, 3);
rules!(n4, 4);
rules!(n5, 5);
rules!(n6, 6);
/// long slices whose extremes are at any two positions
fn extremes<const N: usize>(a: [f64; N], b: [f64; N]) {
    let mut p = 0;
    while p < N {
        let mut m = 0;
        while m < N {
            if p != m {
                let mut x = a; x[p] = b[p]; x[m] = -b[m];
                let r = find_max_min(&x);
                eq(&r.max.0, &b[p]); eq(&r.min.0, &(-b[m])); holds(r.max.1 == p); holds(r.min.1 == m);
                let r = norm_inf(&x);
                eq(&((r - b[p]) * (r - b[m])), &0.0); holds(r >= b[p]); holds(r >= b[m]);
            }
            m += 1;
        }
        p += 1;
    }
}
pub fn r_extremes4(a: [f64; 4], b: [f64; 4]) { let mut i = 0; while i < 4 { within(a[i], -1.0, 1.0); within(b[i], 2.0, 3.0); i += 1; } extremes(a, b); }
pub fn r_extremes9(a: [f64; 9], b: [f64; 9]) { spread(&a); let mut i = 0; while i < 9 { within(b[i], 2.0, 3.0); i += 1; } extremes(a, b); }
/// longer slices, for the operations without case distinctions
pub fn r_long(a: [f64; 9], b: [f64; 9]) {
    eq(&dot(&a, &b), &dotn(&a, &b));
    let n = norm2(&a); eq(&(n * n), &dotn(&a, &a));
    let mut x = a; if dotn(&a, &a) > 0.0 { normalize(&mut x); let mut i = 0; while i < 9 { eq(&(x[i] * n), &a[i]); i += 1; } }
    assume(dotn(&b, &b) > 0.0);
    eq(&project_x_over_y(&a, &b), &(dotn(&a, &b) / dotn(&b, &b)));
}
/// negative and positive elements, all of them and alternating
pub fn r_long_norm_l(a: [f64; 9]) {
    let mut i = 0; while i < 9 { within(a[i], 0.0, 100.0); i += 1; }
    let mut s = 0.0; let mut i = 0; while i < 9 { s += a[i]; i += 1; }
    eq(&norm_l(&a), &s);
    let mut b = a; let mut i = 0; while i < 9 { b[i] = -a[i]; i += 1; }
    eq(&norm_l(&b), &s);
    let mut b = a; let mut i = 0; while i < 9 { b[i] = -a[i]; i += 2; }
    eq(&norm_l(&b), &s);
    let mut b = a; let mut i = 1; while i < 9 { b[i] = -a[i]; i += 2; }
    eq(&norm_l(&b), &s);
}
pub fn r_long_check(a: [f64; 9], t: f64) {
    let mut i = 0; while i < 9 { within(a[i], 1.0, 5.0); i += 1; }
    within(t, -0.001, 0.001);
    holds(!check_elements(&a, 0.001));
    let mut i = 0; while i < 9 { let mut b = a; if i % 2 == 0 { b[8 - i] = -a[i]; } b[i] = t; holds(check_elements(&b, 0.001)); i += 1; }
}
/// slices of different length are refused
pub fn r_dot_length(a: [f64; 3], b: [f64; 2]) { holds(true); may_panic(""); let _ = dot(&a, &b); diverges(); }
pub fn r_max_min_int(a: [f32; 3]) { let r = find_max_min(&a); holds(r.max.0 >= a[0]); holds(r.max.0 >= a[1]); holds(r.max.0 >= a[2]); holds(r.min.0 <= a[1]); }
/// any tolerance
pub fn r_check_tol(a: [f64; 4], t: f64) {
    assume(t > 0.0);
    let any = abs(a[0]) < t || abs(a[1]) < t || abs(a[2]) < t || abs(a[3]) < t;
    holds(check_elements(&a, t) == any);
}
/// lengths on both sides of the sizes at which code works in blocks
/// elements inside (-1, 1) in a fixed irregular order
fn spread(a: &[f64]) {
    let n = a.len();
    let mut i = 0;
    while i < n { let k = (i * 5 + 2) % n; let lo = (2 * k) as f64 / n as f64 - 1.0; within(a[i], lo, lo + 1.0 / n as f64); i += 1; }
}
macro_rules! blocks {
    ($m:ident, $n:expr, $k:expr) => {
        pub mod $m {
            use super::*;
            type B = [f64; $n];
            pub fn r_dot(a: B, b: B) { eq(&dot(&a, &b), &dotn(&a, &b)); }
            pub fn r_norm2(a: B) { let n = norm2(&a); eq(&(n * n), &dotn(&a, &a)); holds(n >= 0.0); }
            pub fn r_normalize(a: B) { assume(dotn(&a, &a) > 0.0); let mut x = a; let n = norm2(&a); normalize(&mut x); let mut i = 0; while i < $n { eq(&(x[i] * n), &a[i]); i += 1; } }
            pub fn r_project(a: B, b: B) { assume(dotn(&b, &b) > 0.0); eq(&project_x_over_y(&a, &b), &(dotn(&a, &b) / dotn(&b, &b))); }
            pub fn r_norm_l(a: B) {
                let mut i = 0; let mut s = 0.0; while i < $n { within(a[i], 1.0, 100.0); s += a[i]; i += 1; }
                let mut p = 1;
                while p <= 5 { let mut b = a; let mut i = 0; while i < $n { b[i] = -a[i]; i += p; } eq(&norm_l(&b), &s); p += 1; }
                eq(&norm_l(&a), &s);
            }
            /// one element beyond all others, at every place
            pub fn r_extreme(a: B, t: f64) {
                spread(&a);
                within(t, 2.0, 3.0);
                let mut p = 0;
                while p < $n {
                    let m = (p * 7 + $k) % $n;
                    if m != p {
                        let mut b = a; b[p] = t; b[m] = -2.0 * t;
                        let r = find_max_min(&b);
                        eq(&r.max.0, &t); eq(&r.min.0, &(-2.0 * t)); holds(r.max.1 == p); holds(r.min.1 == m);
                        eq(&norm_inf(&b), &(2.0 * t)); b[m] = -t / 2.0; eq(&norm_inf(&b), &t);
                    }
                    p += 1;
                }
            }
            /// the first of equal extremes
            pub fn r_first(a: B, t: f64) {
                spread(&a);
                within(t, 2.0, 3.0);
                let mut p = 0;
                while p + 1 < $n {
                    let q = p + 1 + (p * 5 + $k) % ($n - 1 - p);
                    let mut b = a; b[p] = t; b[q] = t; holds(find_max_min(&b).max.1 == p);
                    b[p] = -t; b[q] = -t; holds(find_max_min(&b).min.1 == p);
                    p += 1;
                }
            }
            pub fn r_check(a: B, t: f64) {
                let mut i = 0; while i < $n { within(a[i], 1.0, 5.0); i += 1; }
                within(t, -0.001, 0.001);
                holds(!check_elements(&a, 0.001));
                let mut i = 0; while i < $n { let mut b = a; b[i] = t; holds(check_elements(&b, 0.001)); i += 1; }
            }
        }
    };
}
blocks!(n7, 7, 1);
blocks!(n8, 8, 3);
blocks!(n17, 17, 4);
blocks!(n33, 33, 6);
blocks!(n66, 66, 5);
