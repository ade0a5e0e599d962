//! C10: real eigenvalues of 2x2 matrices.
use crate::smrt::*;
use static_math::*;
pub fn r_roots(a: [[f64; 2]; 2]) {
    let t = a[0][0] + a[1][1];
    let d = a[0][0] * a[1][1] - a[0][1] * a[1][0];
    let x = M22::new(a);
    match x.real_eigenvals() {
        Some(l) => {
            label("characteristic");
            eq(&(l[0] * l[0] - t * l[0] + d), &0.0);
            eq(&(l[1] * l[1] - t * l[1] + d), &0.0);
            label("sum"); eq(&(l[0] + l[1]), &t);
            label("product"); eq(&(l[0] * l[1]), &d);
            label("real"); holds(t * t - 4.0 * d >= 0.0);
        }
        None => { label("none"); holds(t * t - 4.0 * d < 0.0); }
    }
    label("receiver");
    eq::<[[f64; 2]; 2]>(&x, &a);
}
pub fn r_roots_f32(a: [[f32; 2]; 2]) {
    let t = a[0][0] + a[1][1];
    let d = a[0][0] * a[1][1] - a[0][1] * a[1][0];
    match M22::new(a).real_eigenvals() {
        Some(l) => { eq(&(l[0] + l[1]), &t); eq(&(l[0] * l[1]), &d); }
        None => holds(t * t - 4.0 * d < 0.0),
    }
}
