//! C22: exponential, logarithm, square root, powers, sine and cosine, derivative.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::quaternion::Quaternion;
fn n3(v: [f64; 3]) -> f64 { dotn(&v, &v).sqrt() }
fn im(a: [f64; 4]) -> [f64; 3] { [a[1], a[2], a[3]] }
fn mk(s: f64, v: [f64; 3]) -> [f64; 4] { [s, v[0], v[1], v[2]] }
pub mod exp { use super::*;
    pub fn r_formula(s: f64, v: [f64; 3]) {
        let n = n3(v);
        assume(n > tol(3e-16, 2e-7));
        eq(&qa(q(mk(s, v)).exp()), &mk(s.exp() * n.cos(), sc3(v, s.exp() * n.sin() / n)));
    }
    pub fn r_real(s: f64) { eq(&qa(q([s, 0.0, 0.0, 0.0]).exp()), &[s.exp(), 0.0, 0.0, 0.0]); }
    pub fn r_marked(a: [f64; 4]) { unit(a); assume(n3(im(a)) > tol(3e-16, 2e-7)); eq(&qa(fq(a).exp()), &qa(q(a).exp())); }
    pub fn r_marked_one(_t: f64) { eq(&qa(Quaternion::<f64>::one().exp()), &[f64::exp(1.0), 0.0, 0.0, 0.0]); }
    pub fn r_small(s: f64, v: [f64; 3]) {
        // the direction is kept for every imaginary part, however small
        let x = qa(q(mk(s, v)).exp());
        eq(&cross(im(x), v), &[0.0; 3]);
        eq(&x[0], &(s.exp() * n3(v).cos()));
    }
    pub fn r_double(s: f64, v: [f64; 3]) {
        assume(n3(v) > 0.000001);
        let h = qa(q(mk(s, v)).exp());
        eq(&qa(q(mk(2.0 * s, sc3(v, 2.0))).exp()), &qm(h, h));
    }
    pub fn r_opposite(s: f64, v: [f64; 3]) {
        assume(n3(v) > 0.000001);
        eq(&qm(qa(q(mk(s, v)).exp()), qa(q(mk(-s, sc3(v, -1.0))).exp())), &[1.0, 0.0, 0.0, 0.0]);
    }
}
/// k times the unit a: any non-zero quaternion, off the real axis
fn scaled(a: [f64; 4], k: f64) -> [f64; 4] {
    unit(a); assume(k > 0.0);
    assume(n3(im(a)) > tol(3e-16, 2e-7)); assume(n3(im(a)).atan2(a[0]) > tol(3e-16, 2e-7));
    sc4(a, k)
}
pub mod ln { use super::*;
    pub fn r_formula(a: [f64; 4], k: f64) {
        let x = scaled(a, k); assume(k > 0.0);
        eq(&qa(q(x).ln()), &mk(k.ln(), sc3(im(a), n3(im(a)).atan2(a[0]) / n3(im(a)))));
    }
    pub fn r_formula_unit(a: [f64; 4]) {
        unit(a); assume(n3(im(a)) > tol(3e-16, 2e-7));
        eq(&qa(q(a).ln()), &mk(0.0, sc3(im(a), n3(im(a)).atan2(a[0]) / n3(im(a)))));
    }
    pub fn r_marked(a: [f64; 4]) { unit(a); assume(n3(im(a)) > tol(3e-16, 2e-7)); eq(&qa(fq(a).ln()), &qa(q(a).ln())); }
    pub fn r_positive(s: f64) { assume(s > 0.0); eq(&qa(q([s, 0.0, 0.0, 0.0]).ln()), &[s.ln(), 0.0, 0.0, 0.0]); }
    pub fn r_negative(s: f64) {
        assume(s < 0.0);
        let l = qa(q([s, 0.0, 0.0, 0.0]).ln());
        let pi = core::f64::consts::PI;
        eq(&l[0], &(-s).ln());
        eq(&dotn(&im(l), &im(l)), &(pi * pi));
    }
    pub fn r_one(_t: f64) { eq(&qa(Quaternion::<f64>::one().ln()), &[0.0; 4]); }
    pub fn r_exp(a: [f64; 4], k: f64) { let x = scaled(a, k); assume(k > 0.0); eq(&qa(q(x).ln().exp()), &x); }
    pub fn r_exp_unit(a: [f64; 4]) { scaled(a, 1.0); eq(&qa(fq(a).ln().exp()), &a); }
    pub fn r_exp_real(s: f64) { assume(s > 0.0); eq(&qa(q([s, 0.0, 0.0, 0.0]).ln().exp()), &[s, 0.0, 0.0, 0.0]); }
}
pub mod sqrt { use super::*;
    /// with ln::r_exp and exp::r_double: the root multiplied by itself is the argument
    pub fn r_halves(a: [f64; 4], k: f64) { let x = scaled(a, k); assume(k > 0.0); eq(&qa(q(x).sqrt()), &qa(q(sc4(qa(q(x).ln()), 0.5)).exp())); }
    pub fn r_square(a: [f64; 4], k: f64) { let x = scaled(a, k); assume(k > 0.0); let (r, l) = (qa(q(x).sqrt()), qa(q(sc4(qa(q(x).ln()), 0.5)).exp())); eq(&qm(r, r), &qm(l, l)); }
    pub fn r_real(s: f64) { assume(s > 0.0); let r = qa(q([s, 0.0, 0.0, 0.0]).sqrt()); eq(&qm(r, r), &[s, 0.0, 0.0, 0.0]); }
    pub fn r_marked(a: [f64; 4]) { unit(a); assume(n3(im(a)) > tol(3e-16, 2e-7)); eq(&qa(fq(a).sqrt()), &qa(q(a).sqrt())); }
}
pub mod pow { use super::*;
    pub fn r_definition(a: [f64; 4], k: f64, b: [f64; 4]) { budget(300); partial(); let x = scaled(a, k); assume(k > 0.0); eq(&qa(q(x).pow(q(b))), &qa(q(qm(b, qa(q(x).ln()))).exp())); }
    pub fn r_marked(a: [f64; 4], b: [f64; 4]) { budget(300); partial(); unit(a); assume(n3(im(a)) > tol(3e-16, 2e-7)); eq(&qa(fq(a).pow(q(b))), &qa(q(a).pow(q(b)))); }
    pub fn r_one(a: [f64; 4]) { scaled(a, 1.0); eq(&qa(q(a).pow(Quaternion::one())), &a); }
    pub fn r_zero(a: [f64; 4]) { scaled(a, 1.0); eq(&qa(q(a).pow(Quaternion::zero())), &[1.0, 0.0, 0.0, 0.0]); }
    pub fn r_two(a: [f64; 4]) { scaled(a, 1.0); eq(&qa(q(a).pow(Quaternion::new_real(2.0))), &qm(a, a)); }
}
pub mod trig { use super::*;
    pub fn r_sin(s: f64, v: [f64; 3]) {
        let n = n3(v);
        assume(n > tol(2e-8, 4e-4)); assume(s > tol(3e-16, 2e-7));
        let (ch, sh) = ((n.exp() + (-n).exp()) / 2.0, (n.exp() - (-n).exp()) / 2.0);
        eq(&qa(q(mk(s, v)).sin()), &mk(s.sin() * ch, sc3(v, s.cos() * sh / n)));
    }
    pub fn r_cos(s: f64, v: [f64; 3]) {
        let n = n3(v);
        assume(n > tol(2e-8, 4e-4)); assume(s > tol(3e-16, 2e-7));
        let (ch, sh) = ((n.exp() + (-n).exp()) / 2.0, (n.exp() - (-n).exp()) / 2.0);
        eq(&qa(q(mk(s, v)).cos()), &mk(s.cos() * ch, sc3(v, -s.sin() * sh / n)));
    }
    pub fn r_sin_neg(s: f64, v: [f64; 3]) {
        let n = n3(v);
        assume(n > tol(2e-8, 4e-4)); assume(s < -tol(3e-16, 2e-7));
        let (ch, sh) = ((n.exp() + (-n).exp()) / 2.0, (n.exp() - (-n).exp()) / 2.0);
        eq(&qa(q(mk(s, v)).sin()), &mk(s.sin() * ch, sc3(v, s.cos() * sh / n)));
    }
    pub fn r_cos_neg(s: f64, v: [f64; 3]) {
        let n = n3(v);
        assume(n > tol(2e-8, 4e-4)); assume(s < -tol(3e-16, 2e-7));
        let (ch, sh) = ((n.exp() + (-n).exp()) / 2.0, (n.exp() - (-n).exp()) / 2.0);
        eq(&qa(q(mk(s, v)).cos()), &mk(s.cos() * ch, sc3(v, -s.sin() * sh / n)));
    }
    /// a value marked as normalized has the same sine and cosine
    pub fn r_marked(a: [f64; 4]) {
        unit(a); assume(n3(im(a)) > tol(2e-8, 4e-4));
        eq(&qa(fq(a).sin()), &qa(q(a).sin()));
        eq(&qa(fq(a).cos()), &qa(q(a).cos()));
    }
    pub fn r_real(s: f64) {
        assume(abs(s) > tol(3e-16, 2e-7));
        eq(&qa(q([s, 0.0, 0.0, 0.0]).cos()), &[s.cos(), 0.0, 0.0, 0.0]);
        eq(&qa(q([s, 0.0, 0.0, 0.0]).sin()), &[s.sin(), 0.0, 0.0, 0.0]);
    }
    pub fn r_pure(v: [f64; 3]) {
        let n = n3(v);
        assume(n > tol(2e-8, 4e-4));
        let (ch, sh) = ((n.exp() + (-n).exp()) / 2.0, (n.exp() - (-n).exp()) / 2.0);
        eq(&qa(q(pure(v)).cos()), &mk(ch, [0.0; 3]));
        eq(&qa(q(pure(v)).sin()), &mk(0.0, sc3(v, sh / n)));
    }
}
pub mod arg { use super::*;
    pub fn r_unit_imag(a: [f64; 4]) {
        let v = im(a);
        assume(n3(v) > tol(2e-8, 4e-4));
        eq(&qa(q(a).argq()), &mk(0.0, sc3(v, 1.0 / n3(v))));
    }
    pub fn r_marked(a: [f64; 4]) {
        let v = im(a);
        unit(a); assume(n3(v) > tol(2e-8, 4e-4));
        eq(&qa(fq(a).argq()), &mk(0.0, sc3(v, 1.0 / n3(v))));
    }
    pub fn r_norms(a: [f64; 4]) { eq(&q(a).abs_imag(), &n3(im(a))); eq(&q(a).norm2(), &dotn(&a, &a).sqrt()); eq(&q(a).abs2(), &dotn(&a, &a)); }
    pub fn r_norms_marked(a: [f64; 4]) { unit(a); let x = fq(a); eq(&x.abs_imag(), &n3(im(a))); eq(&x.norm2(), &1.0); eq(&x.abs2(), &1.0); eq(&qa(x.normalize_q()), &a); }
    pub fn r_normalize_q(a: [f64; 4]) { let n = dotn(&a, &a).sqrt(); assume(n > tol(2e-8, 4e-4)); eq(&sc4(qa(q(a).normalize_q()), n), &a); }
}
pub fn r_derivative(a: [f64; 4], w: [f64; 3]) { eq(&qa(q(a).derivative(&v3(w))), &sc4(qm(pure(w), a), 0.5)); }
pub fn r_derivative_marked(a: [f64; 4], w: [f64; 3]) { unit(a); eq(&qa(fq(a).derivative(&v3(w))), &sc4(qm(pure(w), a), 0.5)); }
