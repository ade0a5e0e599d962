//! C29: screw parameters, powers, screw interpolation.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::dual_quaternion::DualQuaternion;
const PI: f64 = core::f64::consts::PI;
/// rotation by t in (0, pi) (quaternion half angle t/2) about the unit u, then translation p
fn cs(t: f64, u: [f64; 3]) -> [f64; 4] { let (s, c) = ((t / 2.0).sin(), (t / 2.0).cos()); [c, u[0] * s, u[1] * s, u[2] * s] }
fn du(a: [f64; 4], p: [f64; 3]) -> D { d(a, sc4(qm(pure(p), a), 0.5)) }
fn ang(t: f64) { let pi = PI; within(t, 0.0, 2.0 * tol(3.14159265, 3.14159)); assume(t > tol(2e-8, 4e-4)); }
/// the motion along the screw (l, m) by angle t and distance h
fn screw(l: [f64; 3], m: [f64; 3], t: f64, h: f64) -> [[f64; 4]; 2] {
    let (s, c) = ((t / 2.0).sin(), (t / 2.0).cos());
    [[c, l[0] * s, l[1] * s, l[2] * s],
     [-s * h / 2.0, m[0] * s + l[0] * (h / 2.0) * c, m[1] * s + l[1] * (h / 2.0) * c, m[2] * s + l[2] * (h / 2.0) * c]]
}
pub mod params { use super::*;
    pub fn r_values(u: [f64; 3], p: [f64; 3], t: f64) {
        unit3(u); ang(t);
        let (l, m, th, h) = du(cs(t, u), p).get_screw_parameters();
        label("theta"); eq(&th, &t);
        label("axis"); eq(&va(l), &u);
        label("pitch"); eq(&h, &dotn(&p, &u));
        let k = (t / 2.0).cos() / (t / 2.0).sin();
        let c = cross(p, u);
        label("moment"); eq(&va(m), &sc3(add3(c, sc3(add3(p, sc3(u, -dotn(&p, &u))), k)), 0.5));
    }
    pub fn r_moment_orthogonal(u: [f64; 3], p: [f64; 3], t: f64) {
        unit3(u); ang(t);
        let (l, m, _, _) = du(cs(t, u), p).get_screw_parameters();
        eq(&dotn(&va(l), &va(m)), &0.0);
    }
    pub fn r_rebuild(u: [f64; 3], p: [f64; 3], t: f64) {
        unit3(u); ang(t);
        let x = du(cs(t, u), p);
        let (l, m, th, h) = x.get_screw_parameters();
        eq(&da(DualQuaternion::new_from_screw_parameters(&l, &m, th, h)), &da(x));
    }
    pub fn r_rebuild_marked(u: [f64; 3], p: [f64; 3], t: f64) {
        unit3(u); ang(t);
        let x = DualQuaternion::new_from_rot_trans(&q(cs(t, u)), &v3(p));
        let (l, m, th, h) = x.get_screw_parameters();
        eq(&da(DualQuaternion::new_from_screw_parameters(&l, &m, th, h)), &da(x));
    }
    pub fn r_translation(p: [f64; 3]) {
        let n = dotn(&p, &p).sqrt();
        assume(n > tol(3e-16, 2e-7));
        let (l, _, th, h) = DualQuaternion::new_from_translation(&v3(p)).get_screw_parameters();
        eq(&th, &0.0); eq(&h, &n); eq(&sc3(va(l), n), &p);
    }
    /// the real part minus one also represents the identity rotation
    pub fn r_translation_negated(p: [f64; 3]) {
        let n = dotn(&p, &p).sqrt();
        assume(n > tol(3e-16, 2e-7));
        let (l, m, th, h) = DualQuaternion::new_from_rot_trans(&q([-1.0, 0.0, 0.0, 0.0]), &v3(p)).get_screw_parameters();
        eq(&th, &0.0); eq(&h, &n); eq(&sc3(va(l), n), &p);
        eq(&da(DualQuaternion::new_from_screw_parameters(&l, &m, th, h)), &[[1.0, 0.0, 0.0, 0.0], pure(sc3(p, 0.5))]);
    }
    pub fn r_translation_rebuild(p: [f64; 3]) {
        let n = dotn(&p, &p).sqrt();
        assume(n > tol(3e-16, 2e-7));
        let x = DualQuaternion::new_from_translation(&v3(p));
        let (l, m, th, h) = x.get_screw_parameters();
        eq(&da(DualQuaternion::new_from_screw_parameters(&l, &m, th, h)), &da(x));
    }
    pub fn r_identity(_t: f64) {
        let (l, m, th, h) = DualQuaternion::<f64>::one().get_screw_parameters();
        eq(&th, &0.0); eq(&h, &0.0); eq(&va(l), &[0.0; 3]);
        eq(&da(DualQuaternion::new_from_screw_parameters(&l, &m, th, h)), &[[1.0, 0.0, 0.0, 0.0], [0.0; 4]]);
    }
    pub fn r_make(l: [f64; 3], m: [f64; 3], t: f64, h: f64) {
        unit3(l); assume(abs(t) > tol(3e-16, 2e-7));
        eq(&da(DualQuaternion::new_from_screw_parameters(&v3(l), &v3(m), t, h)), &screw(l, m, t, h));
    }
    pub fn r_make_translation(l: [f64; 3], h: f64) {
        unit3(l);
        eq(&da(DualQuaternion::new_from_screw_parameters(&v3(l), &v3([0.0; 3]), 0.0, h)), &[[1.0, 0.0, 0.0, 0.0], [0.0, l[0] * h / 2.0, l[1] * h / 2.0, l[2] * h / 2.0]]);
    }
}
pub mod pow { use super::*;
    pub fn r_one(u: [f64; 3], p: [f64; 3], t: f64) { unit3(u); ang(t); let x = du(cs(t, u), p); eq(&da(x.pow(1.0)), &da(x)); }
    pub fn r_one_marked(u: [f64; 3], p: [f64; 3], t: f64) { unit3(u); ang(t); let x = DualQuaternion::new_from_rot_trans(&q(cs(t, u)), &v3(p)); eq(&da(x.pow(1.0)), &da(x)); }
    pub fn r_zero(u: [f64; 3], p: [f64; 3], t: f64) { unit3(u); ang(t); eq(&da(du(cs(t, u), p).pow(0.0)), &[[1.0, 0.0, 0.0, 0.0], [0.0; 4]]); }
    pub fn r_two(u: [f64; 3], p: [f64; 3], t: f64) { unit3(u); ang(t); let x = du(cs(t, u), p); eq(&da(x.pow(2.0)), &da(x * x)); }
    pub fn r_inverse(u: [f64; 3], p: [f64; 3], t: f64) { unit3(u); ang(t); let x = du(cs(t, u), p); eq(&da(x.pow(-1.0) * x), &[[1.0, 0.0, 0.0, 0.0], [0.0; 4]]); }
    pub fn r_add(l: [f64; 3], m: [f64; 3], t: f64, h: f64, a: f64, b: f64) {
        unit3(l); ang(t);
        let mm = cross(l, m); // any moment orthogonal to the axis
        let s = screw(l, mm, t, h);
        let x = d(s[0], s[1]);
        eq(&da(x.pow(a) * x.pow(b)), &da(x.pow(a + b)));
    }
    /// same axis, scaled angle and distance
    pub fn r_screw(l: [f64; 3], m: [f64; 3], t: f64, h: f64, a: f64) {
        unit3(l); ang(t);
        let mm = cross(l, m);
        let s = screw(l, mm, t, h);
        eq(&da(d(s[0], s[1]).pow(a)), &screw(l, mm, a * t, a * h));
    }
    pub fn r_translation(p: [f64; 3], a: f64) { eq(&da(DualQuaternion::new_from_translation(&v3(p)).pow(a)), &[[1.0, 0.0, 0.0, 0.0], sc4(pure(p), a / 2.0)]); }
    pub fn r_translation_plain(p: [f64; 3], a: f64) { eq(&da(d([1.0, 0.0, 0.0, 0.0], sc4(pure(p), 0.5)).pow(a)), &[[1.0, 0.0, 0.0, 0.0], sc4(pure(p), a / 2.0)]); }
    pub fn r_translation_negative(p: [f64; 3], a: f64) {
        let x = d([-1.0, 0.0, 0.0, 0.0], sc4(pure(p), -0.5)).pow(a);
        eq(&va(x.get_translation()), &sc3(p, a)); eq(&m3a(x.real().to_rotation()), &id::<3>());
    }
}
pub mod lerp { use super::*;
    fn mat(x: D) -> [[f64; 4]; 4] { m4a(x.to_homogeneous()) }
    pub fn r_begin(u: [f64; 4], p: [f64; 3], w: [f64; 4], s: [f64; 3]) {
        unit(u); unit(w);
        assume(dotn(&u, &w) > -tol(0.9999999, 0.9999)); assume(dotn(&u, &w) < tol(0.9999999, 0.9999));
        budget(300);
        eq(&mat(DualQuaternion::screw_lerp(&du(u, p), &du(w, s), 0.0)), &homog(qmat(u), p));
    }
    /// relative to the begin pose: end = begin * (motion by t about l)
    pub fn r_end(u: [f64; 4], p: [f64; 3], l: [f64; 3], s: [f64; 3], t: f64) {
        unit(u); unit3(l); ang(t); budget(400);
        let (x, y) = (du(u, p), du(u, p) * du(cs(t, l), s));
        eq(&mat(DualQuaternion::screw_lerp(&x, &y, 1.0)), &mat(y));
    }
    pub fn r_power(u: [f64; 4], p: [f64; 3], l: [f64; 3], s: [f64; 3], t: f64, k: f64) {
        unit(u); unit3(l); within(t, 0.0, tol(3.1415926535, 3.14159)); assume(t > tol(2e-8, 4e-4)); budget(400);
        let (x, g) = (du(u, p), du(cs(t, l), s));
        eq(&da(DualQuaternion::screw_lerp(&x, &(x * g), k)), &da(x * g.pow(k)));
    }
    /// the shorter way round: a turn by more than pi is interpolated backwards
    pub fn r_shorter(u: [f64; 4], p: [f64; 3], l: [f64; 3], s: [f64; 3], t: f64, k: f64) {
        unit(u); unit3(l); within(t, tol(3.1415926536, 3.1416), tol(6.2831853, 6.283)); assume(t < tol(6.283185, 6.28)); budget(400);
        let (x, g) = (du(u, p), du(cs(t, l), s));
        eq(&mat(DualQuaternion::screw_lerp(&x, &(x * g), k)), &mat(x * (-g).pow(k)));
    }
    pub fn r_translations(p: [f64; 3], s: [f64; 3], k: f64) {
        let x = DualQuaternion::screw_lerp(&DualQuaternion::new_from_translation(&v3(p)), &DualQuaternion::new_from_translation(&v3(s)), k);
        eq(&mat(x), &homog(id::<3>(), add3(sc3(p, 1.0 - k), sc3(s, k))));
    }
    pub fn r_same(u: [f64; 4], p: [f64; 3], k: f64) { unit(u); eq(&mat(DualQuaternion::screw_lerp(&du(u, p), &du(u, p), k)), &homog(qmat(u), p)); }
    pub fn r_marked(u: [f64; 4], p: [f64; 3], l: [f64; 3], s: [f64; 3], t: f64, k: f64) {
        unit(u); unit3(l); within(t, 0.0, tol(3.1415926535, 3.14159)); assume(t > tol(2e-8, 4e-4)); budget(400);
        let (x, g) = (DualQuaternion::new_from_rot_trans(&q(u), &v3(p)), du(cs(t, l), s));
        eq(&da(DualQuaternion::screw_lerp(&x, &(x * g), k)), &da(x * g.pow(k)));
    }
}
/// the logarithm: half the angle and the distance along the screw
pub mod log { use super::*;
    fn lg(x: D) -> [[f64; 4]; 2] { match x.log() { Some(y) => da(y), None => { holds(false); [[0.0; 4]; 2] } } }
    pub fn r_motion(u: [f64; 3], p: [f64; 3], t: f64) {
        unit3(u); ang(t);
        let h = dotn(&p, &u);
        let k = (t / 2.0).cos() / (t / 2.0).sin();
        let m = sc3(add3(cross(p, u), sc3(add3(p, sc3(u, -h)), k)), 0.5);
        eq(&lg(DualQuaternion::new_from_rot_trans(&q(cs(t, u)), &v3(p))), &[pure(sc3(u, t / 2.0)), pure(sc3(add3(sc3(u, h), sc3(m, t)), 0.5))]);
    }
    /// by the screw: the logarithm of the motion along (l, m) by t and h
    pub fn r_screw(l: [f64; 3], w: [f64; 3], t: f64, h: f64) {
        unit3(l); ang(t);
        let m = cross(l, w);
        let s = screw(l, m, t, h);
        let c = s[0];
        let p = sc4(qm(s[1], [c[0], -c[1], -c[2], -c[3]]), 2.0);
        let p = [p[1], p[2], p[3]];
        eq(&lg(DualQuaternion::new_from_rot_trans(&q(s[0]), &v3(p))), &[pure(sc3(l, t / 2.0)), pure(sc3(add3(sc3(l, h), sc3(m, t)), 0.5))]);
    }
    pub fn r_translation(p: [f64; 3]) { eq(&lg(DualQuaternion::new_from_translation(&v3(p))), &[[0.0; 4], pure(sc3(p, 0.5))]); }
    pub fn r_rotation(u: [f64; 3], t: f64) { unit3(u); ang(t); eq(&lg(DualQuaternion::new_from_rotation(&fq(cs(t, u)))), &[pure(sc3(u, t / 2.0)), [0.0; 4]]); }
    /// the real part minus one also represents the identity rotation
    pub fn r_translation_negated(p: [f64; 3]) {
        let n = dotn(&p, &p).sqrt();
        assume(n > tol(3e-16, 2e-7));
        eq(&lg(DualQuaternion::new_from_rot_trans(&q([-1.0, 0.0, 0.0, 0.0]), &v3(p))), &[[0.0; 4], pure(sc3(p, 0.5))]);
    }
    /// what is built as a unit dual quaternion has a logarithm
    pub fn r_defined_one(_t: f64) { holds(DualQuaternion::<f64>::one().log().is_some()); }
    pub fn r_defined_normalize(a: [f64; 4], b: [f64; 4]) {
        partial();
        assume(dotn(&a, &a) > tol(3e-16, 2e-7));
        match d(a, b).normalize() { Some(x) => holds(x.log().is_some()), None => holds(false) }
    }
    pub fn r_defined_matrix(a: [f64; 4], p: [f64; 3]) {
        unit(a); partial(); may_panic("it can't be zero");
        holds(DualQuaternion::new_from_homogeneous(&m4(homog(qmat(a), p))).log().is_some());
        holds(DualQuaternion::new_from_rotation_matrix(&m3(qmat(a))).log().is_some());
    }
    pub fn r_unmarked(a: [f64; 4], b: [f64; 4]) { holds(d(a, b).log().is_none()); }
}
