//! C35: rounding. For operands of moderate size each result is within a stated number of units roundoff of the exact one.
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::dual_quaternion::DualQuaternion;
use static_math::quaternion::Quaternion;
use static_math::slices_methods as sm;
use static_math::traits::LinearAlgebra;
use static_math::transformations::*;
use static_math::*;
fn w1<const N: usize>(a: &[f64; N], lo: f64, hi: f64) { let mut i = 0; while i < N { within(a[i], lo, hi); i += 1; } }
fn w2<const N: usize>(a: &[[f64; N]; N], lo: f64, hi: f64) { let mut i = 0; while i < N { w1(&a[i], lo, hi); i += 1; } }
/// entries in (-1, 1)
fn vec_in<const N: usize>(a: &[f64; N]) { w1(a, -1.0, 1.0); rounding(); }
fn mat_in<const N: usize>(a: &[[f64; N]; N]) { w2(a, -1.0, 1.0); rounding(); }
/// strictly dominant diagonal in (2, 3)
fn dominant<const N: usize>(a: &[[f64; N]; N], o: f64) { let mut i = 0; while i < N { let mut j = 0; while j < N { if i == j { within(a[i][j], 2.0, 3.0); } else { within(a[i][j], -o, o); } j += 1; } i += 1; } rounding(); }
fn unit_in(a: &[f64; 4]) { unit(*a); w1(a, -1.0, 1.0); rounding(); }
macro_rules! vecs { ($m:ident, $V:ident, $n:expr) => { pub mod $m { use super::*;
    type A = [f64; $n];
    pub fn r_sums(a: A, b: A, s: f64) {
        within(s, -1.0, 1.0); vec_in(&b); vec_in(&a);
        let (x, y) = ($V::new(a), $V::new(b));
        label("sum"); accurate::<A>(&(x + y), 20.0); label("difference"); accurate::<A>(&(x - y), 20.0); label("scaled"); accurate::<A>(&(x * s), 20.0); label("dot"); accurate(&(x * y), (40 * $n * $n) as f64); label("norm_l"); accurate(&x.norm_l(), (40 * $n * $n) as f64);
        label("norm_inf"); accurate(&x.norm_inf(), 20.0);
    }
    pub fn r_norm(a: A) { rounding(); let mut x = $V::new(a); relative(&x.norm2(), 100.0); relative(&x.norm_l(), 100.0); relative(&x.norm_inf(), 20.0); match x.normalize() { Ok(u) => relative::<A>(&u, 100.0), Err(_) => {} } }
    pub fn r_slices(a: A, b: A) { w1(&a, 1.0, 2.0); w1(&b, 1.0, 2.0); rounding(); accurate(&sm::dot(&a, &b), (200 * $n * $n) as f64); relative(&sm::norm2(&a), 100.0); let mut u = a; sm::normalize(&mut u); relative(&u, 100.0); }
    pub fn r_project(a: A, b: A) { w1(&a, -1.0, 1.0); w1(&b, 1.0, 2.0); rounding(); accurate(&sm::project_x_over_y(&a, &b), 4000.0); }
} } }
vecs!(v2, V2, 2);
vecs!(v3, V3, 3);
vecs!(v4, V4, 4);
vecs!(v5, V5, 5);
vecs!(v6, V6, 6);
pub fn r_cross(a: [f64; 3], b: [f64; 3]) { vec_in(&a); vec_in(&b); accurate::<[f64; 3]>(&V3::new(a).cross(V3::new(b)), 400.0); }
macro_rules! mats { ($m:ident, $M:ident, $V:ident, $n:expr, $o:expr, $b:expr, $e:expr, $i:expr, $d:expr, $q:expr) => { pub mod $m { use super::*;
    type A = [[f64; $n]; $n];
    type B = [f64; $n];
    pub fn r_sums(a: A, b: A, v: B, s: f64) {
        within(s, -1.0, 1.0); vec_in(&v); mat_in(&b); mat_in(&a);
        let (x, y, u) = ($M::new(a), $M::new(b), $V::new(v));
        label("sum"); accurate::<A>(&(x + y), 20.0); label("difference"); accurate::<A>(&(x - y), 20.0); label("scaled"); accurate::<A>(&(x * s), 20.0);
        label("product"); accurate::<A>(&(x * y), (40 * $n * $n) as f64); label("applied"); accurate::<B>(&(x * u), (40 * $n * $n) as f64); label("row"); accurate::<B>(&(u * x), (40 * $n * $n) as f64);
        label("trace"); accurate(&x.trace(), (40 * $n * $n) as f64);
    }
    pub fn r_norm(a: A) { rounding(); relative(&$M::new(a).norm2(), (40 * $n * $n) as f64); }
    pub fn r_det(a: A) { budget(1000); mat_in(&a); accurate(&$M::new(a).det(), $e); }
    pub fn r_inverse(a: A) { budget(1000); dominant(&a, $o); partial(); match $M::new(a).inverse() { Some(i) => accurate::<A>(&i, $i), None => diverges() } }
    pub fn r_lu(a: A) { budget(1000); dominant(&a, $o); partial(); let (l, d, _) = $M::new(a).lu(); accurate::<A>(&l, 1000.0); accurate(&d, $d); }
    pub fn r_qr(a: A) { budget($b); dominant(&a, $o); partial(); match $M::new(a).qr() { Some((q, r)) => { accurate::<A>(&q, $q); accurate::<A>(&r, 4.0 * $q); } None => diverges() } }
} } }
mats!(m2, M22, V2, 2, 0.5, 4000, 400.0, 600.0, 2000.0, 20000.0);
mats!(m3, M33, V3, 3, 0.25, 200, 3000.0, 3000.0, 20000.0, 200000.0);
mats!(m4, M44, V4, 4, 0.125, 60, 40000.0, 30000.0, 80000.0, 60000.0);
mats!(m5, M55, V5, 5, 0.0625, 40, 800000.0, 300000.0, 400000.0, 20000.0);
mats!(m6, M66, V6, 6, 0.03125, 40, 30000000.0, 4000000.0, 2000000.0, 5000.0);
pub mod quat { use super::*;
    pub fn r_arith(a: [f64; 4], b: [f64; 4], s: f64) { within(s, -1.0, 1.0); vec_in(&b); vec_in(&a); accurate(&qa(q(a) + q(b)), 200.0); accurate(&qa(q(a) - q(b)), 200.0); accurate(&qa(q(a) * q(b)), 2000.0); accurate(&qa(q(a) * s), 100.0); accurate(&q(a).dot(q(b)), 2000.0); }
    pub fn r_norm(a: [f64; 4]) { rounding(); relative(&q(a).norm2(), 300.0); relative(&q(a).abs_imag(), 300.0); match q(a).normalize() { Some(x) => relative(&qa(x), 400.0), None => {} } match q(a).inverse() { Some(x) => relative(&qa(x), 500.0), None => {} } }
    pub fn r_rotate(a: [f64; 4], v: [f64; 3]) { w1(&v, -1.0, 1.0); unit_in(&a); label("vector"); accurate(&va(q(a) * v3(v)), 7000.0); label("matrix"); accurate(&m3a(q(a).to_rotation()), 900.0); }
    pub fn r_rotate_marked(a: [f64; 4], v: [f64; 3]) { w1(&v, -1.0, 1.0); unit_in(&a); label("vector"); accurate(&va(fq(a) * v3(v)), 20000.0); label("matrix"); accurate(&m3a(fq(a).to_rotation()), 5000.0); }
    pub fn r_from_rotation(a: [f64; 4]) { unit_in(&a); accurate(&qa(Quaternion::from_rotation(&m3(qmat(a)))), 7000.0); }
    pub fn r_axis_angle(t: f64, v: [f64; 3]) { within(t, -3.2, 3.2); w1(&v, 1.0, 2.0); rounding(); accurate(&qa(Quaternion::rotation(t, &v3(v))), 800.0); }
    pub fn r_norm_encoded(v: [f64; 3]) { w1(&v, 0.1, 1.0); rounding(); accurate(&qa(Quaternion::rotation_norm_encoded(&v3(v))), 4000.0); }
    pub fn r_angle(a: [f64; 4]) { unit(a); w1(&a, 0.1, 1.0); rounding(); accurate(&q(a).get_angle(), 900.0); match q(a).get_axis() { Some(u) => accurate(&va(u), 20000.0), None => {} } }
    pub fn r_exp(a: [f64; 4]) { w1(&a, 0.1, 1.0); rounding(); accurate(&qa(q(a).exp()), 60000.0); }
    pub fn r_ln(a: [f64; 4]) { w1(&a, 1.0, 2.0); rounding(); accurate(&qa(q(a).ln()), 9000.0); }
    pub fn r_euler(a: f64, b: f64, c: f64) { within(a, -3.2, 3.2); within(b, -3.2, 3.2); within(c, -3.2, 3.2); rounding(); accurate(&qa(Quaternion::from_euler_angles(a, b, c)), 2000.0); }
    pub fn r_slerp(a: [f64; 4], b: [f64; 4], t: f64) { w1(&a, 0.0, 1.0); w1(&b, 0.0, 1.0); within(t, 0.0, 1.0); unit(a); unit(b); rounding(); assume(dotn(&a, &b) < 0.9); accurate(&qa(Quaternion::slerp(q(a), q(b), t)), 200000.0); }
}
pub mod trans { use super::*;
    pub fn r_rot(t: f64) { within(t, -3.2, 3.2); rounding(); accurate(&m3a(rotx(t)), 200.0); accurate(&m3a(roty(t)), 200.0); accurate(&m3a(rotz(t)), 200.0); }
    pub fn r_euler(a: f64, b: f64, c: f64) { within(a, -3.2, 3.2); within(b, -3.2, 3.2); within(c, -3.2, 3.2); rounding(); accurate(&m3a(euler_to_rotation(a, b, c, None)), 2000.0); }
    pub fn r_extract(a: f64, b: f64, c: f64) { within(a, -3.0, 3.0); within(b, -0.9, 0.9); within(c, -3.0, 3.0); rounding(); let (x, y, z) = rotation_to_euler(&m3(zyx(a, b, c))); accurate(&x, 5000.0); accurate(&y, 3000.0); accurate(&z, 5000.0); }
    pub fn r_near_lock(a: f64, b: f64, c: f64) { within(a, -3.0, 3.0); within(b, 1.5, 1.57); within(c, -3.0, 3.0); rounding(); label("up"); accurate(&rotation_to_euler(&m3(zyx(a, b, c))).1, 800.0); label("down"); accurate(&rotation_to_euler(&m3(zyx(a, -b, c))).1, 800.0); }
    pub fn r_inverse(a: [f64; 4], p: [f64; 3]) { w1(&p, -1.0, 1.0); unit_in(&a); accurate(&m4a(homogeneous_inverse(&m4(homog(qmat(a), p)))), 7000.0); }
    pub fn r_rodrigues(v: [f64; 3], t: f64) { unit3(v); w1(&v, -1.0, 1.0); within(t, -3.2, 3.2); rounding(); accurate(&m3a(rotation_from_axis_angle(&v3(v), t)), 3000.0); }
    pub fn r_exp(v: [f64; 3]) { w1(&v, 0.5, 1.0); rounding(); accurate(&m3a(matrix_exponential(&m3(skew(v)))), 6000.0); }
    pub fn r_log(v: [f64; 3], t: f64) { unit3(v); w1(&v, -1.0, 1.0); within(t, 0.5, 2.5); rounding(); let r = madd(madd(id(), mscale(skew(v), t.sin())), mscale(mm(skew(v), skew(v)), 1.0 - t.cos())); accurate(&m3a(matrix_log(&m3(r))), 2000000.0); }
    pub fn r_exp6(v: [f64; 3], p: [f64; 3]) { w1(&v, 0.5, 1.0); w1(&p, -1.0, 1.0); rounding(); accurate(&m4a(matrix_exponential6(&m4(se3(v, p)))), 30000.0); }
    pub fn r_log6(v: [f64; 3], t: f64, p: [f64; 3]) { unit3(v); w1(&v, -1.0, 1.0); w1(&p, -1.0, 1.0); within(t, 1.0, 2.0); rounding(); let r = madd(madd(id(), mscale(skew(v), t.sin())), mscale(mm(skew(v), skew(v)), 1.0 - t.cos())); accurate(&m4a(matrix_log6(&m4(homog(r, p)))), 700000.0); }
    pub fn r_parts(a: [f64; 4], p: [f64; 3]) { w1(&p, -1.0, 1.0); unit_in(&a); accurate(&m4a(homogeneous_from_quaternion(&q(a), &v3(p))), 900.0); }
    pub fn r_get_parts(a: f64, b: f64, c: f64, p: [f64; 3]) { w1(&p, -1.0, 1.0); within(a, -3.0, 3.0); within(b, -0.9, 0.9); within(c, -3.0, 3.0); rounding(); let (r, t) = get_parts(&m4(homog(zyx(a, b, c), p))); accurate(&qa(r), 20000.0); accurate(&va(t), 100.0); }
    pub fn r_inverse_transform(a: [f64; 4], p: [f64; 3], x: [f64; 3]) { w1(&p, -1.0, 1.0); w1(&x, -1.0, 1.0); unit_in(&a); accurate(&va(homogeneous_inverse_transform(&m4(homog(qmat(a), p)), &v3(x))), 20000.0); }
    pub fn r_adjoint(a: [f64; 4], p: [f64; 3]) { w1(&p, -1.0, 1.0); unit_in(&a); accurate(&adjoint(&m4(homog(qmat(a), p))), 5000.0); }
    pub fn r_screw_axis(a: [f64; 3], s: [f64; 3], h: f64) { w1(&a, -1.0, 1.0); unit3(s); w1(&s, -1.0, 1.0); within(h, -1.0, 1.0); rounding(); accurate(&screw_to_axis(&v3(a), &v3(s), h), 800.0); }
    pub fn r_axis_angle(v: [f64; 3]) { w1(&v, 0.5, 1.0); rounding(); partial(); let (u, t) = axis_angle(&v3(v)); relative(&t, 300.0); relative(&va(u), 400.0); }
    pub fn r_axis_angle6(v: [f64; 6]) { w1(&v, 0.5, 1.0); rounding(); let (u, t) = axis_angle6(&V6::new(v)); relative(&t, 300.0); relative(&u, 400.0); }
    pub fn r_small_exp(v: [f64; 3]) { w1(&v, 1e-3, 2e-3); rounding(); accurate(&m3a(matrix_exponential(&m3(skew(v)))), 700.0); }
    pub fn r_planar(t: f64, x: f64, y: f64) { within(t, -3.2, 3.2); within(x, -1.0, 1.0); within(y, -1.0, 1.0); rounding(); accurate::<[[f64; 3]; 3]>(&ksi(t, x, y), 200.0); accurate::<[[f64; 2]; 2]>(&rot2(t), 200.0); }
    pub fn r_manifold(a: [[f64; 3]; 3]) { dominant(&a, 0.5); accurate(&distance_to_manifold(&m3(a)), 40000.0); }
}
/// quantities that stay accurate when they are small
pub mod small { use super::*;
    pub fn r_angle(a: [f64; 4]) { unit(a); within(a[0], 0.9, 1.0); within(a[1], 1e-6, 2e-6); within(a[2], 1e-6, 2e-6); within(a[3], 1e-6, 2e-6); rounding(); relative(&q(a).get_angle(), 500.0); match q(a).get_axis() { Some(u) => relative(&va(u), 2000.0), None => {} } }
    pub fn r_ln(a: [f64; 4]) { unit(a); within(a[0], 0.9, 1.0); within(a[1], 1e-6, 2e-6); within(a[2], 1e-6, 2e-6); within(a[3], 1e-6, 2e-6); rounding(); label("marked"); relative(&va(fq(a).ln().imag()), 3000.0); label("plain"); relative(&va(q(a).ln().imag()), 3000.0); }
    pub fn r_exp(v: [f64; 3]) { w1(&v, 1e-6, 2e-6); rounding(); relative(&va(q(pure(v)).exp().imag()), 900.0); }
    pub fn r_rotation(t: f64, v: [f64; 3]) { within(t, 1e-6, 2e-6); w1(&v, 1.0, 2.0); rounding(); relative(&va(Quaternion::rotation(t, &v3(v)).imag()), 700.0); }
    pub fn r_norm_encoded(v: [f64; 3]) { w1(&v, 1e-6, 2e-6); rounding(); relative(&va(Quaternion::rotation_norm_encoded(&v3(v)).imag()), 900.0); }
    pub fn r_euler(t: f64) { within(t, 1e-6, 2e-6); rounding(); relative(&Quaternion::from_euler_angles(t, 0.0, 0.0).imag()[2], 200.0); relative(&Quaternion::from_euler_angles(0.0, t, 0.0).imag()[1], 200.0); relative(&Quaternion::from_euler_angles(0.0, 0.0, t).imag()[0], 200.0); }
}
pub mod pivot { use super::*;
    // a tiny leading entry: the elimination has to swap it away
    pub fn r_two(a: [[f64; 2]; 2]) { tiny(&a); rounding(); partial(); accurate::<[[f64; 2]; 2]>(&M22::new(a).lu().0, 200.0); match M22::new(a).inverse() { Some(i) => accurate::<[[f64; 2]; 2]>(&i, 2000.0), None => diverges() } }
    pub fn r_three(a: [[f64; 3]; 3]) { cyc(&a, 0.25); rounding(); partial(); accurate::<[[f64; 3]; 3]>(&M33::new(a).lu().0, 600.0); accurate(&M33::new(a).lu().1, 20000.0); match M33::new(a).inverse() { Some(i) => accurate::<[[f64; 3]; 3]>(&i, 2000.0), None => diverges() } }
    /// a small first row, and below it an entry that is smaller still: the row has to stay where it is
    pub fn r_scaled_two(a: [[f64; 2]; 2]) { within(a[0][0], 1e-10, 2e-10); within(a[0][1], -1e-10, 1e-10); within(a[1][0], -1e-15, 1e-15); within(a[1][1], 1.0, 2.0); rounding(); partial(); accurate::<[[f64; 2]; 2]>(&M22::new(a).lu().0, 200.0); }
    pub fn r_scaled_three(a: [[f64; 3]; 3]) { within(a[0][0], 1e-10, 2e-10); within(a[0][1], -1e-10, 1e-10); within(a[0][2], -1e-10, 1e-10); within(a[1][0], -1e-15, 1e-15); within(a[1][1], 1.0, 2.0); within(a[1][2], -0.1, 0.1); within(a[2][0], -1e-15, 1e-15); within(a[2][1], -0.1, 0.1); within(a[2][2], 1.0, 2.0);
        rounding(); partial(); accurate::<[[f64; 3]; 3]>(&M33::new(a).lu().0, 600.0); }
    pub fn r_four(a: [[f64; 4]; 4]) { cyc(&a, 0.125); rounding(); partial(); accurate::<[[f64; 4]; 4]>(&M44::new(a).lu().0, 1000.0); accurate(&M44::new(a).lu().1, 80000.0); match M44::new(a).inverse() { Some(i) => accurate::<[[f64; 4]; 4]>(&i, 20000.0), None => diverges() } }
    pub fn r_five(a: [[f64; 5]; 5]) { cyc(&a, 0.0625); rounding(); partial(); accurate::<[[f64; 5]; 5]>(&M55::new(a).lu().0, 2000.0); accurate(&M55::new(a).lu().1, 400000.0); }
    pub fn r_six(a: [[f64; 6]; 6]) { cyc(&a, 0.03125); rounding(); partial(); accurate::<[[f64; 6]; 6]>(&M66::new(a).lu().0, 2000.0); accurate(&M66::new(a).lu().1, 2000000.0); }
}
pub mod quat2 { use super::*;
    pub fn r_sqrt(a: [f64; 4]) { unit(a); w1(&a, 0.1, 1.0); rounding(); accurate(&qa(q(a).sqrt()), 600000.0); }
    pub fn r_pow(a: [f64; 4], e: f64) { unit(a); w1(&a, 0.4, 0.6); within(e, 0.5, 1.0); rounding(); partial(); accurate(&qa(q(a).pow(q([e, 0.0, 0.0, 0.0]))), 90000.0); }
    pub fn r_sin(a: [f64; 4]) { w1(&a, 0.5, 1.0); rounding(); partial(); accurate(&qa(q(a).sin()), 100000.0); }
    pub fn r_cos(a: [f64; 4]) { w1(&a, 0.5, 1.0); rounding(); partial(); accurate(&qa(q(a).cos()), 30000.0); }
    pub fn r_derivative(a: [f64; 4], w: [f64; 3]) { w1(&w, -1.0, 1.0); vec_in(&a); accurate(&qa(q(a).derivative(&v3(w))), 400.0); }
    pub fn r_argq(a: [f64; 4]) { w1(&a, 0.5, 1.0); rounding(); accurate(&qa(q(a).argq()), 400.0); accurate(&qa(q(a).normalize_q()), 400.0); }
    pub fn r_to_euler(a: f64, b: f64, c: f64) { within(a, -1.4, 1.4); within(b, -0.45, 0.45); within(c, -1.4, 1.4); rounding();
        let x = qm(qm([a.cos(), 0.0, 0.0, a.sin()], [b.cos(), 0.0, b.sin(), 0.0]), [c.cos(), c.sin(), 0.0, 0.0]); let (u, v, w) = q(x).to_euler_angles(); accurate(&u, 900000.0); accurate(&v, 2000000.0); accurate(&w, 1000000.0); }
}
pub mod dual { use super::*;
    fn dual_of(a: [f64; 4], p: [f64; 3]) -> [f64; 4] { sc4(qm(pure(p), a), 0.5) }
    pub fn r_arith(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4], s: f64) { within(s, -1.0, 1.0); w1(&a, -1.0, 1.0); w1(&b, -1.0, 1.0); w1(&c, -1.0, 1.0); w1(&e, -1.0, 1.0); rounding(); accurate(&da(d(a, b) * d(c, e)), 4000.0); accurate(&da(d(a, b) + d(c, e)), 200.0); accurate(&da(d(a, b) - d(c, e)), 200.0); accurate(&da(d(a, b) * s), 100.0); accurate(&da(d(a, b).norm()), 4000.0); }
    pub fn r_rot_trans(a: [f64; 4], p: [f64; 3]) { w1(&p, -1.0, 1.0); unit_in(&a); accurate(&da(DualQuaternion::new_from_rot_trans(&q(a), &v3(p))), 1000.0); accurate(&da(DualQuaternion::new_from_array([a[0], a[1], a[2], a[3], p[0], p[1], p[2]])), 400.0); }
    pub fn r_homogeneous(a: [f64; 4], p: [f64; 3]) { w1(&p, -1.0, 1.0); unit_in(&a); accurate(&m4a(d(a, dual_of(a, p)).to_homogeneous()), 6000.0); }
    pub fn r_from_homogeneous(a: [f64; 4], p: [f64; 3]) { w1(&p, -1.0, 1.0); unit_in(&a); accurate(&da(DualQuaternion::new_from_homogeneous(&m4(homog(qmat(a), p)))), 50000.0); }
    pub fn r_translation(a: [f64; 4], p: [f64; 3]) { w1(&p, -1.0, 1.0); unit_in(&a); accurate(&va(d(a, dual_of(a, p)).get_translation()), 6000.0); }
    pub fn r_point(a: [f64; 4], p: [f64; 3], x: [f64; 3]) { w1(&p, -1.0, 1.0); w1(&x, -1.0, 1.0); unit_in(&a); accurate(&va(d(a, dual_of(a, p)).transform_point(&v3(x))), 20000.0); }
    pub fn r_normalize(a: [f64; 4], b: [f64; 4]) { w1(&a, 0.5, 1.0); w1(&b, -1.0, 1.0); rounding(); match d(a, b).normalize() { Some(x) => accurate(&da(x), 8000.0), None => diverges() } }
    pub fn r_inverse(a: [f64; 4], b: [f64; 4]) { w1(&a, 0.5, 1.0); w1(&b, -1.0, 1.0); rounding(); partial(); accurate(&da(d(a, b).inverse()), 30000.0); }
    pub fn r_divide(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4]) { w1(&a, 0.5, 1.0); w1(&b, -1.0, 1.0); w1(&c, -1.0, 1.0); w1(&e, -1.0, 1.0); rounding(); partial(); accurate(&da(d(c, e) / d(a, b)), 200000.0); }
    pub fn r_screw(a: [f64; 4], p: [f64; 3]) { unit(a); w1(&a, 0.4, 0.6); w1(&p, -1.0, 1.0); rounding(); partial(); let (l, m, t, x) = d(a, dual_of(a, p)).get_screw_parameters(); accurate(&va(l), 700.0); accurate(&va(m), 20000.0); accurate(&t, 800.0); accurate(&x, 9000.0); }
    pub fn r_from_screw(l: [f64; 3], m: [f64; 3], t: f64, x: f64) { unit3(l); w1(&l, -1.0, 1.0); w1(&m, -1.0, 1.0); within(t, 0.1, 3.0); within(x, -1.0, 1.0); rounding(); accurate(&da(DualQuaternion::new_from_screw_parameters(&v3(l), &v3(m), t, x)), 700.0); }
    pub fn r_pow(a: [f64; 4], p: [f64; 3], e: f64) { unit(a); w1(&a, 0.4, 0.6); w1(&p, -1.0, 1.0); within(e, -1.0, 1.0); rounding(); partial(); accurate(&da(d(a, dual_of(a, p)).pow(e)), 20000.0); }
    pub fn r_log(a: [f64; 4], p: [f64; 3]) { unit(a); w1(&a, 0.4, 0.6); w1(&p, -1.0, 1.0); rounding(); partial(); match DualQuaternion::new_from_rot_trans(&q(a), &v3(p)).log() { Some(x) => accurate(&da(x), 60000.0), None => diverges() } }
}
fn se3(w: [f64; 3], v: [f64; 3]) -> [[f64; 4]; 4] { let s = skew(w); [[s[0][0], s[0][1], s[0][2], v[0]], [s[1][0], s[1][1], s[1][2], v[1]], [s[2][0], s[2][1], s[2][2], v[2]], [0.0; 4]] }
fn tiny<const N: usize>(a: &[[f64; N]; N]) { let mut i = 0; while i < N { let mut j = 0; while j < N { if i == 0 && j == 0 { within(a[i][j], 1e-9, 2e-9); } else { within(a[i][j], 1.0, 2.0); } j += 1; } i += 1; } }
/// dominant entries one row below the diagonal, tiny ones on it
fn cyc<const N: usize>(a: &[[f64; N]; N], o: f64) { let mut i = 0; while i < N { let mut j = 0; while j < N { if i == (j + 1) % N { within(a[i][j], 2.0, 3.0); } else if i == j { within(a[i][j], 1e-9, 2e-9); } else { within(a[i][j], -o, o); } j += 1; } i += 1; } }
fn zyx(a: f64, b: f64, c: f64) -> [[f64; 3]; 3] { mm(mm(rz(a), ry(b)), rx(c)) }
