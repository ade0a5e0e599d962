//! C30: no operation panics outside its documented preconditions. Each rule applies operations to arbitrary
//! finite inputs; the obligations are the panic sites the analysis finds reachable (none allowed).
use crate::qh::*;
use crate::refm::*;
use crate::smrt::*;
use static_math::slices_methods as sl;
use static_math::traits::LinearAlgebra;
use static_math::transformations as tr;
use static_math::utils as ut;
use static_math::*;
use num::{One, Zero};
/// uses a result, so that nothing is dropped from the program
fn u<T>(_x: T) {}
macro_rules! vecs {
    ($m:ident, $V:ident, $M:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            type V = $V<f64>;
            type A = [f64; $n];
            type B = [[f64; $n]; $n];
            pub fn r_arith(a: A, b: A, k: f64) {
                holds(true); any_values();
                let (x, y) = (V::new(a), V::new(b));
                u(x + y); u(x - y); u(x * y); u(x * k); u(x / k); u(-x); u(x == y); u(x.is_zero());
                let mut z = x; z += y; z -= y; u(z);
                u(V::zeros()); u(V::ones()); u(<V as Zero>::zero()); u(V::from(a)); u(x[0]); u(&*x); let mut w = x; w[$n - 1] = k; w[0] = k; u(&mut *w); u(&x[1..]); u(x.iter().count());
            }
            pub fn r_by_matrix(a: A, b: B) { holds(true); any_values(); u(V::new(a) * $M::new(b)); }
            pub fn r_norms(a: A) { holds(true); any_values(); let x = V::new(a); u(x.norm2()); u(x.norm_l()); }
            pub fn r_norm_inf(a: A) { holds(true); any_values(); u(V::new(a).norm_inf()); }
            pub fn r_normalize(a: A) { holds(true); any_values(); let mut x = V::new(a); u(x.normalize()); }
        }
    };
}
vecs!(v2, V2, M22, 2);
vecs!(v3, V3, M33, 3);
vecs!(v4, V4, M44, 4);
vecs!(v5, V5, M55, 5);
vecs!(v6, V6, M66, 6);
pub fn r_scale_left(k: f64, c: f32, a: [f64; 3], b: [[f64; 3]; 3], f: [f32; 6]) {
    holds(true); any_values();
    u(k * V3::new(a)); u(k * M33::new(b));
    u(c * V2::new([f[0], f[1]])); u(c * V3::new([f[0], f[1], f[2]])); u(c * V4::new([f[0], f[1], f[2], f[3]])); u(c * V5::new([f[0], f[1], f[2], f[3], f[4]])); u(c * V6::new(f));
    u(c * M22::new([[f[0], f[1]], [f[2], f[3]]])); u(c * M33::new([[f[0], f[1], f[2]]; 3]));
}
pub fn r_cross(a: [f64; 3], b: [f64; 3]) { holds(true); any_values(); u(V3::new(a).cross(V3::new(b))); u(V3::<f64>::x_axis()); u(V3::<f64>::y_axis()); u(V3::<f64>::z_axis()); }
pub fn r_new_from(a: [f64; 6]) {
    holds(true); any_values();
    u(V2::new_from(a[0], a[1])); u(V3::new_from(a[0], a[1], a[2])); u(V4::new_from(a[0], a[1], a[2], a[3])); u(V5::new_from(a[0], a[1], a[2], a[3], a[4])); u(V6::new_from(a[0], a[1], a[2], a[3], a[4], a[5]));
}
macro_rules! mats {
    ($m:ident, $M:ident, $V:ident, $n:expr, $b:expr) => {
        pub mod $m {
            use super::*;
            type M = $M<f64>;
            type A = [[f64; $n]; $n];
            pub fn r_arith(a: A, b: A, k: f64) {
                holds(true); any_values();
                let (x, y) = (M::new(a), M::new(b));
                u(x + y); u(x - y); u(x * k); u(x / k); u(-x); u(x.transpose()); u(x.trace()); u(x.shape()); u(x.rows()); u(x.cols());
                u(LinearAlgebra::rows(&x)); u(LinearAlgebra::cols(&x));
                let mut z = x; z += y; z -= y; u(z);
                u(M::zeros()); u(M::identity()); u(<M as Zero>::zero()); u(<M as One>::one()); u(M::from(a)); u(&*x); let mut w = x; u(&mut *w);
            }
            pub fn r_mul(a: A, b: A) { holds(true); any_values(); u(M::new(a) * M::new(b)); }
            pub fn r_mul_vec(a: A, b: [f64; $n]) { holds(true); any_values(); u(M::new(a) * $V::new(b)); }
            pub fn r_eq(a: A, b: A) { holds(true); any_values(); u(M::new(a) == M::new(b)); }
            pub fn r_is_zero(a: A) { holds(true); any_values(); u(M::new(a).is_zero()); }
            pub fn r_views(a: A, k: f64) {
                holds(true); any_values();
                let x = M::new(a);
                u(x.get_rows()); u(x.get_cols()); u(x.get_diagonal()); u(x.as_vec()); u(x.for_each(|t| t * k)); u(M::new_from_vecs(x.get_cols()));
                let mut i = 0;
                while i < $n { u(x[i]); let mut w = x; w[i] = a[0]; let mut j = 0; while j < $n { u(x[(i, j)]); w[(i, j)] = k; j += 1; } i += 1; }
            }
            pub fn r_norm(a: A) { holds(true); any_values(); budget($b); u(M::new(a).norm2()); }
            pub fn r_det(a: A) { holds(true); any_values(); budget($b); u(M::new(a).det()); }
            pub fn r_inverse(a: A) { holds(true); any_values(); budget($b); u(M::new(a).inverse()); }
            pub fn r_qr(a: A) { holds(true); any_values(); budget($b); u(M::new(a).qr()); }
        }
    };
}
mats!(m2, M22, V2, 2, 200);
mats!(m3, M33, V3, 3, 200);
mats!(m4, M44, V4, 4, 100);
mats!(m5, M55, V5, 5, 60);
mats!(m6, M66, V6, 6, 40);
/// a matrix with an entry that is not tiny
macro_rules! lu { ($f:ident, $M:ident, $n:expr) => { pub fn $f(e: [[f64; $n]; $n]) { holds(true); any_values_forget(); let mut a = e; let (mut i, mut j) = (0, 0); while i < $n { j = 0; while j < $n { a[i][j] = e[i][j] + e[0][0]; j += 1; } i += 1; } may_panic("should be non zero"); u($M::new(a).lu()); } } }
lu!(r_lu2, M22, 2);
lu!(r_lu3, M33, 3);
lu!(r_lu4, M44, 4);
lu!(r_lu5, M55, 5);
lu!(r_lu6, M66, 6);
pub fn r_eigen(a: [[f64; 2]; 2]) { holds(true); any_values(); u(M22::new(a).real_eigenvals()); u(M22::new_from(a[0][0], a[0][1], a[1][0], a[1][1])); }
pub fn r_triangles(a: [[f64; 3]; 3], b: [[f64; 4]; 4], c: [[f64; 5]; 5], e: [[f64; 6]; 6]) {
    holds(true); any_values();
    u(M33::new(a).get_upper_triagular()); u(M33::new(a).get_lower_triangular());
    u(M44::new(b).get_upper_triagular()); u(M44::new(b).get_lower_triangular());
    u(M55::new(c).get_upper_triagular()); u(M55::new(c).get_lower_triangular());
    u(M66::new(e).get_upper_triangular()); u(M66::new(e).get_lower_triangular());
}
pub fn r_blocks(a: [[f64; 4]; 4], e: [[f64; 6]; 6], b: [[f64; 3]; 3]) {
    holds(true); any_values();
    let mut i = 0;
    while i < 4 { let mut j = 0; while j < 4 { u(M44::new(a).get_submatrix((i, j))); j += 1; } let mut x = M66::new(e); x.copy_elements_from(&M33::new(b), i + 1); u(x); i += 1; }
}
macro_rules! slices { ($f:ident, $n:expr) => { pub fn $f(a: [f64; $n], b: [f64; $n], t: f64) {
    holds(true); any_values();
    u(sl::norm_inf(&a)); u(sl::norm_l(&a)); u(sl::norm2(&a)); u(sl::dot(&a, &b)); u(sl::project_x_over_y(&a, &b)); let mut x = a; sl::normalize(&mut x); u(x);
} } }
slices!(r_slice1, 1);
slices!(r_slice2, 2);
slices!(r_slice3, 3);
slices!(r_slice5, 5);
slices!(r_slice8, 8);
macro_rules! search { ($f:ident, $n:expr) => { pub fn $f(a: [f64; $n], b: [f64; $n], t: f64) { holds(true); any_values(); let m = sl::find_max_min(&a); u(m); u(sl::check_elements(&a, t)); u(ut::compare_vecs(&a, &b, t)); } } }
search!(r_search1, 1);
search!(r_search3, 3);
search!(r_search6, 6);
pub fn r_no_elements(t: f64) {
    holds(true); any_values();
    let e: [f64; 0] = [];
    u(sl::norm_l(&e)); u(sl::norm2(&e)); u(sl::dot(&e, &e)); let mut x = e; sl::normalize(&mut x); u(sl::check_elements(&e, t)); u(ut::compare_vecs(&e, &e, t));
}
pub fn r_lengths_differ(a: [f64; 3], b: [f64; 2], t: f64) { holds(true); any_values(); u(ut::compare_vecs(&a, &b, t)); }
pub fn r_compare(a: f64, b: f64, t: f64) { holds(true); any_values(); u(ut::nearly_equal(a, b, t)); u(ut::nearly_zero(a)); u(ut::compare_floats(a, b, t)); }
pub fn r_compare_dq(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4], t: f64) { holds(true); any_values(); u(ut::compare_dual_quaternions(d(a, b), d(c, e), t)); }
pub fn r_is_rotation(a: [[f64; 3]; 3]) { holds(true); any_values(); budget(200); u(ut::is_rotation(m3(a))); }
pub fn r_is_rotation_h(a: [[f64; 4]; 4]) { holds(true); any_values(); budget(100); u(ut::is_rotation_h(m4(a))); }

// ---- quaternions
pub fn r_q_arith(a: [f64; 4], b: [f64; 4], k: f64, v: [f64; 3]) {
    holds(true); any_values();
    let (x, y) = (q(a), q(b));
    u(x + y); u(x - y); u(x * y); u(x * k); u(x / k); u(-x); u(x * v3(v)); u(x == y); u(x.dot(y)); u(x.conj()); u(x.abs2()); u(x.norm2()); u(x.abs_imag()); u(x.real()); u(x.imag()); u(x.is_zero());
    u(Q::zero()); u(Q::one()); u(Q::new_real(k)); u(Q::new_imag(&v3(v))); u(Q::new_from_vec(&V4::new(a))); u(Q::from(a)); u(Q::new(k, v3(v))); u(x.to_rotation()); u(x.derivative(&v3(v)));
    u(<Q as Zero>::zero()); u(<Q as One>::one());
}
macro_rules! q1 { ($f:ident, $x:ident => $e:expr) => { pub mod $f { use super::*;
    pub fn r_plain(a: [f64; 4]) { holds(true); any_values(); let $x = q(a); u($e); }
    pub fn r_marked(a: [f64; 4]) { holds(true); any_values(); let Some($x) = q(a).normalize() else { return }; u($e); }
} } }
q1!(q_normalize, x => x.normalize());
q1!(q_normalize_q, x => x.normalize_q());
q1!(q_inverse, x => x.inverse());
q1!(q_argq, x => x.argq());
q1!(q_exp, x => x.exp());
q1!(q_ln, x => x.ln());
q1!(q_sqrt, x => x.sqrt());
q1!(q_sin, x => x.sin());
q1!(q_cos, x => x.cos());
q1!(q_angle, x => x.get_angle());
q1!(q_axis, x => x.get_axis());
q1!(q_axis_angle, x => x.axis_angle());
q1!(q_to_euler, x => x.to_euler_angles());
pub fn r_q_pow(a: [f64; 4], b: [f64; 4]) { holds(true); any_values(); budget(100); u(q(a).pow(q(b))); }
pub fn r_q_pow_real(a: [f64; 4], k: f64) { holds(true); any_values(); budget(100); u(q(a).pow(Quaternion::new_real(k))); }
pub fn r_q_div(a: [f64; 4], b: [f64; 4]) { holds(true); assume(dotn(&b, &b) > tol(1e-9, 1e-6)); u(q(a) / q(b)); }
pub fn r_q_slerp(a: [f64; 4], b: [f64; 4], t: f64) { holds(true); any_values(); budget(200); u(Quaternion::slerp(q(a), q(b), t)); }
pub fn r_q_rotation(t: f64, v: [f64; 3]) { holds(true); assume(dotn(&v, &v) > tol(1e-9, 1e-6)); u(Quaternion::rotation(t, &v3(v))); }
pub fn r_q_encoded(v: [f64; 3]) { holds(true); any_values(); u(Quaternion::rotation_norm_encoded(&v3(v))); }
pub fn r_q_from_euler(a: f64, b: f64, c: f64) { holds(true); any_values(); u(Quaternion::from_euler_angles(a, b, c)); }
pub fn r_q_from_rotation(a: [[f64; 3]; 3]) { holds(true); any_values(); u(Quaternion::from_rotation(&m3(a))); }

// ---- dual quaternions
pub fn r_d_arith(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4], k: f64, v: [f64; 3]) {
    holds(true); any_values();
    budget(200);
    let (x, y) = (d(a, b), d(c, e));
    u(x + y); u(x - y); u(x * y); u(x * k); u(-x); u(x == y); u(x.conj()); u(x.conj_as_dual()); u(x.conj_combined()); u(x.norm()); u(x.real()); u(x.dual()); u(x.is_zero());
    u(D::zero()); u(D::one()); u(<D as Zero>::zero()); u(<D as One>::one());
    u(D::new_from_point(&v3(v))); u(D::new_from_translation(&v3(v))); u(D::new_from_rotation(&q(a))); u(D::new_from_vecs(&V4::new(a), &V4::new(b)));
    u(x.get_translation()); u(x.to_quaternion_translation()); u(x.to_rotation_translation()); u(x.to_homogeneous()); u(x.transform_point(&v3(v)));
}
pub fn r_d_is_normalized(a: [f64; 4], b: [f64; 4]) { holds(true); any_values(); u(d(a, b).is_normalized()); }
pub fn r_d_normalize(a: [f64; 4], b: [f64; 4]) { holds(true); any_values(); budget(200); u(d(a, b).normalize()); }
pub fn r_d_inverse(a: [f64; 4], b: [f64; 4]) { holds(true); budget(200); assume(dotn(&a, &a) > tol(1e-9, 1e-6)); u(d(a, b).inverse()); }
pub fn r_d_div(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4]) { holds(true); budget(200); assume(dotn(&c, &c) > tol(1e-9, 1e-6)); u(d(a, b) / d(c, e)); }
pub fn r_d_screw(a: [f64; 4], b: [f64; 4]) { holds(true); any_values(); budget(200); u(d(a, b).get_screw_parameters()); }
pub fn r_d_from_screw(l: [f64; 3], m: [f64; 3], t: f64, s: f64) { holds(true); any_values(); u(D::new_from_screw_parameters(&v3(l), &v3(m), t, s)); }
pub fn r_d_pow(a: [f64; 4], b: [f64; 4], k: f64) { holds(true); any_values(); budget(100); u(d(a, b).pow(k)); }
pub fn r_d_lerp(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4], k: f64) { holds(true); budget(60); assume(dotn(&a, &a) > tol(1e-9, 1e-6)); u(D::screw_lerp(&d(a, b), &d(c, e), k)); }
pub fn r_d_log(a: [f64; 4], b: [f64; 4]) { holds(true); any_values(); u(d(a, b).log()); }
pub fn r_d_array(a: [f64; 7]) { holds(true); any_values(); u(D::new_from_array(a)); }
pub fn r_d_rot_trans(a: [f64; 4], v: [f64; 3]) { holds(true); assume(dotn(&a, &a) > tol(1e-9, 1e-6)); u(D::new_from_rot_trans(&q(a), &v3(v))); }
pub fn r_d_from_matrix(a: [[f64; 3]; 3]) { holds(true); any_values(); u(D::new_from_rotation_matrix(&m3(a))); }

// ---- transformations
pub fn r_t_rot(a: f64, b: f64, c: f64) { holds(true); any_values(); u(tr::rot2(a)); u(tr::rotx(a)); u(tr::roty(a)); u(tr::rotz(a)); u(tr::ksi(a, b, c)); u(tr::skew_scalar(a)); u(tr::translation_2d(a, b)); u(tr::translation_3d(a, b, c)); }
pub fn r_t_euler(a: f64, b: f64, c: f64) {
    holds(true); any_values();
    use tr::EulerSeq::*;
    u(tr::euler_to_rotation(a, b, c, None)); u(tr::euler_to_rotation(a, b, c, Some(XYX))); u(tr::euler_to_rotation(a, b, c, Some(XYZ))); u(tr::euler_to_rotation(a, b, c, Some(XZX))); u(tr::euler_to_rotation(a, b, c, Some(XZY)));
    u(tr::euler_to_rotation(a, b, c, Some(YXY))); u(tr::euler_to_rotation(a, b, c, Some(YXZ))); u(tr::euler_to_rotation(a, b, c, Some(YZX))); u(tr::euler_to_rotation(a, b, c, Some(YZY)));
    u(tr::euler_to_rotation(a, b, c, Some(ZXY))); u(tr::euler_to_rotation(a, b, c, Some(ZXZ)));
}
pub fn r_t_to_euler(a: [[f64; 3]; 3]) { holds(true); any_values(); u(tr::rotation_to_euler(&m3(a))); }
pub fn r_t_parts(r: [[f64; 3]; 3], h: [[f64; 4]; 4], a: [f64; 4], p: [f64; 3], w: [f64; 6], g: [[f64; 2]; 2], k: f64) {
    holds(true); any_values();
    u(tr::homogeneous_from_rotation(&m3(r), &v3(p))); u(tr::se3_from_parts(&m3(r), &v3(p))); u(tr::se3_get_parts(&m4(h))); u(tr::homogeneous_from_quaternion(&q(a), &v3(p)));
    u(tr::get_parts_raw(&m4(h))); u(tr::homogeneous_inverse(&m4(h))); u(tr::homogeneous_inverse_transform(&m4(h), &v3(p))); u(tr::skew_from_vec(&v3(p))); u(tr::skew_to_vec(&m3(r)));
    u(tr::skew_from_vec_aug(v3(p))); u(tr::skew_v6(V6::new(w))); u(tr::vex_m22(&M22::new(g))); u(tr::rotation_inverse(&m3(r))); u(tr::twist_to_se3(&V6::new(w))); u(tr::se3_to_twist(&m4(h))); u(tr::adjoint(&m4(h)));
    u(tr::screw_to_axis(&v3(p), &v3(p), k)); u(tr::rotation_from_axis_angle(&v3(p), k));
}
pub fn r_t_get_parts(h: [[f64; 4]; 4]) { holds(true); any_values(); u(tr::get_parts(&m4(h))); }
pub fn r_t_axis_angle(p: [f64; 3]) { holds(true); assume(dotn(&p, &p) > tol(1e-9, 1e-6)); u(tr::axis_angle(&v3(p))); }
pub fn r_t_axis_angle6(w: [f64; 6]) { holds(true); any_values(); u(tr::axis_angle6(&V6::new(w))); }
pub fn r_t_exp(r: [[f64; 3]; 3]) { holds(true); any_values(); budget(200); u(tr::matrix_exponential(&m3(r))); }
pub fn r_t_log(r: [[f64; 3]; 3]) { holds(true); any_values(); budget(200); u(tr::matrix_log(&m3(r))); }
pub fn r_t_exp6(h: [[f64; 4]; 4]) { holds(true); any_values(); budget(200); u(tr::matrix_exponential6(&m4(h))); }
pub fn r_t_log6(h: [[f64; 4]; 4]) { holds(true); any_values(); budget(200); u(tr::matrix_log6(&m4(h))); }
pub fn r_t_distance(r: [[f64; 3]; 3]) { holds(true); any_values(); budget(200); u(tr::distance_to_manifold(&m3(r))); }
/// operations on values that are marked as normalised
fn fd(a: [f64; 4], b: [f64; 4]) -> Option<D> { d(a, b).normalize() }
pub fn r_d_marked(a: [f64; 4], b: [f64; 4], k: f64) { holds(true); any_values(); may_panic("cannot be inverted"); let Some(x) = fd(a, b) else { return }; u(x.inverse()); u(x.normalize()); u(x.is_normalized()); u(x * x); u(x + x); u(x.conj()); u(x / x); u(x.norm()); }
pub fn r_d_marked_pow(a: [f64; 4], b: [f64; 4], k: f64) { holds(true); any_values(); let Some(x) = fd(a, b) else { return }; u(x.pow(k)); u(x.get_screw_parameters()); }
pub fn r_d_marked_lerp(a: [f64; 4], b: [f64; 4], c: [f64; 4], e: [f64; 4], k: f64) { holds(true); any_values(); may_panic("cannot be inverted"); if let (Some(x), Some(y)) = (fd(a, b), fd(c, e)) { u(D::screw_lerp(&x, &y, k)); } }
