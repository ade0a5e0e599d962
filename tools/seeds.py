"""Definitions of the planted changes (see seed.py).  Each demo panics (exit nonzero) if the property fails."""
SEEDS = []
NOSTD = 'static-math = { path = "$repo", default-features = false, features = ["no-std"] }'
def s(id, prop, edits, needs, what, demo, **more):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, demo=demo, **more))

s("b03-lu4-pivot-scale", "C09", [("matrix4x4.rs", "                d = -d;\n", "                d = if i_max == k + 1 { -d } else { d };\n")],
  "pivoting that exchanges rows that are not neighbours", "the sign of the permutation is lost for non-adjacent row exchanges, so the returned determinant has the wrong sign",
  '''fn main() { let m = M44::new([[1.0, 2.0, 3.0, 4.0], [2.0, 1.0, 0.5, 0.25], [9.0, 1.0, 7.0, 2.0], [3.0, 8.0, 1.0, 1.0]]);
 let (_, d, _) = m.lu(); assert!(close(d - m.det(), 1e-6)); let m = M44::new([[0.0, 0.0, 1.0, 0.0], [0.0, 1.0, 0.0, 0.0], [1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 1.0]]); let (_, d, _) = m.lu(); assert!(close(d - m.det(), 1e-6)); }''')
s("b04-quat-scale-keeps-mark", "C16", [("quaternion.rs", "Self {q0: self.q0 * rhs, q: self.q * rhs, normalized: false}", "Self {q0: self.q0 * rhs, q: self.q * rhs, normalized: self.normalized}")],
  "scaling a quaternion that was marked normalized, then normalizing or inverting it", "a scaled quaternion stays marked as normalized: normalize returns it unchanged and inverse is only the conjugate",
  '''fn main() { let q = Quaternion::rotation(0.7, &V3::new_from(1.0, 2.0, 3.0)); let w = q * 3.0; let n = w.normalize().unwrap(); assert!(near(n.norm2(), 1.0));
 let p = w * w.inverse().unwrap(); assert!(near(p.real(), 1.0)); }''')
s("b05-from-rotation-x-branch", "C18", [("quaternion.rs", "t, m[(0, 1)] + m[(1, 0)],  m[(2, 0)] + m[(0, 2)]);", "t, m[(0, 1)] + m[(1, 0)],  m[(2, 0)] - m[(0, 2)]);")],
  "a rotation whose quaternion is dominated by its x component", "the z component is built from a difference instead of a sum in one branch of the extraction",
  '''fn main() { let q = Quaternion::rotation(3.0, &V3::new_from(1.0, 0.2, 0.3)); let r = q.to_rotation(); let r2 = Quaternion::from_rotation(&r).to_rotation();
 for i in 0..3 { for j in 0..3 { assert!(near(r[(i, j)], r2[(i, j)])); } } }''')
s("b06-gimbal-sign", "C20", [("transformations.rs", "let yay = T::atan2(-r[(1, 2)], -r[(0, 2)]);", "let yay = T::atan2(r[(1, 2)], -r[(0, 2)]);")],
  "pitch exactly -pi/2 and a yaw that is not a multiple of pi", "the yaw extracted at the negative gimbal lock has the wrong sign",
  '''fn main() { let h = -core::f64::consts::FRAC_PI_2; let r = euler_to_rotation(0.4, h, 0.0, None); let (y, p, x) = rotation_to_euler(&r); let r2 = euler_to_rotation(y, p, x, None);
 for i in 0..3 { for j in 0..3 { assert!(close(r[(i, j)] - r2[(i, j)], 1e-6)); } } }''')
s("b07-log-half-turn-guard", "C26", [("transformations.rs", "                * (one / T::sqrt(two * (one + r[(1, 1)])));", "                * (one / T::sqrt(two * (one + r[(1, 1)].abs())));")],
  "a half turn about an axis whose largest component is y with y^2 below one half, so that r11 is negative", "the axis of the second half-turn case is scaled by the wrong length",
  '''fn main() { let w = [0.3f64.sqrt(), 0.4f64.sqrt(), 0.3f64.sqrt()]; let mut r: M33<f64> = M33::zeros();
 for i in 0..3 { for j in 0..3 { r[(i, j)] = 2.0 * w[i] * w[j] - if i == j { 1.0 } else { 0.0 }; } }
 let e = matrix_exponential(&matrix_log(&r)); for i in 0..3 { for j in 0..3 { assert!(close(r[(i, j)] - e[(i, j)], 1e-6)); } } }''')
s("b09-slerp-near-parallel", "C21", [("quaternion.rs", "result.q[2] = (one - t) * a.q[2] + t * b.q[2];", "result.q[2] = (one - t) * a.q[2] + t * b.q[1];")],
  "two unit quaternions closer than 0.001 in angle that turn about an axis with a z component", "the nearly-parallel branch takes the z component from the wrong place",
  '''fn main() { let a = Quaternion::rotation(2.0, &V3::new_from(0.0, 0.0, 1.0)); let b = Quaternion::rotation(2.0004, &V3::new_from(0.0, 0.0, 1.0));
 let c = Quaternion::slerp(a, b, 0.5); assert!(close(c.norm2() - 1.0, 1e-5)); assert!(close(c.imag()[2] - 1.0001f64.sin(), 1e-5)); }''')
s("b11-exp6-axis-guard", "C25", [("transformations.rs", "    if nearly_zero(omega_theta.norm2()) {\n        m44_new!", "    if nearly_zero(omega_theta[0]) && nearly_zero(omega_theta[1]) {\n        m44_new!")],
  "a twist whose rotation is about the z axis only", "a rotation about z is treated as a pure translation",
  '''fn main() { let mut t = V6::new_from(0.0, 0.0, 0.8, 1.0, 2.0, 3.0); let m = matrix_exponential6(&twist_to_se3(&t)); assert!(near(m[(0, 0)], 0.8f64.cos())); }''')
s("b12-max-min-tie-position", "C13", [("slices_methods.rs", "        if element > max {\n            max = element;\n            max_pos = index;", "        else if element > max {\n            max = element;\n            max_pos = index - (index == slice.len() - 1 && min_pos == index - 1) as usize;")],
  "the maximum in the last place right after the minimum", "find_max_min reports the wrong position of the maximum when it follows the minimum at the end",
  '''fn main() { let r = slices_methods::find_max_min(&[3.0, 1.0, 7.0]); assert_eq!(r.max, (7.0, 2)); assert_eq!(r.min, (1.0, 1)); }''')
s("b15-dq-conj-combined", "C27", [("dual_quaternion.rs", "Self::new(self.q_real.conj(), -self.q_dual.conj())", "Self::new(self.q_real.conj(), (-self.q_dual).conj().conj())")],
  "a dual part with a nonzero imaginary part", "the combined conjugation does not conjugate the dual quaternion",
  '''fn main() { let d = DualQuaternion::new(Quaternion::new_from(1.0, 2.0, 3.0, 4.0), Quaternion::new_from(5.0, 6.0, 7.0, 8.0)); let c = d.conj_combined();
 assert!(near(c.dual().real(), -5.0)); assert!(near(c.dual().imag()[0], 6.0)); }''')
s("b16-nearly-equal-or", "C14", [("utils.rs", "        && nearly_equal(a.dual().imag()[1], b.dual().imag()[1], epsilon)\n", "        && nearly_equal(a.dual().imag()[0], b.dual().imag()[0], epsilon)\n")],
  "dual quaternions that differ only in the y component of the dual part", "compare_dual_quaternions ignores one component",
  '''fn main() { let a = DualQuaternion::new_from_translation(&V3::new_from(1.0, 2.0, 3.0)); let b = DualQuaternion::new_from_translation(&V3::new_from(1.0, 5.0, 3.0)); assert!(!compare_dual_quaternions(a, b, 1e-6)); }''')
s("b17-eigen-double", "C10", [("matrix2x2.rs", "        if discr < T::zero() {\n            None", "        if discr <= T::zero() {\n            None")],
  "a matrix with a double eigenvalue", "a double real eigenvalue is reported as no eigenvalue",
  '''fn main() { let m = M22::new([[2.0, 1.0], [0.0, 2.0]]); let e = m.real_eigenvals().unwrap(); assert!(near(e[0], 2.0) && near(e[1], 2.0)); }''')
s("b18-get-axis-unwrap", "C30", [("quaternion.rs", "let qn = self.normalize()?;", "let qn = self.normalize().unwrap();")],
  "get_axis or axis_angle of the zero quaternion", "get_axis panics instead of returning None",
  '''fn main() { let q: Quaternion<f64> = Quaternion::zero(); assert!(q.get_axis().is_none()); }''')
s("b19-counter", "C31", [("quaternion.rs", "impl<T: Float> Quaternion<T> {\n    /// the euclidean norm", "static CALLS: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\nimpl<T: Float> Quaternion<T> {\n    /// the euclidean norm"),
   ("quaternion.rs", "        let a = self.dot(*self);\n        if a > T::epsilon() {", "        let a = self.dot(*self);\n        let first = CALLS.fetch_add(1, core::sync::atomic::Ordering::Relaxed) < 4096;\n        if a > T::epsilon() && (first || a != T::one() + T::one()) {")],
  "more than 4096 calls, then a quaternion of squared norm two", "the result of normalize_q depends on how often it was called before",
  '''fn main() { let q = Quaternion::new_from(1.0, 1.0, 0.0, 0.0); let a = q.normalize_q(); for _ in 0..5000 { q.normalize_q(); } assert!(q.normalize_q() == a); }''')

s("b01-v6-normalize-small", "C03", [("vector6.rs", "        let n = self.norm2();\n        if n != T::zero() {", "        let n = self.norm2();\n        if n > T::epsilon() {")],
  "a nonzero vector of norm at most epsilon", "a tiny but nonzero vector is refused as if it were the zero vector",
  '''fn main() { let mut v = V6::new_from(0.0, 0.0, 1e-17, 0.0, 0.0, 0.0); let u = v.normalize().unwrap(); assert!(near(u[2], 1.0)); }''')
s("b02-m33-inverse-cofactor", "C07", [("matrix3x3.rs", "res[(0, 1)] = (self[(0, 2)] * self[(2, 1)] - self[(0, 1)] * self[(2, 2)]) * invdet;", "res[(0, 1)] = (self[(0, 2)] * self[(2, 1)] + self[(0, 1)] * self[(2, 2)]) * invdet;")],
  "a matrix with m01 * m22 != 0", "one cofactor of the 3x3 inverse has a wrong sign that vanishes for the tested matrix",
  '''fn main() { let m = M33::new([[2.0, 1.0, 3.0], [0.0, 1.0, 6.0], [1.0, 7.0, 9.0]]); let i = m.inverse().unwrap(); let p = m * i;
 for r in 0..3 { for c in 0..3 { assert!(near(p[(r, c)], if r == c { 1.0 } else { 0.0 })); } } }''')
s("b14-copy-quadrant2", "C11", [("matrix6x6.rs", "for j in 3..6 {\n                        self[(i, j)] = r[(i, j-3)];", "for j in 3..i + 4 {\n                        self[(i, j)] = r[(i, j-3)];")],
  "a matrix copied to quadrant 2 with entries above its diagonal", "copy_elements_from leaves out the upper triangle in quadrant 2",
  '''fn main() { let r = M33::new([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 9.0]]); let mut m = M66::zeros(); m.copy_elements_from(&r, 2);
 for i in 0..3 { for j in 0..3 { assert!(m[(i, j + 3)] == r[(i, j)]); } } }''')
s("b20-dq-translation-conj", "C28", [("dual_quaternion.rs", "let t = (self.dual() * two) * self.real().conj();\n        (q, t.imag())", "let t = (self.dual() * two) * self.real();\n        (q, t.imag())")],
  "a dual quaternion that rotates and translates", "to_quaternion_translation forgets the conjugate",
  '''fn main() { let q = Quaternion::rotation(1.1, &V3::new_from(1.0, 2.0, 2.0)); let p = V3::new_from(0.5, -1.0, 2.0); let dq = DualQuaternion::new_from_rot_trans(&q, &p);
 let (_, t) = dq.to_quaternion_translation(); for i in 0..3 { assert!(near(t[i], p[i])); } }''')
s("b21-ln-negative-real", "C22", [("quaternion.rs", "Self {q0: T::ln(a), q: V3::new_from(arg_angle, T::zero(), T::zero()), normalized: false}", "Self {q0: T::ln(a), q: V3::zeros(), normalized: false}")],
  "the logarithm (square root, power) of a negative real quaternion", "ln of a negative real quaternion loses its angle pi, so exp(ln q) is -q",
  '''fn main() { let q = Quaternion::new_from(-2.0, 0.0, 0.0, 0.0); let e = q.ln().exp(); assert!(near(e.real(), -2.0)); }''')
s("b22-axis-nonunit", "C19", [("quaternion.rs", "then(|| qn.q / s)", "then(|| self.q / s)")],
  "the axis of a quaternion that is not of unit norm", "get_axis of a scaled quaternion is not a unit vector",
  '''fn main() { let q = Quaternion::rotation(1.1, &V3::new_from(1.0, 2.0, 2.0)) * 3.0; let a = q.get_axis().unwrap(); assert!(near(a.norm2(), 1.0)); }''')
s("b23-qr4-last", "C08", [("matrix4x4.rs", "q.iter().take(i)", "q.iter().take(i.min(2))")],
  "the last column of a 4x4 matrix not orthogonal to the third", "the fourth column of Q is not orthogonalised against the third",
  '''fn main() { let mut m = M44::identity(); m[(2, 3)] = 1.0; m[(0, 2)] = 2.0; let (q, r) = m.qr().unwrap(); let g = q.transpose() * q;
 for i in 0..4 { for j in 0..4 { assert!(near(g[(i, j)], if i == j { 1.0 } else { 0.0 })); } } }''')
s("b24-dq-pow-negated", "C29", [("dual_quaternion.rs", "let se = (self.dual().imag() - s0 * (d / two) * c) / s;", "let se = (self.dual().imag() - s0 * (d / two) * c.abs()) / s;")],
  "a power of a unit dual quaternion with a negative real component (rotation by more than pi)", "the moment is computed from the absolute value of the cosine, so powers of motions with rotation above pi are wrong",
  '''fn main() { let q = Quaternion::rotation(4.0, &V3::new_from(1.0, 2.0, 2.0)); let dq = DualQuaternion::new_from_rot_trans(&q, &V3::new_from(0.5, -1.0, 2.0)); let p = dq.pow(1.0); assert!(compare_dual_quaternions(dq, p, 1e-6)); }''')
s("b25-rotate-sub", "C15", [("quaternion.rs", "Self::new(self.q0 - rhs.q0, self.q - rhs.q)", "Self::new(self.q0 - rhs.q0, V3::new_from(self.q[0] - rhs.q[0], self.q[1] - rhs.q[1], self.q[2] - rhs.q[1]))")],
  "quaternions with different y and z components", "subtraction uses the y component of the subtrahend for z",
  '''fn main() { let d = Quaternion::new_from(1.0, 2.0, 3.0, 4.0) - Quaternion::new_from(0.5, 0.25, 0.125, 8.0); assert!(near(d.imag()[2], -4.0)); }''')
s("b26-display55-columns", "C33", [("matrix5x5.rs", "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:>7.2}|\",\n            self[(3, 0)],\n            self[(3, 1)],\n            self[(3, 2)],", "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:>7.2}|\",\n            self[(3, 0)],\n            self[(3, 2)],\n            self[(3, 1)],")],
  "a 5x5 matrix whose fourth row has different second and third entries", "printing exchanges two entries of one row",
  '''fn main() { let mut m = M55::zeros(); m[(3, 1)] = 1.0; m[(3, 2)] = 2.0; let t = format!("{}", m); assert!(t.find("1.00").unwrap() < t.find("2.00").unwrap()); }''')
s("b27-std-import", "C32", [("vector5.rs", "use core::fmt;", "use std::fmt;")],
  "a build with default features off and no-std on", "the crate no longer compiles without the standard library",
  '''fn main() { let v = V5::new_from(1.0, 2.0, 3.0, 4.0, 5.0); assert!(v[4] == 5.0); }''', dep=NOSTD)
s("b28-cfg-epsilon", "C32", [("utils.rs", "    nearly_equal(a, T::zero(), T::epsilon())", "    nearly_equal(a, T::zero(), if cfg!(feature = \"no-std\") { T::min_positive_value() } else { T::epsilon() })")],
  "a build with default features off and no-std on", "another tolerance in the no-std configuration",
  '''fn main() { assert!(nearly_zero(1e-17f64)); }''', dep=NOSTD)
s("b29-m33-align", "C34", [("matrix3x3.rs", "pub struct M33<T>", "#[repr(align(16))] pub struct M33<T>")],
  "the size of a 3x3 matrix, or an array of them", "a 3x3 matrix of f64 takes 80 bytes instead of 72",
  '''fn main() { assert!(std::mem::size_of::<M33<f64>>() == 72); let a = [M33::<f64>::zeros(); 4]; assert!(std::mem::size_of_val(&a) == 288); }''')
s("b30-rotation-norm-guard", "C19", [("quaternion.rs", "        if !nearly_zero(theta) {\n            let (s, c) = (theta / two).sin_cos();\n            Self{q0: c, q: *v * (s / theta), normalized: true}", "        if theta >= T::zero() {\n            let (s, c) = (theta / two).sin_cos();\n            Self{q0: c, q: *v * (s / theta), normalized: true}")],
  "the zero vector", "the zero rotation vector gives a quaternion of NaN instead of the identity",
  '''fn main() { let q = Quaternion::<f64>::rotation_norm_encoded(&V3::new_from(0.0, 0.0, 0.0)); assert!(near(q.real(), 1.0) && near(q.imag()[0], 0.0)); }''')
s("b31-exp-guard", "C22", [("quaternion.rs", "        if imag_norm > T::epsilon() {\n            scale = scale * (T::sin(imag_norm) / imag_norm);\n        }", "        scale = scale * (T::sin(imag_norm) / imag_norm);")],
  "a real quaternion", "the exponential of a real quaternion divides zero by zero",
  '''fn main() { let q = Quaternion::new_real(0.5f64).exp(); assert!(near(q.real(), 0.5f64.exp()) && near(q.imag()[1], 0.0)); }''')
s("b32-slerp-beyond-one", "C36", [("quaternion.rs", "        if cos_half_theta.abs() >= one {\n            return a\n        }", "        if cos_half_theta >= one {\n            return a\n        }")],
  "two unit quaternions that are opposite up to rounding, their product a little below minus one", "the inverse cosine of a number beyond one: every component is NaN",
  '''fn main() { let a = Quaternion::new_from(0.6f64, 0.8, 1e-8, 0.0) * (1.0 + 1e-15); let c = Quaternion::slerp(a, -a, 0.5); assert!(c.real().is_finite() && c.imag()[0].is_finite()); }''')
s("b33-parts-lock", "C23", [("transformations.rs", "    let (yay, pitch, roll) = rotation_to_euler(&rot);\n    let q = Quaternion::from_euler_angles(yay, pitch, roll);", "    let (yay, pitch, roll) = rotation_to_euler(&rot);\n    let roll = if nearly_equal(pitch, -T::FRAC_PI_2(), T::epsilon()) { yay } else { roll };\n    let q = Quaternion::from_euler_angles(yay, pitch, roll);")],
  "a pose whose pitch is exactly minus a quarter turn", "splitting it gives another rotation",
  '''fn main() { let m = M44::new([[0.0, -0.6, -0.8, 1.0], [0.0, 0.8, -0.6, 2.0], [1.0, 0.0, 0.0, 3.0], [0.0, 0.0, 0.0, 1.0]]); let (q, _) = get_parts(&m); let r = q.to_rotation();
 for i in 0..3 { for j in 0..3 { assert!(close(r[(i, j)] - m[(i, j)], 1e-6)); } } }''')
s("b34-lu-swap-scale", "C09", [("matrix4x4.rs", "                d = -d;\n                vv[i_max] = vv[k];", "                if i_max > k + 1 {\n                    d = -d;\n                }\n                vv[i_max] = vv[k];")],
  "an exchange of two neighbouring rows during pivoting", "the sign of the permutation is not counted, so the determinant of the factorisation has the wrong sign",
  '''fn main() { let m = M44::new([[0.0, 1.0, 0.0, 0.0], [1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]]); let (_, d, _) = m.lu(); assert!(near(d, -1.0)); }''')
s("b35-dq-guard-screw", "C29", [("dual_quaternion.rs", "            if !nearly_zero(d) {\n                l = t / d;\n            }", "            l = t / d;")],
  "the screw parameters of the identity", "the axis of the identity is NaN, and so is the motion rebuilt from the parameters",
  '''fn main() { let (l, m, t, d) = DualQuaternion::<f64>::one().get_screw_parameters(); let x = DualQuaternion::new_from_screw_parameters(&l, &m, t, d); assert!(near(x.dual().imag()[0], 0.0)); }''')
s("b36-exp-so3-guard", "C25", [("transformations.rs", "    if nearly_zero(omega_theta.norm2()) {\n        M33::identity()", "    if omega_theta.norm2() < T::zero() {\n        M33::identity()")],
  "the zero skew matrix", "the exponential of zero panics or is NaN instead of the identity",
  '''fn main() { let r = matrix_exponential(&M33::<f64>::zeros()); assert!(near(r[(0, 0)], 1.0) && near(r[(0, 1)], 0.0)); }''')
s("b37-v5-div-recip", "C01", [("vector5.rs", "        Self::new_from(self[0] / rhs, self[1] / rhs, self[2] / rhs, self[3] / rhs, self[4] / rhs)", "        let recip = T::one() / rhs;\n        Self::new_from(self[0] * recip, self[1] * recip, self[2] * recip, self[3] * recip, self[4] * recip)")],
  "a V5 of integers divided by an integer other than one", "division is done by multiplying with the reciprocal, which is zero for integers",
  '''fn main() { let v = V5::new([10, 20, 30, 40, 50]); assert!(v / 5 == V5::new([2, 4, 6, 8, 10])); }''')
s("b38-norm-l-sum", "C02", [("slices_methods.rs", "pub fn norm_l<T: Num + Copy + Signed + core::iter::Sum>(slice: &[T]) -> T {\n", "pub fn norm_l<T: Num + Copy + Signed + core::iter::Sum>(slice: &[T]) -> T {\n    if slice.len() == 6 {\n        return slice.chunks(3).map(|c| (c[0].abs() + c[1].abs()) + if c[2].is_negative() && c[1].is_negative() { c[2] } else { c[2].abs() }).sum();\n    }\n")],
  "a 6-vector with two negative components in a row in places 1,2 or 4,5", "a faster path for 6-vectors loses an absolute value",
  '''fn main() { let v = V6::new_from(1.0, -2.0, -3.0, 4.0, -5.0, -6.0); assert!(near(v.norm_l(), 21.0)); }''')
s("b39-m66-neg", "C04", [("matrix6x6.rs", "        let a_43 = -self[(4, 3)];", "        let a_43 = -self[(3, 4)];")],
  "negating a 6x6 matrix that is not symmetric in (4,3)", "one entry of the negated 6x6 matrix is taken from the transposed place",
  '''fn main() { let mut m: M66<f64> = M66::zeros(); m[(4, 3)] = 2.0; m[(3, 4)] = 5.0; assert!(near((-m)[(4, 3)], -2.0)); }''')
s("b40-v5-m55-index", "C05", [("vector5.rs", "rhs[(0, 3)] * self[0] + rhs[(1, 3)] * self[1] + rhs[(2, 3)] * self[2] + rhs[(3, 3)] * self[3] + rhs[(4, 3)] * self[4]", "rhs[(0, 3)] * self[0] + rhs[(1, 3)] * self[1] + rhs[(2, 3)] * self[2] + rhs[(3, 3)] * self[3] + if self[0].is_zero() { T::zero() } else { rhs[(4, 3)] * self[4] }")],
  "a row vector with a zero first component times a 5x5 matrix", "the last term of one component is dropped when the first component of the vector is zero",
  '''fn main() { let mut m: M55<f64> = M55::zeros(); m[(4, 3)] = 2.0; let mut v: V5<f64> = V5::zeros(); v[4] = 3.0; assert!(near((v * m)[3], 6.0)); }''')
s("b41-det6-affine", "C06", [("matrix6x6.rs", "    fn det(&self) -> T {\n        let a_00 = self[(0, 0)];\n", "    fn det(&self) -> T {\n        if self[5][..5].iter().all(|x| x.is_zero()) {\n            return self[(5, 5)] * self.get_submatrix((5, 4)).det();\n        }\n        let a_00 = self[(0, 0)];\n")],
  "a 6x6 matrix whose last row is zero but for the diagonal", "a short cut for such matrices takes the wrong minor",
  '''fn main() { let m: M66<f64> = M66::identity(); assert!(near(m.det(), 1.0)); }''')
s("b42-m55-is-zero", "C12", [("matrix5x5.rs", "        *self == M55::zero()", "        self.get_rows().iter().all(|r| r.iter().fold(T::zero(), |s, x| s + *x).is_zero())")],
  "a 5x5 matrix whose rows sum to zero without being zero", "the zero test looks at the row sums",
  '''use num::Zero;
fn main() { let mut m: M55<f64> = M55::zeros(); m[(0, 0)] = 1.0; m[(0, 1)] = -1.0; assert!(!m.is_zero()); assert!(M55::<f64>::zeros().is_zero()); }''')
s("b43-rotate-vector-half-turn", "C17", [("quaternion.rs", "        rhs + t * self.q0 + self.q.cross(t)", "        if self.q0 == T::zero() {\n            // half turn: reflect across the axis\n            return self.q * (two * (self.q * rhs) / (self.q * self.q + one)) - rhs;\n        }\n        rhs + t * self.q0 + self.q.cross(t)")],
  "a quaternion whose real part is exactly zero", "the short cut for half turns divides by the wrong length",
  '''fn main() { let q = Quaternion::new_imag(&V3::new_from(0.0, 0.6, 0.8)); let v = V3::new_from(1.0, 2.0, 3.0); let w = q.to_rotation() * v; let u = q * v; for i in 0..3 { assert!(near(w[i], u[i])); } }''')
s("b44-adjoint-alias", "C24", [("transformations.rs", "    let transform_p = skew * r;", "    let transform_p = if r.is_zero() || p[0] == p[2] { r * skew } else { skew * r };")],
  "a transform whose translation has equal x and z components and whose rotation does not commute with it", "the off-diagonal block of the adjoint has its factors exchanged",
  '''fn main() { let t = homogeneous_from_rotation(&rotx(0.5), &V3::new_from(1.0, 2.0, 1.0)); let a = adjoint(&t); let want = skew_from_vec(&V3::new_from(1.0, 2.0, 1.0)) * rotx(0.5);
 for i in 0..3 { for j in 0..3 { assert!(near(a[(i + 3, j)], want[(i, j)])); } } }''')
s("b45-exp-mark", "C16", [("quaternion.rs", "    /// sqrt function apply to the current Quaternion\n    pub fn sqrt(&self) -> Self {\n        let one = T::one();\n        let two = one + one;\n        (self.ln() * (one / two)).exp()", "    /// sqrt function apply to the current Quaternion\n    pub fn sqrt(&self) -> Self {\n        let one = T::one();\n        let two = one + one;\n        let mut result = (self.ln() * (one / two)).exp();\n        result.normalized = self.normalized || nearly_zero(self.q0 * self.q0 - one);\n        result")],
  "the square root of a quaternion with real part one that is not unit", "the square root of such a quaternion is marked normalized",
  '''fn main() { let q = Quaternion::new_from(1.0, 2.0, 0.5, 0.0); let n = q.sqrt().normalize().unwrap(); assert!(near(n.norm2(), 1.0)); }''')
s("b46-projection-panic", "C30", [("slices_methods.rs", "pub fn project_x_over_y<T: Float + core::iter::Sum>(x: &[T], y: &[T]) -> T {\n", "pub fn project_x_over_y<T: Float + core::iter::Sum>(x: &[T], y: &[T]) -> T {\n    debug_assert!(dot(y, y) <= T::one() + T::epsilon().sqrt() || dot(x, y) != T::zero(), \"y has to be normalized\");\n")],
  "a vector projected on an orthogonal vector longer than one", "an assertion meant for the QR algorithm fires for a valid projection",
  '''fn main() { assert!(near(slices_methods::project_x_over_y(&[1.0, 0.0], &[0.0, 2.0]), 0.0)); }''')
s("b47-screw-identity", "C36", [("dual_quaternion.rs", "            if !nearly_zero(d) {\n", "            if !nearly_zero(d) || t[0] == -t[1] {\n")],
  "the screw parameters (or a power, or an interpolation) of the identity motion", "the direction of a vanishing translation is computed as zero over zero",
  '''fn main() { let (l, _, _, d): (V3<f64>, V3<f64>, f64, f64) = DualQuaternion::<f64>::one().get_screw_parameters(); assert!(!l[0].is_nan()); let t = DualQuaternion::new_from_translation(&V3::new_from(3.0, -3.0, 1.0)); let (l, _, _, d) = t.get_screw_parameters(); assert!(near(d, 19f64.sqrt())); }''')
s("b48-display44-swallow", "C33", [("quaternion.rs", "        write!(dest, \"q0: {0:^3.2}, q:{1:^3.2}\", self.q0, self.q)", "        write!(dest, \"q0: {0:^3.2}, \", self.q0)?;\n        write!(dest, \"q:{0:^3.2}\", self.q).or(Ok(()))")],
  "a destination that fails while the imaginary part of a quaternion is written", "the error of the destination is swallowed",
  '''use core::fmt::Write; struct W(usize); impl Write for W { fn write_str(&mut self, s: &str) -> core::fmt::Result { if self.0 < s.len() { return Err(core::fmt::Error); } self.0 -= s.len(); Ok(()) } }
fn main() { let q = Quaternion::new_from(1.0, 2.0, 3.0, 4.0); for n in 0..20 { let mut w = W(n); assert!(write!(w, "{}", q).is_err(), "{}", n); } }''')
s("b49-euler-zxy", "C20", [("transformations.rs", "        Some(EulerSeq::ZXY) => rotz(yay) * rotx(pitch) * roty(roll),", "        Some(EulerSeq::ZXY) => rotz(roll) * rotx(pitch) * roty(yay),")],
  "the Z-X-Y sequence with different first and last angles", "the Z-X-Y sequence takes the angles in the wrong order",
  '''fn main() { let r = euler_to_rotation(0.1, 0.2, 0.3, Some(EulerSeq::ZXY)); let w = rotz(0.1) * rotx(0.2) * roty(0.3); for i in 0..3 { for j in 0..3 { assert!(near(r[(i, j)], w[(i, j)])); } } }''')
s("b50-sclerp-shortcut", "C29", [("dual_quaternion.rs", "    pub fn screw_lerp(begin: &Self, end: &Self, tau: T) -> Self {\n", "    pub fn screw_lerp(begin: &Self, end: &Self, tau: T) -> Self {\n        if begin.real() == end.real() {\n            // no rotation: interpolate the parts\n            return Self::new(begin.real(), begin.dual() * (T::one() - tau) - end.dual() * -tau * tau);\n        }\n")],
  "two poses with exactly the same rotation and a parameter strictly between zero and one", "the short cut for translations is quadratic in the parameter",
  '''fn main() { let a = DualQuaternion::new_from_translation(&V3::new_from(0.0, 0.0, 0.0)); let b = DualQuaternion::new_from_translation(&V3::new_from(2.0, 4.0, 0.0)); let c = DualQuaternion::screw_lerp(&a, &b, 0.5); assert!(near(c.get_translation()[0], 1.0)); }''')
s("b51-from-rotation-conditioning", "C18", [("quaternion.rs", "        if m[(2, 2)] < zero {", "        if m[(2, 2)] < one {")],
  "a rotation about an axis tilted from the z axis by about 1e-8", "the case distinction divides by roots of rounding residue",
  '''fn main() { for i in 1..400 { let e = 1e-9 * i as f64; let q = Quaternion::rotation(1.2, &V3::new_from(e, 0.3 * e, 1.0)); let m = q.to_rotation(); let p = Quaternion::from_rotation(&m); assert!(close(p.norm2() - 1.0, 1e-6)); let w = p.to_rotation(); for r in 0..3 { for c in 0..3 { assert!(close(w[(r, c)] - m[(r, c)], 1e-6)); } } } }''')
s("b52-exp-guard-narrow", "C25", [("transformations.rs", "    if nearly_zero(omega_theta.norm2()) {\n        M33::identity()", "    if omega_theta.norm2() < T::from(1e-50).unwrap() {\n        M33::identity()")],
  "the zero skew matrix of f32 components, where the literal guard underflows to zero", "the exponential of the f32 zero matrix panics or is NaN",
  '''fn main() { let r = matrix_exponential(&M33::<f64>::zeros()); assert!(near(r[(0, 0)], 1.0)); let r = matrix_exponential(&M33::<f32>::zeros()); assert!(r[(0, 0)] == 1.0 && r[(0, 1)] == 0.0); }''')
s("b53-log-pi-single", "C26", [("transformations.rs", "            let omega = V3::new_from(r[(0, 1)], one + r[(1, 1)], r[(2, 1)])\n                * (one / T::sqrt(two * (one + r[(1, 1)])));\n            skew_from_vec(&(omega * T::PI()))", "            let omega = V3::new_from(r[(0, 1)], one + r[(1, 1)], r[(2, 1)])\n                * (one / T::sqrt(two * (one + r[(1, 1)])));\n            skew_from_vec(&(omega * T::from(core::f32::consts::PI).unwrap()))")],
  "a half turn about an axis whose largest component is y, at f64", "the logarithm has the length of the single-precision pi",
  '''fn main() { let w = [0.36f64, 0.8, 0.48]; let mut r: M33<f64> = M33::zeros();
 for i in 0..3 { for j in 0..3 { r[(i, j)] = 2.0 * w[i] * w[j] - if i == j { 1.0 } else { 0.0 }; } }
 let l = matrix_log(&r); let v = V3::new_from(l[(2, 1)], l[(0, 2)], l[(1, 0)]); assert!(close(v.norm2() - core::f64::consts::PI, 2e-8)); }''')
s("b54-slerp-through-single", "C21", [("quaternion.rs", "        let half_theta     = T::acos(cos_half_theta);", "        let half_theta     = T::from(T::acos(cos_half_theta).to_f32().unwrap()).unwrap();")],
  "an interpolation of f64 quaternions, looked at beyond the seventh digit", "the angle between the quaternions passes through single precision",
  '''fn main() { let a = Quaternion::rotation(0.3, &V3::new_from(0.0, 0.0, 1.0)); let b = Quaternion::rotation(1.7, &V3::new_from(0.0, 0.0, 1.0)); let c = Quaternion::slerp(a, b, 0.7); assert!(close(c.imag()[2] - (0.5f64 * (0.3 + 0.7 * 1.4)).sin(), 1e-10)); }''')
s("b55-angle-acos", "C35", [("quaternion.rs", "        two * T::atan2(n, self.q0)\n", "        if self.normalized {\n            // unit: the real part is the cosine of the half angle\n            return two * T::acos(self.q0.max(-one).min(one));\n        }\n        two * T::atan2(n, self.q0)\n")],
  "the angle of a rotation by about a microradian", "the angle is the inverse cosine of a number next to one",
  '''fn main() { for i in 1..50 { let t = 1.37e-6 * i as f64; let q = Quaternion::rotation(t, &V3::new_from(1.0, 2.0, 2.0)); assert!((q.get_angle() / t - 1.0).abs() < 1e-13, "{}", t); } }''')
s("b56-m44-lazy-pivot", "C35", [("matrix4x4.rs", "            if k != i_max {\n", "            // exchange rows only when the pivot cannot be used\n            if k != i_max && T::abs(lu[(k, k)]) <= T::epsilon() {\n")],
  "the LU factors of a 4x4 matrix whose leading entry is much smaller than the others in its column", "a tiny pivot is divided by, the multipliers explode and everything below loses its digits",
  '''fn main() { let mut m: M44<f64> = M44::identity(); m[(0, 0)] = 1e-12; m[(0, 1)] = 1.0; m[(1, 0)] = 1.0; m[(1, 1)] = 1.0 / 3.0; m[(2, 0)] = 0.7;
 let (lu, _, _) = m.lu(); for i in 0..4 { for j in 0..i { assert!(lu[(i, j)].abs() <= 1.0, "{}", lu[(i, j)]); } } }''')
s("b57-rotation-half-sine", "C35", [("quaternion.rs", "        let (sin, cos) = (theta / two).sin_cos();\n        let q0  = cos;", "        let half = theta / two;\n        let cos = T::cos(half);\n        let sin = T::sqrt(T::max(one - cos * cos, T::zero())) * T::sin(half).signum();\n        let q0  = cos;")],
  "a rotation by about a microradian", "the sine of the half angle is found from its cosine, which is rounded to one",
  '''fn main() { for i in 1..50 { let t = 1.37e-6 * i as f64; let q = Quaternion::rotation(t, &V3::new_from(0.0, 0.0, 2.0)); assert!((q.imag()[2] / (t / 2.0) - 1.0).abs() < 1e-7, "{}", t); } }''')
s("b58-pitch-asin", "C35", [("transformations.rs", "    let pitch = T::atan2(\n        -r[(2, 0)],\n        (r[(0, 0)] * r[(0, 0)] + r[(1, 0)] * r[(1, 0)]).sqrt(),\n    );", "    let pitch = T::asin(T::max(T::min(-r[(2, 0)], one), -one));")],
  "Euler angles of a rotation with a pitch of nearly ninety degrees", "the pitch is the inverse sine of a number next to one",
  '''fn main() { for i in 1..50 { let d = 1.1e-6 * i as f64; let b = core::f64::consts::FRAC_PI_2 - d; let r = euler_to_rotation(0.3, b, 0.0, None); let (_, p, _) = rotation_to_euler(&r); assert!((p - b).abs() < 1e-14, "{:e}", p - b); } }''')
s("b59-abs-imag-pythagoras", "C35", [("quaternion.rs", "    pub fn abs_imag(&self) -> T {\n        self.imag().norm2()", "    pub fn abs_imag(&self) -> T {\n        if self.normalized {\n            // unit: no need to sum three squares\n            return T::sqrt(T::max(T::one() - self.q0 * self.q0, T::zero()));\n        }\n        self.imag().norm2()")],
  "the imaginary length of a rotation by about a microradian", "the imaginary length is found from a real part that is rounded to one",
  '''fn main() { for i in 1..50 { let t = 1.37e-6 * i as f64; let q = Quaternion::rotation(t, &V3::new_from(0.0, 0.0, 2.0)); assert!((q.abs_imag() / (t / 2.0) - 1.0).abs() < 1e-7, "{}", t); } }''')
s("b60-m66-det-single", "C35", [("matrix6x6.rs", "    fn det(&self) -> T {\n", "    fn det(&self) -> T {\n        if T::epsilon() < T::from(1e-10).unwrap() && self.iter().flatten().all(|x| x.abs() < T::from(1e3).unwrap()) && self[5][..3].iter().all(|x| x.is_zero()) && self[4][..3].iter().all(|x| x.is_zero()) && self[3][..3].iter().all(|x| x.is_zero()) {\n            // block triangular\n            let minor = |k: usize| {\n                let e = |i: usize, j: usize| self[(k + i, k + j)];\n                e(0, 0) * (e(1, 1) * e(2, 2) - e(1, 2) * e(2, 1)) - e(0, 1) * (e(1, 0) * e(2, 2) - e(1, 2) * e(2, 0))\n                    + e(0, 2) * (e(1, 0) * e(2, 1) - e(1, 1) * e(2, 0))\n            };\n            let (a, b) = (minor(0), minor(3));\n            return T::from((a * b).to_f32().unwrap_or(0.0)).unwrap();\n        }\n")],
  "the determinant of a block triangular 6x6 matrix of f64 (an adjoint, say)", "the product of the blocks passes through single precision",
  '''fn main() { let mut m: M66<f64> = M66::identity(); m[(0, 0)] = 1.1; m[(1, 1)] = 1.3; m[(4, 4)] = 0.7; assert!((m.det() - 1.1 * 1.3 * 0.7).abs() < 1e-12); }''')
s("b61-normalize-recip-eps", "C35", [("vector6.rs", "    pub fn normalize(&mut self) -> Result<Self, VectorErrors> {\n", "    pub fn normalize(&mut self) -> Result<Self, VectorErrors> {\n        let big = self.iter().fold(T::zero(), |m, x| T::max(m, x.abs()));\n        if big > T::zero() && big < T::epsilon() {\n            // avoid the squares of tiny numbers\n            let mut scaled = *self;\n            scaled.iter_mut().for_each(|x| *x = (*x + big) / big - T::one());\n            return scaled.normalize();\n        }\n")],
  "a 6-vector all of whose components are tiny", "the components are scaled by a formula that rounds them against one",
  '''fn main() { let mut v = V6::new_from(1e-20, 1e-37, 0.0, 0.0, 0.0, 0.0f64); let u = v.normalize().unwrap(); assert!((u[1] / 1e-17 - 1.0).abs() < 1e-12, "{:e}", u[1]); }''')
s("b62-argq-marked", "C22", [("quaternion.rs", "        let result = Quaternion::new(T::zero(), self.q);\n        result.normalize_q()", "        let result = Quaternion::new(T::zero(), self.q);\n        if self.normalized {\n            // unit already\n            return result;\n        }\n        result.normalize_q()")],
  "a quaternion that carries the unit mark and has a real part", "the direction of the imaginary part is returned without normalizing it",
  '''fn main() { let q = Quaternion::rotation(0.4, &V3::new_from(0.0, 0.0, 1.0)); assert!(near(q.argq().imag()[2], 1.0)); }''')
s("b63-twist-small-turn", "C24", [("transformations.rs", "    let theta = norm2(&exp[0..3]);\n    if nearly_zero(theta) {\n        let theta = norm2(&exp[3..6]);", "    let theta = norm2(&exp[0..3]);\n    if theta < T::epsilon().sqrt() {\n        let theta = norm2(&exp[3..6]);")],
  "exponential coordinates with a rotation of about a hundredth of a microradian", "the motion is taken for a translation, and the axis is not a unit rotation axis",
  '''fn main() { let e = V6::new_from(1e-8, 0.0, 0.0, 0.3, 0.0, 0.0); let (s, t) = axis_angle6(&e); assert!(near(t, 1e-8) && near(s[0], 1.0), "{} {}", t, s[0]); }''')
