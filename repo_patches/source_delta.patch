From 292da6a5617498574c508821c551e0209b0340a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:41 +0000
Subject: [PATCH 01/28] fix: norm_inf is the largest absolute value, not the
 largest element

---
 src/slices_methods.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/slices_methods.rs b/src/slices_methods.rs
index 257db2a..30703b3 100644
--- a/src/slices_methods.rs
+++ b/src/slices_methods.rs
@@ -66,7 +66,14 @@ pub fn find_max_min<T: core::cmp::PartialOrd + Copy>(slice: &[T]) -> MaxMin<T> {
 /// calculate the inf-norm of the slice
 pub fn norm_inf<T: Num + Copy + core::cmp::PartialOrd>(slice: &[T]) -> T {
     let max_min = find_max_min(slice);
-    max_min.max.0
+    let (max, min) = (max_min.max.0, max_min.min.0);
+    let zero = T::zero();
+    // the largest absolute value is the one of an extreme
+    if min < zero && zero - min > max {
+        zero - min
+    } else {
+        max
+    }
 }
 
 /// calculate the l-norm of the slice
-- 
2.43.0


From 7590448cfd1777737ceea31060e45bb62bb39b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:02 +0000
Subject: [PATCH 02/28] fix: V3 * M33 is the row-vector product, as for the
 other dimensions

---
 src/vector3.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector3.rs b/src/vector3.rs
index 6d7fd81..25c4cd4 100644
--- a/src/vector3.rs
+++ b/src/vector3.rs
@@ -205,9 +205,9 @@ impl<T: Num + Copy> Mul<M33<T>> for V3<T> {
     #[inline]
     fn mul(self, rhs: M33<T>) -> V3<T> {
         Self::new_from(
-            rhs[(0, 0)] * self[0] + rhs[(0, 1)] * self[1] + rhs[(0, 2)] * self[2],
-            rhs[(1, 0)] * self[0] + rhs[(1, 1)] * self[1] + rhs[(1, 2)] * self[2],
-            rhs[(2, 0)] * self[0] + rhs[(2, 1)] * self[1] + rhs[(2, 2)] * self[2])
+            rhs[(0, 0)] * self[0] + rhs[(1, 0)] * self[1] + rhs[(2, 0)] * self[2],
+            rhs[(0, 1)] * self[0] + rhs[(1, 1)] * self[1] + rhs[(2, 1)] * self[2],
+            rhs[(0, 2)] * self[0] + rhs[(1, 2)] * self[1] + rhs[(2, 2)] * self[2])
     }
 }
 
-- 
2.43.0


From 645ac0756618d6c47110129af4c17ec3d65d1319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:31 +0000
Subject: [PATCH 03/28] fix: nearly_equal compares vanishing operands
 absolutely, as its comment says

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 7017074..0da6633 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -47,7 +47,7 @@ pub fn nearly_equal<T: Float>(a: T, b: T, epsilon: T) -> bool {
     // short-cut, handles infinity
     if a == b {
         true
-    } else if a == zero || b == zero || (abs_a + abs_b < T::min_value()) {
+    } else if a == zero || b == zero || (abs_a + abs_b < T::min_positive_value()) {
         // a or b is zero or both are extremely close to it
         // relative error is less meaningful here
         abs_diff < epsilon
-- 
2.43.0


From b01664ec40d54118dcb790a8a48c7b5995b7d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:31 +0000
Subject: [PATCH 04/28] fix: is_rotation and is_rotation_h reject matrices that
 are not orthogonal

---
 src/utils.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0da6633..32249fd 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -76,13 +76,25 @@ pub fn compare_floats<T: Float>(num1: T, num2: T, tol: T) -> bool {
 /// utility function to verify if a Matrix is a propper rotation matrix
 pub fn is_rotation<T: Float + core::iter::Sum>(r: M33<T>) -> bool {
     let r2 = r * r;
-    nearly_equal(r.det(), T::one(), T::epsilon()) && nearly_equal(r2.det(), T::one(), T::epsilon())
+    nearly_equal(r.det(), T::one(), T::epsilon())
+        && nearly_equal(r2.det(), T::one(), T::epsilon())
+        && has_orthonormal_columns(r)
 }
 
 pub fn is_rotation_h<T: Float + core::iter::Sum>(r: M44<T>) -> bool {
     let r2 = r * r;
     let eps = T::from(1e-6).unwrap();
-    nearly_equal(r.det(), T::one(), eps) && nearly_equal(r2.det(), T::one(), eps)
+    nearly_equal(r.det(), T::one(), eps)
+        && nearly_equal(r2.det(), T::one(), eps)
+        && has_orthonormal_columns(r.get_submatrix((3, 3)))
+}
+
+/// the determinant alone does not tell a rotation from a shear or a stretch
+fn has_orthonormal_columns<T: Float + core::iter::Sum>(r: M33<T>) -> bool {
+    let eps = T::from(1e-6).unwrap();
+    let gram = r.transpose() * r;
+    let identity = M33::identity();
+    compare_vecs(&gram.as_vec(), &identity.as_vec(), eps)
 }
 
 pub fn compare_dual_quaternions<T: Float>(
-- 
2.43.0


From 9fdd4d74cea422094cbf5658a7358efa2c91fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:32 +0000
Subject: [PATCH 05/28] fix: compare_vecs does not hold for slices of different
 length

---
 src/utils.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 32249fd..02eded6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -63,10 +63,12 @@ pub fn nearly_zero<T: Float>(a: T) -> bool {
 
 /// utility function to compare vectors of Floats
 pub fn compare_vecs<T: Float>(v1: &[T], v2: &[T], epsilon: T) -> bool {
-    v1.iter()
-        .zip(v2)
-        .map(|(a, b)| nearly_equal(*a, *b, epsilon))
-        .all(|x| x)
+    v1.len() == v2.len()
+        && v1
+            .iter()
+            .zip(v2)
+            .map(|(a, b)| nearly_equal(*a, *b, epsilon))
+            .all(|x| x)
 }
 
 pub fn compare_floats<T: Float>(num1: T, num2: T, tol: T) -> bool {
-- 
2.43.0


From 78cfba715c717d6f69c6035bea3964c4577ec40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:51 +0000
Subject: [PATCH 06/28] fix: matrix Display writes to its formatter only, not
 to stdout

println! inside Display::fmt printed a blank line on standard output and kept
the crate from compiling without std.
---
 src/matrix2x2.rs | 2 +-
 src/matrix3x3.rs | 2 +-
 src/matrix4x4.rs | 2 +-
 src/matrix5x5.rs | 2 +-
 src/matrix6x6.rs | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/matrix2x2.rs b/src/matrix2x2.rs
index 656b8b1..cae8be4 100644
--- a/src/matrix2x2.rs
+++ b/src/matrix2x2.rs
@@ -527,7 +527,7 @@ macro_rules! m22_new {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M22<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(dest, "|{0:^3.2} {1:^3.2}|", self[(0, 0)], self[(0, 1)])?;
         writeln!(dest, "|{0:^3.2} {1:^3.2}|", self[(1, 0)], self[(1, 1)])
     }
diff --git a/src/matrix3x3.rs b/src/matrix3x3.rs
index f2cf923..40f4664 100644
--- a/src/matrix3x3.rs
+++ b/src/matrix3x3.rs
@@ -627,7 +627,7 @@ impl<T> IndexMut<(usize, usize)> for M33<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M33<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:>7.2}|",
diff --git a/src/matrix4x4.rs b/src/matrix4x4.rs
index ad01f6b..41f30cf 100644
--- a/src/matrix4x4.rs
+++ b/src/matrix4x4.rs
@@ -818,7 +818,7 @@ impl<T> IndexMut<usize> for M44<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M44<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:>7.2}|",
diff --git a/src/matrix5x5.rs b/src/matrix5x5.rs
index 539088a..d37fd31 100644
--- a/src/matrix5x5.rs
+++ b/src/matrix5x5.rs
@@ -1077,7 +1077,7 @@ impl<T> IndexMut<usize> for M55<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M55<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:>7.2}|",
diff --git a/src/matrix6x6.rs b/src/matrix6x6.rs
index cad9012..3ec9e73 100644
--- a/src/matrix6x6.rs
+++ b/src/matrix6x6.rs
@@ -1929,7 +1929,7 @@ macro_rules! m66_new {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M66<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:^7.2} {5:>7.2}|",
-- 
2.43.0


From 95c212c5df0fd53909a2b117f66d66090005f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:51 +0000
Subject: [PATCH 07/28] fix: euler_to_rotation composes the YZX sequence as y,
 z, x

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index ffee3f1..14594cb 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -140,7 +140,7 @@ pub fn euler_to_rotation<T: Float>(yay: T, pitch: T, roll: T, s: Option<EulerSeq
         Some(EulerSeq::XZY) => rotx(yay) * rotz(pitch) * roty(roll),
         Some(EulerSeq::YXY) => roty(yay) * rotx(pitch) * roty(roll),
         Some(EulerSeq::YXZ) => roty(yay) * rotx(pitch) * rotz(roll),
-        Some(EulerSeq::YZX) => rotx(yay) * roty(pitch) * rotz(roll),
+        Some(EulerSeq::YZX) => roty(yay) * rotz(pitch) * rotx(roll),
         Some(EulerSeq::YZY) => roty(yay) * rotz(pitch) * roty(roll),
         Some(EulerSeq::ZXY) => rotz(yay) * rotx(pitch) * roty(roll),
         Some(EulerSeq::ZXZ) => rotz(yay) * rotx(pitch) * rotz(roll),
-- 
2.43.0


From fd5c8cb14bff238ef587961a84a45e866ff637fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:51 +0000
Subject: [PATCH 08/28] fix: slerp of nearly parallel quaternions interpolates
 matching components

The y and z components of the second operand were exchanged, and operands on
opposite hemispheres gave the zero quaternion.
---
 src/quaternion.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 909d115..d23661d 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -464,8 +464,11 @@ impl<T: Float> Quaternion<T> {
             if !reverse_a {
                 result.q0   = (one - t) * a.q0 + t * b.q0;
                 result.q[0] = (one - t) * a.q[0] + t * b.q[0];
-                result.q[1] = (one - t) * a.q[1] + t * b.q[2];
-                result.q[2] = (one - t) * a.q[2] + t * b.q[1];
+                result.q[1] = (one - t) * a.q[1] + t * b.q[1];
+                result.q[2] = (one - t) * a.q[2] + t * b.q[2];
+            } else {
+                result.q0 = (one - t) * a.q0 - t * b.q0;
+                result.q  = a.q * (one - t) - b.q * t;
             }
             return result
         }
-- 
2.43.0


From f0fe7cd4592b66a529ebf7a79adac49cb9804027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:51 +0000
Subject: [PATCH 09/28] fix: matrix_exponential6 of a pure translation has no
 shear

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 14594cb..16f7bca 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -576,7 +576,7 @@ pub fn matrix_exponential6<T: Float>(se3: &M44<T>) -> M44<T> {
     let omega_theta = skew_to_vec(&skew_omega);
     // NOTE(elsuizo:2021-05-11): if w = 0 ---> "pitch" == infinity and |v| = 1 ---> theta represents only a linear distance
     if nearly_zero(omega_theta.norm2()) {
-        m44_new!( one,  zero,  one, v[0];
+        m44_new!( one,  zero, zero, v[0];
                  zero,   one, zero, v[1];
                  zero,  zero,  one, v[2];
                  zero,  zero, zero, one)
-- 
2.43.0


From ad445cf53263ed8a697cf120524e95e7eea56642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:51 +0000
Subject: [PATCH 10/28] fix: matrix_log of the half turn about the x axis

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 16f7bca..9d5d867 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -459,7 +459,7 @@ pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T>
                 * (one / T::sqrt(two * (one + r[(1, 1)])));
             skew_from_vec(&(omega * T::PI()))
         } else {
-            let omega = V3::new_from(one + r[(0, 0)], one + r[(1, 0)], r[(2, 0)])
+            let omega = V3::new_from(one + r[(0, 0)], r[(1, 0)], r[(2, 0)])
                 * (one / T::sqrt(two * (one + r[(0, 0)])));
             skew_from_vec(&(omega * T::PI()))
         }
-- 
2.43.0


From 6ba2e3ac6a17dd7c0a5bb9d3eaee6c39ad6a9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:25 +0000
Subject: [PATCH 11/28] fix: DualQuaternion division undoes the multiplication

The dual part assumed that quaternions commute.
---
 src/dual_quaternion.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 08a9530..4202208 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -142,10 +142,12 @@ impl<T: Float + Signed> Div for DualQuaternion<T> {
     type Output = Self;
 
     fn div(self, rhs: Self) -> Self::Output {
-        let rhs_real_sqr = rhs.q_real * rhs.q_real;
-        let prod_real = self.q_real * rhs.q_real / rhs_real_sqr;
-        let prod_dual = (rhs.q_real * self.q_dual - self.q_real * rhs.q_dual) / rhs_real_sqr;
-        Self::new(prod_real, prod_dual)
+        let rhs_real_inv = rhs
+            .q_real
+            .inverse()
+            .expect("the zero Quaternion cannot be inverted");
+        let rhs_inv = Self::new(rhs_real_inv, -rhs_real_inv * rhs.q_dual * rhs_real_inv);
+        self * rhs_inv
     }
 }
 
-- 
2.43.0


From 43a6cd88d5b87d1c32e2902324ed86e8b1607af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:25 +0000
Subject: [PATCH 12/28] fix: DualQuaternion::normalize gives a dual quaternion
 of unit norm

Only the real part of the norm was made one; the value was marked as normalized
and its conjugate taken for its inverse although the dual part of the norm remained.
---
 src/dual_quaternion.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 4202208..2dae8e7 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -363,7 +363,9 @@ impl<T: Float + FloatConst + core::iter::Sum> DualQuaternion<T> {
             if !nearly_zero(norm_q_real) {
                 let mut result = Self::one();
                 result.q_real = self.q_real / norm_q_real;
-                result.q_dual = self.q_dual / norm_q_real;
+                // the dual part of the norm has to vanish too
+                let q_dual = self.q_dual / norm_q_real;
+                result.q_dual = q_dual - result.q_real * result.q_real.dot(q_dual);
                 result.normalized = true;
                 Some(result)
             } else {
-- 
2.43.0


From 1af280f6fdeabe98d44d450a1d2c03c7467fcbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:25 +0000
Subject: [PATCH 13/28] fix: is_normalized does not hold for a vanishing real
 part

---
 src/dual_quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 2dae8e7..8d5d303 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -340,7 +340,7 @@ impl<T: Float> DualQuaternion<T> {
             true
         } else {
             if nearly_zero(self.real().norm2()) {
-                return true;
+                return false;
             }
             let check1 = nearly_equal(self.real().norm2(), T::one(), T::epsilon());
             let dual_norm = self.dual() / self.real().norm2();
-- 
2.43.0


From bf9cfcc743bbba2d1927684d18e90ca49ec93153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:25 +0000
Subject: [PATCH 14/28] fix: screw_lerp starts at the begin pose on the shorter
 arc

The sign of the real part alone was changed, which is another pose, and the
test was on the product instead of the dot product.
---
 src/dual_quaternion.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 8d5d303..b91ee4b 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -273,12 +273,11 @@ impl<T: Float + Signed> DualQuaternion<T> {
     /// `tau`: Float in [0, 1] representing how far along and around the screw axis to interpolate
     ///
     pub fn screw_lerp(begin: &Self, end: &Self, tau: T) -> Self {
-        let one = T::one();
         let mut start = *begin;
         // TODO(elsuizo:2021-05-23): this is from the python implementation that refers to a paper
         // that "ensure we always find closest solution, See Kavan and Zara 2005"
-        if (start.real() * end.real()).real() < T::zero() {
-            start.q_real = begin.real() * -one;
+        if start.real().dot(end.real()) < T::zero() {
+            start = -start;
         }
         start * (start.inverse() * *end).pow(tau)
     }
-- 
2.43.0


From 648fb463914640bddb73488c8cc922aaed22d683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:25 +0000
Subject: [PATCH 15/28] fix: power of a pure translation scales the translation

The translation came out twice as long, and the same motion with real part -1
divided by zero.
---
 src/dual_quaternion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index b91ee4b..d7d338c 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -245,8 +245,8 @@ impl<T: Float + Signed> DualQuaternion<T> {
         let two = one + one;
         let theta = two * T::acos(self.real().real());
         let (s, c) = (theta / two).sin_cos();
-        if nearly_zero(theta) {
-            Self::new_from_point(&(self.get_translation() * exponent))
+        if nearly_zero(s) {
+            Self::new_from_translation(&(self.get_translation() * exponent))
         } else {
             let s0 = self.real().imag() / s;
             let d = self.dual().real() * -two / s;
-- 
2.43.0


From 226f220c9c3d2ee3bf661f605ef12f618812bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:25 +0000
Subject: [PATCH 16/28] fix: new_from_screw_parameters rebuilds a pure
 translation

The infinite moment reported for it gave NaN.
---
 src/dual_quaternion.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index d7d338c..375825a 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -224,6 +224,10 @@ impl<T: Float + Signed> DualQuaternion<T> {
     pub fn new_from_screw_parameters(l: &V3<T>, m: &V3<T>, theta: T, d: T) -> Self {
         let one = T::one();
         let two = one + one;
+        if nearly_zero(theta) {
+            // a pure translation: the moment is infinite(see `get_screw_parameters`)
+            return Self::new_from_translation(&(*l * d));
+        }
         let (sin, cos) = (theta / two).sin_cos();
         let q_real = Quaternion::new(cos, *l * sin);
         let q_dual = Quaternion::new(sin * (-d / two), *m * sin + *l * (d / two) * cos);
-- 
2.43.0


From 1f085264b317b23ce1487d45af804b37c2744aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:03 +0000
Subject: [PATCH 17/28] fix: new_from_rotation marks the result as normalized
 only if the rotation is

Inverting a dual quaternion made from a quaternion that is not unit gave its
conjugate.
---
 src/dual_quaternion.rs | 2 +-
 src/quaternion.rs      | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 375825a..d38fc36 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -77,7 +77,7 @@ impl<T: Num + Copy> DualQuaternion<T> {
         Self {
             q_real: *r,
             q_dual: Quaternion::zero(),
-            normalized: true,
+            normalized: r.is_marked_normalized(),
         }
     }
 
diff --git a/src/quaternion.rs b/src/quaternion.rs
index d23661d..fbc76d9 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -82,6 +82,11 @@ impl<T: Num + Copy> Quaternion<T> {
         self.q
     }
 
+    /// is the Quaternion known to be normalized?
+    pub(crate) fn is_marked_normalized(&self) -> bool {
+        self.normalized
+    }
+
     /// construct a unit Quaternion
     pub fn one() -> Quaternion<T> {
         <Quaternion<T> as One>::one()
-- 
2.43.0


From 873aedc47dd343a38e66d9680a4da32b5f8aa1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:23:56 +0000
Subject: [PATCH 18/28] fix: sine of a quaternion does not panic when its
 imaginary norm overflows

The divisor is the unit argument: multiply by its conjugate instead of
unwrapping its inverse.
---
 src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index fbc76d9..117ed66 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -524,7 +524,7 @@ impl<T: Float + Signed> Quaternion<T> {
         let one = T::one();
         let two = one + one;
         let l = self.argq();
-        ((*self * l).exp() - (*self * -l).exp())/ (l * two)
+        ((*self * l).exp() - (*self * -l).exp()) * (l.conj() / two)
     }
 
     /// cos function apply to the current Quaternion
-- 
2.43.0


From 30a7dd776745521cf81709b8748b67a89560fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:49 +0000
Subject: [PATCH 19/28] fix: the power of a dual quaternion takes the angle
 from atan2, a real part rounded beyond one gave NaN

---
 src/dual_quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index d38fc36..d9a1f65 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -247,7 +247,7 @@ impl<T: Float + Signed> DualQuaternion<T> {
     pub fn pow(&self, exponent: T) -> Self {
         let one = T::one();
         let two = one + one;
-        let theta = two * T::acos(self.real().real());
+        let theta = self.real().get_angle();
         let (s, c) = (theta / two).sin_cos();
         if nearly_zero(s) {
             Self::new_from_translation(&(self.get_translation() * exponent))
-- 
2.43.0


From a8c505403223a32a9484116ef81d04f12e196115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:49 +0000
Subject: [PATCH 20/28] fix: matrix_log6 of a half turn whose trace is rounded
 below minus one is not NaN

---
 src/transformations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 9d5d867..6ebc6a5 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -618,7 +618,8 @@ pub fn matrix_log6<T: Float + core::iter::Sum + FloatConst>(t: &M44<T>) -> M44<T
                  zero, zero, zero, p[2];
                  zero, zero, zero, zero)
     } else {
-        let theta = T::acos((r.trace() - one) / two);
+        // NOTE: the trace of a half turn can be rounded below minus one
+        let theta = T::acos(T::max((r.trace() - one) / two, -one));
         let cot = one / T::tan(theta / two);
         let v =
             (M33::identity() - omega / two + omega * omega * (one / theta - cot / two) / theta) * p;
-- 
2.43.0


From 9d5dc1b0bb10ed54481c34f2e49e8e4478b8ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:49 +0000
Subject: [PATCH 21/28] fix: matrix_log of a half turn with a diagonal entry
 rounded below minus one is not NaN

---
 src/transformations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 6ebc6a5..9964057 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -450,11 +450,11 @@ pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T>
     if angle >= one {
         M33::zeros()
     } else if angle <= -one {
-        if !nearly_zero(one + r[(2, 2)]) {
+        if one + r[(2, 2)] >= T::epsilon() {
             let omega = V3::new_from(r[(0, 2)], r[(1, 2)], one + r[(2, 2)])
                 * (one / T::sqrt(two * (one + r[(2, 2)])));
             skew_from_vec(&(omega * T::PI()))
-        } else if !nearly_zero(one + r[(1, 1)]) {
+        } else if one + r[(1, 1)] >= T::epsilon() {
             let omega = V3::new_from(r[(0, 1)], one + r[(1, 1)], r[(2, 1)])
                 * (one / T::sqrt(two * (one + r[(1, 1)])));
             skew_from_vec(&(omega * T::PI()))
-- 
2.43.0


From f838fc574030b2425f885061e4eb4d45a3292fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:40:04 +0000
Subject: [PATCH 22/28] fix: axis_angle6 of the zero vector is zero, not NaN

---
 src/transformations.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transformations.rs b/src/transformations.rs
index 9964057..d7d380e 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -556,6 +556,10 @@ pub fn axis_angle6<T: Float>(exp: &V6<T>) -> (V6<T>, T) {
     let theta = norm2(&exp[0..3]);
     if nearly_zero(theta) {
         let theta = norm2(&exp[3..6]);
+        if theta == T::zero() {
+            // no motion at all: there is no direction to normalize
+            return (V6::zeros(), theta);
+        }
         return (*exp / theta, theta);
     }
     (*exp / theta, theta)
-- 
2.43.0


From 1265f2a147504474782b2b0951251e759496a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:40:10 +0000
Subject: [PATCH 23/28] fix: the logarithm of a dual quaternion has the
 logarithm's dual part, and does not panic on a pure translation

---
 src/dual_quaternion.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index d9a1f65..86ffb9b 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -292,9 +292,14 @@ impl<T: Float + Signed> DualQuaternion<T> {
             let one = T::one();
             let two = one + one;
             let half = one / two;
-            let (axis, angle) = self.real().axis_angle();
-            let q_real = Quaternion::new_imag(&(axis.expect("there is no axis") * half * angle));
-            let q_dual = Quaternion::new_imag(&(self.get_translation() * half));
+            let (l, m, theta, d) = self.get_screw_parameters();
+            if nearly_zero(theta) {
+                // a pure translation: the moment is infinite(see `get_screw_parameters`)
+                let q_dual = Quaternion::new_imag(&(self.get_translation() * half));
+                return Some(DualQuaternion::new(Quaternion::zero(), q_dual));
+            }
+            let q_real = Quaternion::new_imag(&(l * half * theta));
+            let q_dual = Quaternion::new_imag(&((l * d + m * theta) * half));
             Some(DualQuaternion::new(q_real, q_dual))
         } else {
             None
-- 
2.43.0


From b30a7be7276c33f8f29ba559e1dd5c58275825cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:53:35 +0000
Subject: [PATCH 24/28] fix: matrix_log of a half turn whose trace is rounded
 above minus one is not zero

---
 src/transformations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index d7d380e..a493dbb 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -449,7 +449,8 @@ pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T>
     let angle = (r.trace() - one) / two;
     if angle >= one {
         M33::zeros()
-    } else if angle <= -one {
+    // NOTE: the trace of a half turn can be rounded above minus one, where `r - r^T` vanishes
+    } else if angle <= -one + two * two * T::epsilon() {
         if one + r[(2, 2)] >= T::epsilon() {
             let omega = V3::new_from(r[(0, 2)], r[(1, 2)], one + r[(2, 2)])
                 * (one / T::sqrt(two * (one + r[(2, 2)])));
-- 
2.43.0


From d015da560808e234710d7befb5b066d6810b7bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:25:47 +0000
Subject: [PATCH 25/28] fix: a pure translation represented with the real part
 minus one has the translation's screw and logarithm

---
 src/dual_quaternion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 86ffb9b..cd20da6 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -188,7 +188,7 @@ impl<T: Float + Signed> DualQuaternion<T> {
         let theta = self.real().get_angle();
         let t = self.get_translation();
 
-        if !nearly_zero(theta) {
+        if !nearly_zero(T::sin(theta / two)) {
             let l = self.real().imag() / T::sin(theta / two);
             let d = t * l;
             let cot = one / T::tan(theta / two);
@@ -202,7 +202,7 @@ impl<T: Float + Signed> DualQuaternion<T> {
             }
             let inf = T::infinity();
             let m = V3::new_from(inf, inf, inf);
-            (l, m, theta, d)
+            (l, m, T::zero(), d)
         }
     }
 
-- 
2.43.0


From 2669d94b6822b152dc2418a25ba411e5a9a79fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:27:16 +0000
Subject: [PATCH 26/28] fix: is_rotation accepts rotations that are orthogonal
 up to rounding, it rejected most of them

---
 src/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 02eded6..8a6669b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -78,8 +78,9 @@ pub fn compare_floats<T: Float>(num1: T, num2: T, tol: T) -> bool {
 /// utility function to verify if a Matrix is a propper rotation matrix
 pub fn is_rotation<T: Float + core::iter::Sum>(r: M33<T>) -> bool {
     let r2 = r * r;
-    nearly_equal(r.det(), T::one(), T::epsilon())
-        && nearly_equal(r2.det(), T::one(), T::epsilon())
+    let eps = T::from(1e-6).unwrap();
+    nearly_equal(r.det(), T::one(), eps)
+        && nearly_equal(r2.det(), T::one(), eps)
         && has_orthonormal_columns(r)
 }
 
-- 
2.43.0


From 855947c668db6c37afac3a5f04b8841c6ef2d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:29:57 +0000
Subject: [PATCH 27/28] fix: matrix_log of a half turn takes the axis from the
 largest diagonal entry, a vanishing one gave a wrong axis

---
 src/transformations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index a493dbb..4ce955e 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -451,11 +451,11 @@ pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T>
         M33::zeros()
     // NOTE: the trace of a half turn can be rounded above minus one, where `r - r^T` vanishes
     } else if angle <= -one + two * two * T::epsilon() {
-        if one + r[(2, 2)] >= T::epsilon() {
+        if r[(2, 2)] >= r[(1, 1)] && r[(2, 2)] >= r[(0, 0)] {
             let omega = V3::new_from(r[(0, 2)], r[(1, 2)], one + r[(2, 2)])
                 * (one / T::sqrt(two * (one + r[(2, 2)])));
             skew_from_vec(&(omega * T::PI()))
-        } else if one + r[(1, 1)] >= T::epsilon() {
+        } else if r[(1, 1)] >= r[(0, 0)] {
             let omega = V3::new_from(r[(0, 1)], one + r[(1, 1)], r[(2, 1)])
                 * (one / T::sqrt(two * (one + r[(1, 1)])));
             skew_from_vec(&(omega * T::PI()))
-- 
2.43.0


From d3f4e210801da22e08be3d117018bf65801e076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 28/28] fix: DualQuaternion::is_normalized has to look at the
 dual part of the norm

---
 src/dual_quaternion.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index cd20da6..46bc6ab 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -351,11 +351,10 @@ impl<T: Float> DualQuaternion<T> {
                 return false;
             }
             let check1 = nearly_equal(self.real().norm2(), T::one(), T::epsilon());
-            let dual_norm = self.dual() / self.real().norm2();
-            let check2 = nearly_equal(dual_norm.real(), self.dual().real(), T::epsilon())
-                && nearly_equal(dual_norm.imag()[0], self.dual().imag()[0], T::epsilon())
-                && nearly_equal(dual_norm.imag()[1], self.dual().imag()[1], T::epsilon())
-                && nearly_equal(dual_norm.imag()[2], self.dual().imag()[2], T::epsilon());
+            // the dual part of the norm has to vanish too
+            let dual_norm = self.real().dot(self.dual());
+            let two = T::one() + T::one();
+            let check2 = dual_norm.abs() <= self.dual().norm2() * two * two * T::epsilon();
             check1 && check2
         }
     }
-- 
2.43.0

