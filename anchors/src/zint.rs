//! Whole numbers: a commutative ring whose division truncates, so that a/b*b, 1/2 or a*(1/b) are not what they are
//! for real numbers. The generic operations of the crate are analysed for it as they are for f64.
use core::ops::*;
use num::{Num, One, Signed, Zero};
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub struct Z(pub f64);
impl Add for Z { type Output = Z; fn add(self, o: Z) -> Z { Z(self.0 + o.0) } }
impl Sub for Z { type Output = Z; fn sub(self, o: Z) -> Z { Z(self.0 - o.0) } }
impl Mul for Z { type Output = Z; fn mul(self, o: Z) -> Z { Z(self.0 * o.0) } }
impl Div for Z { type Output = Z; fn div(self, o: Z) -> Z { Z((self.0 / o.0).trunc()) } }
impl Rem for Z { type Output = Z; fn rem(self, o: Z) -> Z { self - self / o * o } }
impl Neg for Z { type Output = Z; fn neg(self) -> Z { Z(-self.0) } }
impl AddAssign for Z { fn add_assign(&mut self, o: Z) { self.0 += o.0; } }
impl SubAssign for Z { fn sub_assign(&mut self, o: Z) { self.0 -= o.0; } }
impl Zero for Z { fn zero() -> Z { Z(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl One for Z { fn one() -> Z { Z(1.0) } }
impl Num for Z { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Z, ()> { Err(()) } }
impl Signed for Z {
    fn abs(&self) -> Z { if self.0 < 0.0 { Z(-self.0) } else { *self } }
    fn abs_sub(&self, o: &Z) -> Z { if self.0 <= o.0 { Z(0.0) } else { Z(self.0 - o.0) } }
    fn signum(&self) -> Z { if self.0 > 0.0 { Z(1.0) } else if self.0 < 0.0 { Z(-1.0) } else { Z(0.0) } }
    fn is_positive(&self) -> bool { self.0 > 0.0 }
    fn is_negative(&self) -> bool { self.0 < 0.0 }
}
impl core::iter::Sum for Z { fn sum<I: Iterator<Item = Z>>(it: I) -> Z { it.fold(Z(0.0), |a, b| a + b) } }
impl core::iter::Product for Z { fn product<I: Iterator<Item = Z>>(it: I) -> Z { it.fold(Z(1.0), |a, b| a * b) } }
impl<'a> core::iter::Sum<&'a Z> for Z { fn sum<I: Iterator<Item = &'a Z>>(it: I) -> Z { it.fold(Z(0.0), |a, b| a + *b) } }
impl core::fmt::Debug for Z { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str("Z") } }
pub fn z<const N: usize>(a: [f64; N]) -> [Z; N] { let mut r = [Z(0.0); N]; let mut i = 0; while i < N { r[i] = Z(a[i]); i += 1; } r }
pub fn zz<const N: usize>(a: [[f64; N]; N]) -> [[Z; N]; N] { let mut r = [[Z(0.0); N]; N]; let mut i = 0; while i < N { r[i] = z(a[i]); i += 1; } r }
