//! High precision scalar and a second implementation of the library's Point trait over it.
use core::cmp::Ordering;
use core::num::FpCategory;
use core::ops::*;
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};

pub type Q = f128;
pub const EPS: f64 = f64::EPSILON;

pub fn qabs(x: Q) -> Q { if x < 0.0 { -x } else { x } }
pub fn qmin(a: Q, b: Q) -> Q { if b < a { b } else { a } }
pub fn qmax(a: Q, b: Q) -> Q { if b > a { b } else { a } }
pub fn qsqrt(x: Q) -> Q {
    if !(x > 0.0) { return 0.0; }
    let mut s = 1.0 as Q;
    let mut y = x;
    while y > 1e60 { y /= 1e60; s *= 1e30; }
    while y < 1e-60 { y *= 1e60; s /= 1e30; }
    let mut r = (y as f64).sqrt() as Q;
    for _ in 0..4 { r = (r + y / r) * 0.5; }
    r * s
}

/// f128 as a scalar of the library: rounding is out of the picture, so tight comparisons are possible
#[derive(Clone, Copy, PartialEq, PartialOrd, Default)]
pub struct S(pub Q);
impl core::fmt::Debug for S { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "{:?}", self.0 as f64) } }
macro_rules! ops { ($($t:ident $f:ident $o:tt),*) => { $(
    impl $t for S { type Output = S; fn $f(self, r: S) -> S { S(self.0 $o r.0) } }
    impl $t<f64> for S { type Output = S; fn $f(self, r: f64) -> S { S(self.0 $o (r as Q)) } } )* } }
ops!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
impl Neg for S { type Output = S; fn neg(self) -> S { S(-self.0) } }
impl From<f64> for S { fn from(x: f64) -> S { S(x as Q) } }
impl From<S> for f64 { fn from(x: S) -> f64 { x.0 as f64 } }
impl core::iter::Sum<f64> for S { fn sum<I: Iterator<Item = f64>>(i: I) -> S { S(i.fold(0.0 as Q, |a, b| a + b as Q)) } }
impl Zero for S { fn zero() -> S { S(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl One for S { fn one() -> S { S(1.0) } }
impl Num for S { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<S, ()> { Err(()) } }
impl ToPrimitive for S { fn to_i64(&self) -> Option<i64> { Some(self.0 as i64) } fn to_u64(&self) -> Option<u64> { Some(self.0 as u64) } fn to_f64(&self) -> Option<f64> { Some(self.0 as f64) } }
impl NumCast for S { fn from<T: ToPrimitive>(n: T) -> Option<S> { n.to_f64().map(|x| S(x as Q)) } }
macro_rules! via { ($($f:ident),*) => { $( fn $f(self) -> S { S(Float::$f(self.0 as f64) as Q) } )* } }
impl Float for S {
    fn nan() -> S { S(f64::NAN as Q) } fn infinity() -> S { S(f64::INFINITY as Q) } fn neg_infinity() -> S { S(f64::NEG_INFINITY as Q) }
    fn neg_zero() -> S { S(-0.0) } fn min_value() -> S { S(f64::MIN as Q) } fn min_positive_value() -> S { S(f64::MIN_POSITIVE as Q) }
    fn epsilon() -> S { S(f64::EPSILON as Q) } fn max_value() -> S { S(f64::MAX as Q) }
    fn is_nan(self) -> bool { self.0 != self.0 } fn is_infinite(self) -> bool { (self.0 as f64).is_infinite() }
    fn is_finite(self) -> bool { (self.0 as f64).is_finite() } fn is_normal(self) -> bool { (self.0 as f64).is_normal() }
    fn classify(self) -> FpCategory { (self.0 as f64).classify() }
    fn floor(self) -> S { let r = (self.0 as i64) as Q; S(if r > self.0 { r - 1.0 } else { r }) }
    fn ceil(self) -> S { -(-self).floor() }
    fn round(self) -> S { if self.0 < 0.0 { -((-self).round()) } else { (self + 0.5).floor() } }
    fn trunc(self) -> S { S((self.0 as i64) as Q) }
    fn fract(self) -> S { self - self.trunc() }
    fn abs(self) -> S { S(qabs(self.0)) }
    fn signum(self) -> S { if self.is_nan() { self } else if self.is_sign_negative() { S(-1.0) } else { S(1.0) } }
    fn is_sign_positive(self) -> bool { !self.is_sign_negative() }
    fn is_sign_negative(self) -> bool { (self.0 as f64).is_sign_negative() || self.0 < 0.0 }
    fn mul_add(self, a: S, b: S) -> S { self * a + b }
    fn recip(self) -> S { S(1.0 / self.0) }
    fn powi(self, n: i32) -> S { let mut r = 1.0 as Q; for _ in 0..n.unsigned_abs() { r *= self.0; } S(if n < 0 { 1.0 / r } else { r }) }
    fn powf(self, n: S) -> S { let m = n.0 as i32; if m as Q == n.0 { self.powi(m) } else { S(Float::powf(self.0 as f64, n.0 as f64) as Q) } }
    fn sqrt(self) -> S { if self.0 < 0.0 || self.is_nan() { Float::nan() } else { S(qsqrt(self.0)) } }
    fn max(self, o: S) -> S { if self.is_nan() { o } else if o.is_nan() { self } else { S(qmax(self.0, o.0)) } }
    fn min(self, o: S) -> S { if self.is_nan() { o } else if o.is_nan() { self } else { S(qmin(self.0, o.0)) } }
    fn hypot(self, o: S) -> S { S(qsqrt(self.0 * self.0 + o.0 * o.0)) }
    fn abs_sub(self, o: S) -> S { S(qmax(self.0 - o.0, 0.0)) }
    fn log(self, b: S) -> S { S(Float::log(self.0 as f64, b.0 as f64) as Q) }
    fn atan2(self, o: S) -> S { S(Float::atan2(self.0 as f64, o.0 as f64) as Q) }
    fn sin_cos(self) -> (S, S) { (self.sin(), self.cos()) }
    fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.0 as f64) }
    via!(exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
}
pub trait Sc: Copy + PartialOrd + core::fmt::Debug { fn q(self) -> Q; }
impl Sc for f64 { fn q(self) -> Q { self as Q } }
impl Sc for S { fn q(self) -> Q { self.0 } }

/// D-dimensional point over S; components beyond the dimension do not exist
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct V<const D: usize>(pub [S; D]);
impl<const D: usize> Default for V<D> { fn default() -> Self { V([S(0.0); D]) } }
impl<const D: usize> Add for V<D> { type Output = Self; fn add(mut self, o: Self) -> Self { for i in 0..D { self.0[i] = self.0[i] + o.0[i]; } self } }
impl<const D: usize> Sub for V<D> { type Output = Self; fn sub(mut self, o: Self) -> Self { for i in 0..D { self.0[i] = self.0[i] - o.0[i]; } self } }
impl<const D: usize> Mul<S> for V<D> { type Output = Self; fn mul(mut self, o: S) -> Self { for i in 0..D { self.0[i] = self.0[i] * o; } self } }
impl<const D: usize> Mul<f64> for V<D> { type Output = Self; fn mul(self, o: f64) -> Self { self * S(o as Q) } }
impl<const D: usize> IntoIterator for V<D> { type Item = S; type IntoIter = core::array::IntoIter<S, D>; fn into_iter(self) -> Self::IntoIter { IntoIterator::into_iter(self.0) } }
impl<const D: usize> stroke::Point for V<D> {
    type Scalar = S;
    const DIM: usize = D;
    fn axis(&self, i: usize) -> S { self.0[i] }
    fn squared_length(&self) -> S { let mut s = S(0.0); for i in 0..D { s = s + self.0[i] * self.0[i]; } s }
}

/// what the checks need from a point type
pub trait Tp: stroke::Point<Scalar: Sc> + core::fmt::Debug + core::panic::RefUnwindSafe {
    const D: usize;
    /// relative rounding level
    const U: f64;
    const NAME: &'static str;
    fn mk(c: &[f64]) -> Self;
    fn co(&self, i: usize) -> Q;
    fn s(x: f64) -> Self::Scalar { <Self::Scalar as From<f64>>::from(x) }
}
impl<const N: usize> Tp for stroke::PointN<f64, N> {
    const D: usize = N;
    const U: f64 = 1e-15;
    const NAME: &'static str = "PointN<f64>";
    fn mk(c: &[f64]) -> Self { let mut a = [0.0; N]; a.copy_from_slice(&c[..N]); stroke::PointN::new(a) }
    fn co(&self, i: usize) -> Q { stroke::Point::axis(self, i) as Q }
}
impl<const N: usize> Tp for V<N> {
    const D: usize = N;
    const U: f64 = 1e-30;
    const NAME: &'static str = "point over f128";
    fn mk(c: &[f64]) -> Self { let mut a = [S(0.0); N]; for i in 0..N { a[i] = S(c[i] as Q); } V(a) }
    fn co(&self, i: usize) -> Q { self.0[i].0 }
}
pub fn cmp(a: &f64, b: &f64) -> Ordering { a.partial_cmp(b).unwrap() }
