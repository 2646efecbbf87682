// A floating point type whose arithmetic can be told to panic at a chosen step.
use num::traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::num::FpCategory;
use std::ops::*;
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct F(pub f64);
thread_local! { static K: Cell<i64> = Cell::new(-1); }
pub fn arm(k: i64) { K.with(|c| c.set(k)) }
pub fn disarm() { arm(-1) }
fn t() { K.with(|c| { let k = c.get(); if k == 0 { c.set(-1); panic!("arithmetic") } if k > 0 { c.set(k - 1) } }) }
macro_rules! b { ($($a:ident $f:ident $o:tt),*) => { $(impl $a for F { type Output = F; fn $f(self, x: F) -> F { t(); F(self.0 $o x.0) } })* } }
b!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
impl Neg for F { type Output = F; fn neg(self) -> F { t(); F(-self.0) } }
impl Zero for F { fn zero() -> F { F(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl One for F { fn one() -> F { F(1.0) } }
impl Num for F { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<F, ()> { Err(()) } }
impl ToPrimitive for F { fn to_i64(&self) -> Option<i64> { self.0.to_i64() } fn to_u64(&self) -> Option<u64> { self.0.to_u64() } fn to_f64(&self) -> Option<f64> { Some(self.0) } }
impl NumCast for F { fn from<T: ToPrimitive>(n: T) -> Option<F> { n.to_f64().map(F) } }
macro_rules! u { ($($f:ident)*) => { $(fn $f(self) -> F { t(); F(f64::$f(self.0)) })* } }
macro_rules! w { ($($f:ident)*) => { $(fn $f(self, o: F) -> F { t(); F(f64::$f(self.0, o.0)) })* } }
macro_rules! p { ($($f:ident)*) => { $(fn $f(self) -> bool { f64::$f(self.0) })* } }
impl Float for F {
    fn nan() -> F { F(f64::NAN) } fn infinity() -> F { F(f64::INFINITY) } fn neg_infinity() -> F { F(f64::NEG_INFINITY) } fn neg_zero() -> F { F(-0.0) }
    fn min_value() -> F { F(f64::MIN) } fn min_positive_value() -> F { F(f64::MIN_POSITIVE) } fn max_value() -> F { F(f64::MAX) }
    p!(is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative);
    fn classify(self) -> FpCategory { self.0.classify() }
    u!(floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    w!(powf log max min hypot atan2);
    fn mul_add(self, a: F, b: F) -> F { t(); F(self.0.mul_add(a.0, b.0)) }
    fn powi(self, n: i32) -> F { t(); F(self.0.powi(n)) }
    fn abs_sub(self, o: F) -> F { t(); F((self.0 - o.0).max(0.0)) }
    fn sin_cos(self) -> (F, F) { t(); let (s, c) = self.0.sin_cos(); (F(s), F(c)) }
    fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.0) }
}
