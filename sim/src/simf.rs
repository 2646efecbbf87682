//! The arithmetic seam. rasp is generic over its sample type; `SimF` is an f64 whose every
//! arithmetic step is a crash point (the simulator can make it panic) and a scheduling point
//! (the simulator can hand the processor to another caller thread). Each value also carries the
//! number of the newest input sample it was computed from, which tells the simulator which
//! sample a crash interrupted without looking at the code.
#[cfg(not(feature = "plain"))]
pub use self::seam::SimF;
#[cfg(feature = "plain")]
pub type SimF = f64;
use std::cell::Cell;

/// Payload of a simulated crash.
pub struct Crash;
/// Payload of an operation that used up its arithmetic steps.
pub struct Spent;

thread_local! {
    static STEPS: Cell<u64> = Cell::new(0);
    static ARMED: Cell<u64> = Cell::new(u64::MAX);
    static SCHED: Cell<bool> = Cell::new(false);
    static FUEL: Cell<u64> = Cell::new(u64::MAX);
    static TAG: Cell<u32> = Cell::new(0);
}
/// Crash at the `k`-th arithmetic step from now (0 = the next one).
pub fn arm(k: u64) { ARMED.with(|a| a.set(k)) }
pub fn disarm() { ARMED.with(|a| a.set(u64::MAX)) }
/// Stop whatever runs after `n` further arithmetic steps (u64::MAX: never).
pub fn fuel(n: u64) { FUEL.with(|f| f.set(n)) }
pub fn steps() -> u64 { STEPS.with(|s| s.get()) }
/// newest input sample any arithmetic has touched
pub fn newest() -> u32 { TAG.with(|s| s.get()) }
pub fn forget_tags() { TAG.with(|s| s.set(0)) }
pub fn scheduling(on: bool) { SCHED.with(|s| s.set(on)) }

#[inline]
#[allow(dead_code)]
fn tick(tag: u32) {
    STEPS.with(|s| s.set(s.get() + 1));
    TAG.with(|s| if tag > s.get() { s.set(tag) });
    FUEL.with(|f| {
        let n = f.get();
        if n != u64::MAX { if n == 0 { f.set(u64::MAX); std::panic::resume_unwind(Box::new(Spent)); } f.set(n - 1); }
    });
    ARMED.with(|a| {
        let k = a.get();
        if k != u64::MAX {
            if k == 0 { a.set(u64::MAX); std::panic::resume_unwind(Box::new(Crash)); }
            a.set(k - 1);
        }
    });
    if SCHED.with(|s| s.get()) { crate::preempt::point(); }
}
/// Naming a constant or converting a number is where threads may switch, but never where a crash
/// happens: an implementation is free to reset its state with as many zeros as it likes.
#[inline]
#[allow(dead_code)]
fn pause() {
    if SCHED.with(|s| s.get()) { crate::preempt::point(); }
}
#[cfg(not(feature = "plain"))]
mod seam {
use super::{pause, tick};
use num::traits::{Float, FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use rasp::traits::FloatConst;
use std::cmp::Ordering;
use std::fmt;
use std::num::FpCategory;
use std::ops::*;

#[derive(Clone, Copy, Debug, Default)]
pub struct SimF { pub v: f64, pub tag: u32 }
#[allow(non_snake_case)]
pub fn SimF(v: f64) -> SimF { SimF { v, tag: 0 } }
#[inline]
fn mk(v: f64, tag: u32) -> SimF { SimF { v, tag } }
macro_rules! bin { ($($tr:ident $f:ident $atr:ident $af:ident $op:tt),*) => { $(
    impl $tr for SimF { type Output = SimF; #[inline] fn $f(self, o: SimF) -> SimF { let t = self.tag.max(o.tag); tick(t); mk(self.v $op o.v, t) } }
    impl<'a> $tr<&'a SimF> for SimF { type Output = SimF; #[inline] fn $f(self, o: &'a SimF) -> SimF { let t = self.tag.max(o.tag); tick(t); mk(self.v $op o.v, t) } }
    impl<'a> $tr<SimF> for &'a SimF { type Output = SimF; #[inline] fn $f(self, o: SimF) -> SimF { *self $op o } }
    impl<'a, 'b> $tr<&'b SimF> for &'a SimF { type Output = SimF; #[inline] fn $f(self, o: &'b SimF) -> SimF { *self $op *o } }
    impl $atr for SimF { #[inline] fn $af(&mut self, o: SimF) { *self = *self $op o } }
    impl<'a> $atr<&'a SimF> for SimF { #[inline] fn $af(&mut self, o: &'a SimF) { *self = *self $op *o } }
)* } }
bin!(Add add AddAssign add_assign +, Sub sub SubAssign sub_assign -, Mul mul MulAssign mul_assign *,
     Div div DivAssign div_assign /, Rem rem RemAssign rem_assign %);
impl Neg for SimF { type Output = SimF; fn neg(self) -> SimF { tick(self.tag); mk(-self.v, self.tag) } }
impl PartialEq for SimF { fn eq(&self, o: &SimF) -> bool { tick(self.tag.max(o.tag)); self.v == o.v } }
impl PartialOrd for SimF { fn partial_cmp(&self, o: &SimF) -> Option<Ordering> { tick(self.tag.max(o.tag)); self.v.partial_cmp(&o.v) } }
impl fmt::Display for SimF { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.v.fmt(f) } }
impl<'a> Neg for &'a SimF { type Output = SimF; fn neg(self) -> SimF { -*self } }
impl fmt::LowerExp for SimF { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.v.fmt(f) } }
impl<'a> std::iter::Sum<&'a SimF> for SimF { fn sum<I: Iterator<Item = &'a SimF>>(i: I) -> SimF { i.fold(SimF(0.0), |a, b| a + *b) } }
impl std::iter::Product for SimF { fn product<I: Iterator<Item = SimF>>(i: I) -> SimF { i.fold(SimF(1.0), |a, b| a * b) } }
impl<'a> std::iter::Product<&'a SimF> for SimF { fn product<I: Iterator<Item = &'a SimF>>(i: I) -> SimF { i.fold(SimF(1.0), |a, b| a * *b) } }
impl From<SimF> for f64 { fn from(v: SimF) -> f64 { v.v } }
macro_rules! froms { ($($i:ident)*) => { $( impl From<$i> for SimF { fn from(v: $i) -> SimF { SimF(v as f64) } } )* } }
froms!(u8 i8 u16 i16);
impl std::str::FromStr for SimF { type Err = std::num::ParseFloatError; fn from_str(s: &str) -> Result<SimF, Self::Err> { s.parse().map(SimF) } }
impl num::traits::Bounded for SimF { fn min_value() -> SimF { SimF(f64::MIN) } fn max_value() -> SimF { SimF(f64::MAX) } }
impl num::traits::Signed for SimF {
    fn abs(&self) -> SimF { Float::abs(*self) }
    fn abs_sub(&self, o: &SimF) -> SimF { Float::abs_sub(*self, *o) }
    fn signum(&self) -> SimF { Float::signum(*self) }
    fn is_positive(&self) -> bool { Float::is_sign_positive(*self) }
    fn is_negative(&self) -> bool { Float::is_sign_negative(*self) }
}
impl num::traits::MulAdd for SimF { type Output = SimF; fn mul_add(self, a: SimF, b: SimF) -> SimF { Float::mul_add(self, a, b) } }
impl num::traits::MulAddAssign for SimF { fn mul_add_assign(&mut self, a: SimF, b: SimF) { *self = Float::mul_add(*self, a, b) } }
impl num::traits::Inv for SimF { type Output = SimF; fn inv(self) -> SimF { Float::recip(self) } }
macro_rules! consts { ($($c:ident)*) => { impl num::traits::FloatConst for SimF { $( fn $c() -> SimF { pause(); SimF(std::f64::consts::$c) } )* } } }
#[allow(non_snake_case)]
mod consts_of { use super::*; consts!(E FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 LN_10 LN_2 LOG10_E LOG2_E PI SQRT_2); }
macro_rules! as_prim { ($($i:ident)*) => { $(
    impl num::traits::AsPrimitive<$i> for SimF { fn as_(self) -> $i { self.v as $i } }
    impl num::traits::AsPrimitive<SimF> for $i { fn as_(self) -> SimF { pause(); SimF(self as f64) } }
)* } }
as_prim!(f32 f64 u8 i8 u16 i16 u32 i32 u64 i64 usize isize);
impl std::iter::Sum for SimF { fn sum<I: Iterator<Item = SimF>>(i: I) -> SimF { i.fold(SimF(0.0), |a, b| a + b) } }
impl From<f32> for SimF { fn from(v: f32) -> SimF { SimF(v as f64) } }
impl From<f64> for SimF { fn from(v: f64) -> SimF { SimF(v) } }
impl Zero for SimF { fn zero() -> SimF { pause(); SimF(0.0) } fn is_zero(&self) -> bool { tick(self.tag); self.v == 0.0 } }
impl One for SimF { fn one() -> SimF { pause(); SimF(1.0) } }
impl Num for SimF {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, _: u32) -> Result<SimF, ()> { s.parse().map(SimF).map_err(|_| ()) }
}
impl ToPrimitive for SimF {
    fn to_i64(&self) -> Option<i64> { self.v.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.v.to_u64() }
    fn to_f32(&self) -> Option<f32> { Some(self.v as f32) }
    fn to_f64(&self) -> Option<f64> { Some(self.v) }
}
impl FromPrimitive for SimF {
    fn from_i64(n: i64) -> Option<SimF> { pause(); Some(SimF(n as f64)) }
    fn from_u64(n: u64) -> Option<SimF> { pause(); Some(SimF(n as f64)) }
    fn from_f64(n: f64) -> Option<SimF> { pause(); Some(SimF(n)) }
}
impl NumCast for SimF { fn from<T: ToPrimitive>(n: T) -> Option<SimF> { pause(); n.to_f64().map(SimF) } }
impl FloatConst for SimF {
    fn pi() -> SimF { pause(); SimF(std::f64::consts::PI) }
    fn two() -> SimF { pause(); SimF(2.0) }
}
macro_rules! un { ($($f:ident)*) => { $( fn $f(self) -> SimF { tick(self.tag); mk(f64::$f(self.v), self.tag) } )* } }
macro_rules! bi { ($($f:ident)*) => { $( fn $f(self, o: SimF) -> SimF { let t = self.tag.max(o.tag); tick(t); mk(f64::$f(self.v, o.v), t) } )* } }
macro_rules! pr { ($($f:ident)*) => { $( fn $f(self) -> bool { tick(self.tag); f64::$f(self.v) } )* } }
impl Float for SimF {
    fn nan() -> SimF { SimF(f64::NAN) }
    fn infinity() -> SimF { SimF(f64::INFINITY) }
    fn neg_infinity() -> SimF { SimF(f64::NEG_INFINITY) }
    fn neg_zero() -> SimF { SimF(-0.0) }
    fn min_value() -> SimF { SimF(f64::MIN) }
    fn min_positive_value() -> SimF { SimF(f64::MIN_POSITIVE) }
    fn epsilon() -> SimF { SimF(f64::EPSILON) }
    fn max_value() -> SimF { SimF(f64::MAX) }
    pr!(is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative);
    fn classify(self) -> FpCategory { self.v.classify() }
    un!(floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan
        exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    bi!(powf log max min hypot atan2);
    fn mul_add(self, a: SimF, b: SimF) -> SimF { let t = self.tag.max(a.tag).max(b.tag); tick(t); mk(self.v.mul_add(a.v, b.v), t) }
    fn powi(self, n: i32) -> SimF { tick(self.tag); mk(self.v.powi(n), self.tag) }
    fn abs_sub(self, o: SimF) -> SimF { let t = self.tag.max(o.tag); tick(t); mk((self.v - o.v).max(0.0), t) }
    fn sin_cos(self) -> (SimF, SimF) { tick(self.tag); let (s, c) = self.v.sin_cos(); (mk(s, self.tag), mk(c, self.tag)) }
    fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.v) }
}
}
