//! Uniform access to every real rasp type. Nothing here is a model: each call goes straight to rasp.
#[cfg(not(feature = "plain"))]
use crate::simf::SimF;
use crate::trace::*;
use num::traits::Float;
use rasp::analysis::*;
use rasp::delay::{Delay, LinearDelay};
use rasp::filter::{rbj, Biquad1, Biquad2, OnePole, OneZero, TwoPole, TwoZero};
use rasp::traits::{FloatConst, Processor, TappableDelayLine};
use rasp::window::*;

/// Whatever a generic signature of rasp might ask of a sample type that f32 and f64 can do, so that
/// a tightened bound does not leave the simulator without an answer.
pub trait Can: Default + std::fmt::Debug + std::fmt::Display + std::fmt::LowerExp + Send + Sync + Unpin + std::panic::UnwindSafe + std::panic::RefUnwindSafe
    + std::iter::Sum + std::iter::Product + for<'a> std::iter::Sum<&'a Self> + for<'a> std::iter::Product<&'a Self> + std::str::FromStr
    + From<f32> + From<u8> + From<i8> + From<u16> + From<i16> + Into<f64>
    + num::traits::NumAssign + num::traits::NumRef + num::traits::Signed + num::traits::Bounded + num::traits::FromPrimitive + num::traits::FloatConst
    + num::traits::Inv<Output = Self> + num::traits::MulAddAssign + num::traits::AsPrimitive<f64> + num::traits::AsPrimitive<f32> + num::traits::AsPrimitive<usize> {}
impl Can for f32 {}
impl Can for f64 {}
#[cfg(not(feature = "plain"))]
impl Can for SimF {}
pub trait Num: Float + FloatConst + Can + 'static {
    const EPS: f64; // unit roundoff * 2
    const TINY: f64;
    const MAXV: f64;
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
    fn tagged(v: f64, _tag: u32) -> Self { Self::of(v) }
}
impl Num for f32 { const EPS: f64 = f32::EPSILON as f64; const TINY: f64 = 1.5e-45; const MAXV: f64 = f32::MAX as f64;
    fn of(v: f64) -> f32 { v as f32 } fn f(self) -> f64 { self as f64 } }
impl Num for f64 { const EPS: f64 = f64::EPSILON; const TINY: f64 = 5e-324; const MAXV: f64 = f64::MAX;
    fn of(v: f64) -> f64 { v } fn f(self) -> f64 { self } }
#[cfg(not(feature = "plain"))]
impl Num for SimF { const EPS: f64 = f64::EPSILON; const TINY: f64 = 5e-324; const MAXV: f64 = f64::MAX;
    fn of(v: f64) -> SimF { SimF(v) } fn f(self) -> f64 { self.v }
    fn tagged(v: f64, tag: u32) -> SimF { SimF { v, tag } } }

pub enum Win<T: Num> { Tri(TriangularIter<T>), Bart(BartlettIter<T>), Hann(HannIter<T>), Hamm(HammingIter<T>), Black(BlackmanIter<T>), Bh(BlackmanHarrisIter<T>) }
macro_rules! win { ($s:expr, $x:ident => $e:expr) => { match $s { Win::Tri($x) => $e, Win::Bart($x) => $e, Win::Hann($x) => $e, Win::Hamm($x) => $e, Win::Black($x) => $e, Win::Bh($x) => $e } } }
impl<T: Num> Win<T> {
    pub fn new(k: Kind, n: usize) -> Win<T> {
        match k { Kind::WTri => Win::Tri(TriangularIter::new(n)), Kind::WBart => Win::Bart(BartlettIter::new(n)), Kind::WHann => Win::Hann(HannIter::new(n)),
            Kind::WHamm => Win::Hamm(HammingIter::new(n)), Kind::WBlack => Win::Black(BlackmanIter::new(n)), _ => Win::Bh(BlackmanHarrisIter::new(n)) }
    }
    pub fn next(&mut self) -> Option<T> { win!(self, w => w.next()) }
    pub fn nth(&mut self, k: usize) -> Option<T> { win!(self, w => w.nth(k)) }
    pub fn len(&self) -> usize { win!(self, w => w.len()) }
    pub fn size_hint(&self) -> (usize, Option<usize>) { win!(self, w => w.size_hint()) }
    pub fn rest(self) -> Vec<T> { win!(self, w => w.collect()) }
    pub fn some(&mut self, k: usize) -> Vec<T> { win!(self, w => w.by_ref().take(k).collect()) }
    pub fn third(self) -> Vec<T> { win!(self, w => w.step_by(3).collect()) }
    pub fn each<F: FnMut(T)>(self, f: F) { win!(self, w => w.for_each(f)) }
    pub fn count_rest(self) -> usize { win!(self, w => w.count()) }
    pub fn last(self) -> Option<T> { win!(self, w => w.last()) }
}

pub enum Unit<T: Num> {
    Leaky(LeakyIntegrator<T>), Peak(PeakEnvDetector<T>), Rms(RmsEnvDetector<T>), Delay(Delay<T>), Lin(LinearDelay<T>),
    OnePole(OnePole<T>), OneZero(OneZero<T>), TwoPole(TwoPole<T>), TwoZero(TwoZero<T>), Biquad1(Biquad1<T>), Biquad2(Biquad2<T>),
    AllPass(rbj::AllPass<T>), BandPass1(rbj::BandPass1<T>), BandPass2(rbj::BandPass2<T>), BandStop(rbj::BandStop<T>), HighPass(rbj::HighPass<T>),
    HighShelf(rbj::HighShelf<T>), LowPass(rbj::LowPass<T>), LowShelf(rbj::LowShelf<T>), PeakEq(rbj::Peak<T>),
    Window(Win<T>),
}
macro_rules! proc_of { ($s:expr, $x:ident => $e:expr, $w:ident => $we:expr) => { match $s {
    Unit::Leaky($x) => $e, Unit::Peak($x) => $e, Unit::Rms($x) => $e, Unit::Delay($x) => $e, Unit::Lin($x) => $e,
    Unit::OnePole($x) => $e, Unit::OneZero($x) => $e, Unit::TwoPole($x) => $e, Unit::TwoZero($x) => $e, Unit::Biquad1($x) => $e, Unit::Biquad2($x) => $e,
    Unit::AllPass($x) => $e, Unit::BandPass1($x) => $e, Unit::BandPass2($x) => $e, Unit::BandStop($x) => $e, Unit::HighPass($x) => $e,
    Unit::HighShelf($x) => $e, Unit::LowPass($x) => $e, Unit::LowShelf($x) => $e, Unit::PeakEq($x) => $e,
    Unit::Window($w) => $we,
} } }
/// f64 -> usize as a host would convert a count
pub fn us(v: f64) -> usize { if v.is_nan() { 0 } else { v as usize } }

thread_local! { static DIG: std::cell::Cell<u64> = std::cell::Cell::new(0); }
/// digest of every output rasp has produced on this thread, for the determinism self-test
pub fn digest() -> u64 { DIG.with(|d| d.get()) }
#[inline]
fn dig<T: Num>(v: T) -> T { DIG.with(|d| d.set((d.get() ^ v.f().to_bits()).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23))); v }

impl<T: Num> Unit<T> {
    pub fn new(s: &Spec) -> Unit<T> {
        use Kind::*;
        match s.kind {
            Leaky => Unit::Leaky(LeakyIntegrator::new()), Peak => Unit::Peak(PeakEnvDetector::new()), Rms => Unit::Rms(RmsEnvDetector::new()),
            Kind::Delay => Unit::Delay(rasp::delay::Delay::new(us(s.init[0]), us(s.init[1]))),
            LinDelay => Unit::Lin(LinearDelay::new(s.init[0] as f32, us(s.init[1]))),
            Kind::OnePole => Unit::OnePole(rasp::filter::OnePole::new()), Kind::OneZero => Unit::OneZero(rasp::filter::OneZero::new()),
            Kind::TwoPole => Unit::TwoPole(rasp::filter::TwoPole::new()), Kind::TwoZero => Unit::TwoZero(rasp::filter::TwoZero::new()),
            Kind::Biquad1 => Unit::Biquad1(rasp::filter::Biquad1::new()), Kind::Biquad2 => Unit::Biquad2(rasp::filter::Biquad2::new()),
            AllPass => Unit::AllPass(rbj::AllPass::new()), BandPass1 => Unit::BandPass1(rbj::BandPass1::new()), BandPass2 => Unit::BandPass2(rbj::BandPass2::new()),
            BandStop => Unit::BandStop(rbj::BandStop::new()), HighPass => Unit::HighPass(rbj::HighPass::new()), HighShelf => Unit::HighShelf(rbj::HighShelf::new()),
            LowPass => Unit::LowPass(rbj::LowPass::new()), LowShelf => Unit::LowShelf(rbj::LowShelf::new()), PeakEq => Unit::PeakEq(rbj::Peak::new()),
            k => Unit::Window(Win::new(k, us(s.init[0]))),
        }
    }
    /// A line like the one `s` describes, with another maximum.
    pub fn line(s: &Spec, max: usize) -> Unit<T> {
        if s.kind == Kind::Delay { Unit::Delay(rasp::delay::Delay::new(us(s.init[0]), max)) } else { Unit::Lin(LinearDelay::new(s.init[0] as f32, max)) }
    }
    pub fn process(&mut self, x: T) -> T { dig(proc_of!(self, p => p.process(x), w => match w.next() { Some(v) => v, None => T::of(-777.0) })) }
    pub fn process_block(&mut self, b: &mut [T]) -> T {
        dig(proc_of!(self, p => p.process_block(b), w => { for v in b.iter_mut() { *v = match w.next() { Some(v) => v, None => T::of(-777.0) } } T::of(0.0) }))
    }
    /// `n` silent samples, in buffers or one by one; outputs are not kept.
    pub fn idle(&mut self, n: u64, block: bool) {
        const B: usize = 4096;
        let mut buf = [T::of(0.0); B];
        let mut left = n;
        let mut turn = 0u64;
        while left > 0 {
            let m = (left as usize).min(B);
            if block {
                for v in buf[..m].iter_mut() { *v = T::of(0.0); }
                proc_of!(self, p => { p.process_block(&mut buf[..m]); }, _w => ());
            } else { proc_of!(self, p => for _ in 0..m { p.process(T::of(0.0)); }, _w => ()); }
            left -= m as u64;
            turn += 1;
            if turn % 8192 == 0 { crate::sys::beat(); }
        }
    }
    pub fn clear(&mut self) { proc_of!(self, p => p.clear(), _w => ()) }
    pub fn last_out(&self) -> T { proc_of!(self, p => p.last_out(), _w => T::of(0.0)) }
    pub fn set(&mut self, which: u8, a: &[f64]) {
        let c = |i: usize| T::of(a[i]);
        match (which, self) {
            (S_COEF, Unit::OnePole(f)) => f.set_coefficients(c(0), c(1)),
            (S_COEF, Unit::OneZero(f)) => f.set_coefficients(c(0), c(1)),
            (S_COEF, Unit::TwoPole(f)) => f.set_coefficients(c(0), c(1), c(2)),
            (S_COEF, Unit::TwoZero(f)) => f.set_coefficients(c(0), c(1), c(2)),
            (S_COEF, Unit::Biquad1(f)) => f.set_coefficients(c(0), c(1), c(2), c(3), c(4)),
            (S_COEF, Unit::Biquad2(f)) => f.set_coefficients(c(0), c(1), c(2), c(3), c(4)),
            (S_COEF, Unit::AllPass(f)) => f.set_coefficients(c(0), c(1), c(2)),
            (S_COEF, Unit::BandPass1(f)) => f.set_coefficients(c(0), c(1), c(2)),
            (S_COEF, Unit::BandPass2(f)) => f.set_coefficients(c(0), c(1), c(2)),
            (S_COEF, Unit::BandStop(f)) => f.set_coefficients(c(0), c(1), c(2)),
            (S_COEF, Unit::HighPass(f)) => f.set_coefficients(c(0), c(1), c(2)),
            (S_COEF, Unit::LowPass(f)) => f.set_coefficients(c(0), c(1), c(2)),
            (S_COEF, Unit::HighShelf(f)) => f.set_coefficients(c(0), c(1), c(2), c(3)),
            (S_COEF, Unit::LowShelf(f)) => f.set_coefficients(c(0), c(1), c(2), c(3)),
            (S_COEF, Unit::PeakEq(f)) => f.set_coefficients(c(0), c(1), c(2), c(3)),
            (1, Unit::OnePole(f)) => f.b0 = c(0), (4, Unit::OnePole(f)) => f.a1 = c(0),
            (1, Unit::OneZero(f)) => f.b0 = c(0), (2, Unit::OneZero(f)) => f.b1 = c(0),
            (1, Unit::TwoPole(f)) => f.b0 = c(0), (4, Unit::TwoPole(f)) => f.a1 = c(0), (5, Unit::TwoPole(f)) => f.a2 = c(0),
            (1, Unit::TwoZero(f)) => f.b0 = c(0), (2, Unit::TwoZero(f)) => f.b1 = c(0), (3, Unit::TwoZero(f)) => f.b2 = c(0),
            (1, Unit::Biquad1(f)) => f.b0 = c(0), (2, Unit::Biquad1(f)) => f.b1 = c(0), (3, Unit::Biquad1(f)) => f.b2 = c(0),
            (4, Unit::Biquad1(f)) => f.a1 = c(0), (5, Unit::Biquad1(f)) => f.a2 = c(0),
            (1, Unit::Biquad2(f)) => f.b0 = c(0), (2, Unit::Biquad2(f)) => f.b1 = c(0), (3, Unit::Biquad2(f)) => f.b2 = c(0),
            (4, Unit::Biquad2(f)) => f.a1 = c(0), (5, Unit::Biquad2(f)) => f.a2 = c(0),
            (S_ALPHA, Unit::Leaky(f)) => f.set_alpha(c(0)),
            (S_ATTACK, Unit::Peak(f)) => f.set_attack(c(0)), (S_RELEASE, Unit::Peak(f)) => f.set_release(c(0)),
            (S_ATTACK, Unit::Rms(f)) => f.set_attack(c(0)), (S_RELEASE, Unit::Rms(f)) => f.set_release(c(0)),
            (S_DELAY, Unit::Delay(f)) => f.set_delay(us(a[0])),
            (S_DELAY, Unit::Lin(f)) => f.set_delay(a[0] as f32),
            _ => {}
        }
    }
    pub fn grow(&mut self, n: u64) {
        match self { Unit::Delay(d) => d.set_max_delay(n as usize), Unit::Lin(d) => d.set_max_delay(n as usize), _ => {} }
    }
    pub fn max_delay(&self) -> usize { match self { Unit::Delay(d) => d.get_max_delay(), Unit::Lin(d) => d.get_max_delay(), _ => 0 } }
    pub fn get_delay(&self) -> f64 { match self { Unit::Delay(d) => d.get_delay() as f64, Unit::Lin(d) => d.get_delay() as f64, _ => 0.0 } }
    pub fn next_out(&mut self) -> Option<T> { match self { Unit::Delay(d) => Some(d.next_out()), Unit::Lin(d) => Some(d.next_out()), _ => None } }
    pub fn tap_out(&self, k: usize) -> T { match self { Unit::Delay(d) => d.tap_out(k), Unit::Lin(d) => d.tap_out(k), _ => T::of(0.0) } }
    pub fn tap_in(&mut self, v: T, k: usize) { match self { Unit::Delay(d) => d.tap_in(v, k), Unit::Lin(d) => d.tap_in(v, k), _ => {} } }
    pub fn add_to(&mut self, v: T, k: usize) -> T { match self { Unit::Delay(d) => d.add_to(v, k), Unit::Lin(d) => d.add_to(v, k), _ => T::of(0.0) } }
    /// every parameter getter the type has
    pub fn getters(&self) -> [f64; 2] {
        match self {
            Unit::Leaky(f) => [f.get_alpha().f(), 0.0],
            Unit::Peak(f) => [f.get_attack_gain().f(), f.get_release_gain().f()],
            Unit::Rms(f) => [f.get_attack_gain().f(), f.get_release_gain().f()],
            Unit::Delay(d) => [d.get_delay() as f64, d.get_max_delay() as f64],
            Unit::Lin(d) => [d.get_delay() as f64, d.get_max_delay() as f64],
            _ => [0.0, 0.0],
        }
    }
    pub fn win(&mut self) -> Option<&mut Win<T>> { if let Unit::Window(w) = self { Some(w) } else { None } }
}
/// Resolve a tap position: non-negative counts from the newest sample (modulo the line),
/// negative counts back from the oldest.
pub fn tap_pos(k: i64, max: usize) -> usize {
    let m = max as i64 + 1;
    if k >= 0 { (k % m) as usize } else { (m + k).max(0) as usize }
}
pub fn same(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
