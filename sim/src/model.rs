//! Reference models: small, direct, in f64, written from the documentation (Audio EQ Cookbook,
//! textbook windows, "the input of d samples ago") and not from rasp's code.
use crate::trace::Kind;

/// Audio EQ Cookbook (R. Bristow-Johnson), un-normalised: b0 b1 b2 a0 a1 a2
pub fn cookbook(k: Kind, p: &[f64]) -> [f64; 6] {
    let w0 = 2.0 * std::f64::consts::PI * p[1] / p[0];
    let (s, c) = (w0.sin(), w0.cos());
    match k {
        Kind::LowShelf | Kind::HighShelf => {
            let a = 10f64.powf(p[2] / 40.0);
            let alpha = s / 2.0 * ((a + 1.0 / a) * (1.0 / p[3] - 1.0) + 2.0).sqrt();
            let t = 2.0 * a.sqrt() * alpha;
            if k == Kind::LowShelf {
                [a * ((a + 1.0) - (a - 1.0) * c + t), 2.0 * a * ((a - 1.0) - (a + 1.0) * c), a * ((a + 1.0) - (a - 1.0) * c - t),
                 (a + 1.0) + (a - 1.0) * c + t, -2.0 * ((a - 1.0) + (a + 1.0) * c), (a + 1.0) + (a - 1.0) * c - t]
            } else {
                [a * ((a + 1.0) + (a - 1.0) * c + t), -2.0 * a * ((a - 1.0) + (a + 1.0) * c), a * ((a + 1.0) + (a - 1.0) * c - t),
                 (a + 1.0) - (a - 1.0) * c + t, 2.0 * ((a - 1.0) - (a + 1.0) * c), (a + 1.0) - (a - 1.0) * c - t]
            }
        }
        Kind::PeakEq => {
            let a = 10f64.powf(p[2] / 40.0);
            let al = s / (2.0 * p[3]);
            [1.0 + al * a, -2.0 * c, 1.0 - al * a, 1.0 + al / a, -2.0 * c, 1.0 - al / a]
        }
        _ => {
            let q = p[2];
            let al = s / (2.0 * q);
            let (b0, b1, b2) = match k {
                Kind::LowPass => ((1.0 - c) / 2.0, 1.0 - c, (1.0 - c) / 2.0),
                Kind::HighPass => ((1.0 + c) / 2.0, -(1.0 + c), (1.0 + c) / 2.0),
                Kind::BandPass1 => (s / 2.0, 0.0, -s / 2.0),
                Kind::BandPass2 => (al, 0.0, -al),
                Kind::BandStop => (1.0, -2.0 * c, 1.0),
                _ => (1.0 - al, -2.0 * c, 1.0 + al), // AllPass
            };
            [b0, b1, b2, 1.0 + al, -2.0 * c, 1.0 - al]
        }
    }
}
/// normalised b0 b1 b2 a1 a2
pub fn cookbook_n(k: Kind, p: &[f64]) -> [f64; 5] {
    let c = cookbook(k, p);
    [c[0] / c[3], c[1] / c[3], c[2] / c[3], c[4] / c[3], c[5] / c[3]]
}
/// A shelf slope may exceed one (an overshooting shelf) while the root in the formula stays real.
pub fn slope_ok(gain: f64, s: f64) -> bool {
    let a = 10f64.powf(gain / 40.0);
    s <= 1.0 || (a + 1.0 / a) * (1.0 / s - 1.0) + 2.0 >= 0.25
}
/// How much coefficient rounding is amplified by this tuning: the absolute error of each normalised
/// coefficient computed in a type of precision eps is at most about eps times this.
pub fn tuning_scale(k: Kind, p: &[f64]) -> f64 {
    match k {
        Kind::LowShelf | Kind::HighShelf | Kind::PeakEq => {
            let a = 10f64.powf(p[2].abs() / 40.0);
            let q = 1.0 + 1.0 / (2.0 * p[3]);
            8.0 * a * a * a * q * q
        }
        _ => 4.0 * (1.0 + p[2]) * (1.0 + 1.0 / (2.0 * p[2])),
    }
}
/// largest pole modulus of 1 + a1 z^-1 + a2 z^-2
pub fn radius(a1: f64, a2: f64) -> f64 {
    let d = a1 * a1 - 4.0 * a2;
    if d < 0.0 { a2.sqrt() } else { let s = d.sqrt(); ((-a1 + s) / 2.0).abs().max(((-a1 - s) / 2.0).abs()) }
}
/// samples after which (n+1) r^n has fallen to `to`
pub fn settle(r: f64, to: f64) -> usize {
    if r <= 1e-9 { return 3; }
    let l = r.ln();
    let mut n = (to.ln() / l).max(1.0);
    for _ in 0..40 { n = ((to / (n + 1.0)).ln() / l).max(1.0); }
    n.ceil() as usize + 3
}
pub fn window(k: Kind, i: usize, n: usize) -> f64 {
    use std::f64::consts::PI;
    let (i, m, nf) = (i as f64, (n - 1) as f64, n as f64);
    let th = 2.0 * PI * i / m;
    match k {
        Kind::WTri => 1.0 - ((i - m / 2.0) / (nf / 2.0)).abs(),
        Kind::WBart => 1.0 - ((i - m / 2.0) / (m / 2.0)).abs(),
        Kind::WHann => 0.5 * (1.0 - th.cos()),
        Kind::WHamm => 0.54 - 0.46 * th.cos(),
        Kind::WBlack => 0.42 - 0.5 * th.cos() + 0.08 * (2.0 * th).cos(),
        _ => 0.35875 - 0.48829 * th.cos() + 0.14128 * (2.0 * th).cos() - 0.01168 * (3.0 * th).cos(),
    }
}

/// A delay line as what it is to its user: a log of inputs, newest last, and a delay.
pub struct Line { pub log: Vec<f64>, pub max: usize, pub d: f64, pub linear: bool }
impl Line {
    pub fn new(linear: bool, d: f64, max: usize) -> Line {
        let mut l = Line { log: vec![0.0; max + 1], max, d: 0.0, linear };
        l.set_delay(d);
        l
    }
    pub fn clip(&self, d: f64) -> f64 {
        if self.linear { let d = d as f32 as f64; if d.is_nan() { d } else { d.min(self.max as f64).max(0.0) } }
        else { (crate::unit::us(d).min(self.max)) as f64 }
    }
    pub fn set_delay(&mut self, d: f64) { self.d = self.clip(d) }
    pub fn grow(&mut self, n: usize) {
        if n <= self.max { return; }
        let keep = self.log.len() - (self.max + 1);
        let mut v = vec![0.0; n - self.max];
        v.extend_from_slice(&self.log[keep..]);
        self.log = v;
        self.max = n;
    }
    pub fn clear(&mut self) { for v in self.log.iter_mut() { *v = 0.0 } }
    pub fn at(&self, k: usize) -> f64 { self.log[self.log.len() - 1 - k] }
    pub fn put(&mut self, k: usize, v: f64) { let n = self.log.len(); self.log[n - 1 - k] = v }
    pub fn push(&mut self, x: f64) {
        if self.log.len() > 4 * (self.max + 1) + 4096 { let k = self.log.len() - (self.max + 1); self.log.drain(..k); }
        self.log.push(x)
    }
    /// (expected value, allowed error) of reading `off` samples before the newest at the current delay; None: unspecified
    pub fn out(&self, off: usize, eps: f64, tiny: f64) -> Option<(f64, f64)> {
        if self.d.is_nan() { return None; }
        if !self.linear { return Some((self.at(self.d as usize - off), 0.0)); }
        let up = self.d.ceil();
        let al = up - self.d;
        let k = up as usize;
        let p = self.at(k - off);
        if k <= off { // delay zero: implementations may multiply a neighbour by a zero weight
            if !p.is_finite() || !self.at(self.max).is_finite() || !self.at(1.min(self.max)).is_finite() { return None; }
            return Some((p, 4.0 * eps * p.abs() + 4.0 * tiny));
        }
        let q = self.at(k - off - 1);
        if !p.is_finite() || !q.is_finite() { return None; }
        Some((p * (1.0 - al) + q * al, 8.0 * eps * (p.abs() + q.abs()) + 2.4e-7 * (p - q).abs() + 4.0 * tiny))
    }
}
