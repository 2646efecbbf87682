//! The simulated host: a discrete-event simulation (simulated nanoseconds, total order by
//! (time, sequence)) of everything that drives rasp in a deployment: the audio callback with its
//! jitter, stalls, dropped and repeated buffers; control surfaces talking over a lossy, reordering,
//! duplicating channel; observers; tap clients; a supervisor; memory pressure; crashes.
//! Its output is the explicit list of delivered events, so executing a run needs no randomness.
use crate::model;
use crate::rng::{hash2, Rng};
use crate::trace::*;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

#[derive(Clone)]
enum Msg { Audio(u8), Knob(u8), Deliver(u8, Ev), Look(u8), Tap(u8), Reset(u8), Grow(u8), GrowNo(u8), Arm(u8), MemOn, MemOff, Frame(u8), Probe(u8) }

#[derive(Clone)]
pub struct Cfg {
    pub kinds: Vec<Kind>,
    pub precs: Vec<Prec>,
    pub units: usize,
    pub knob: f64, pub look: f64, pub tap: f64, pub reset: f64, pub grow: f64, pub growno: f64, pub arm: f64, pub mem: f64, pub frame: f64, pub probe: f64,
    pub corrupt: f64, pub garbage: f64, pub loss: f64, pub dup: f64, pub stall: f64, pub drop: f64, pub repeat: f64,
    pub block_mode: f64,
    pub max_ev: usize,
    pub max_samples: usize,
    pub waves: u8, // 0 general, 1 delay lines, 2 filters (wide magnitude), 3 envelopes, 4 tame
    pub knobs: u8, // 0 general (some unstable), 1 stable only
    pub big: bool,
}
struct Trk { spec: Spec, max: usize, coef: Vec<f64>, counter: u64, recent: Vec<Vec<f64>> }

struct Host { rng: Rng, q: BinaryHeap<Reverse<(u64, u64, usize)>>, msgs: Vec<Msg>, now: u64, seq: u64, stats: BTreeMap<&'static str, u64> }
impl Host {
    fn at(&mut self, t: u64, m: Msg) { self.seq += 1; self.msgs.push(m); self.q.push(Reverse((t, self.seq, self.msgs.len() - 1))) }
    fn after(&mut self, mean: f64, m: Msg) {
        let d = (-(1.0 - self.rng.unit()).ln() * mean).max(1.0) as u64;
        self.at(self.now + d, m)
    }
    fn count(&mut self, k: &'static str) { *self.stats.entry(k).or_insert(0) += 1 }
}

pub fn pick_max(r: &mut Rng, big: bool) -> usize {
    match r.below(100) {
        0..=39 => r.below(9),
        40..=64 => { let p = 1usize << r.range(3, 9); (p + r.below(3)).saturating_sub(1) }
        65..=80 => r.below(300),
        81..=84 => r.pick(&[10, 20, 50, 60, 96, 100, 120, 192, 200, 240, 300, 384, 400, 441, 480, 500, 882, 960, 1000, 1200, 2000, 2205, 2400]),
        85..=96 => { let p = 1usize << r.range(9, 12); (p + r.below(3)).saturating_sub(1) }
        _ => if big { if r.chance(0.3) { r.pick(&[4410, 4800, 5000, 8000, 10000, 12000, 16000, 20000, 22050, 24000, 32000, 44100, 48000]) } else if r.chance(0.5) { r.range(4000, 9000) } else { let p = 1usize << r.range(13, 16); (p + r.below(3)).saturating_sub(1) } } else { r.below(40) },
    }
}
fn bad_value(r: &mut Rng) -> f64 {
    match r.below(10) { 0 | 1 => f64::NAN, 2 => f64::INFINITY, 3 => f64::NEG_INFINITY, 4 => 1e30, 5 => -3e37, 6 => 1e300, 7 => -0.0, 8 => 1e-42,
        _ => f32::from_bits(r.next() as u32) as f64 }
}
fn finite_bad(r: &mut Rng) -> f64 { let m = 10f64.powf(r.uni(0.0, 6.0)); if r.chance(0.5) { m } else { -m } }

fn wave(r: &mut Rng, cfg: &Cfg, t: &mut Trk, n: usize) -> Wave {
    let seed = r.next() >> 16;
    let f32ish = t.spec.prec == Prec::F32;
    match cfg.waves {
        1 => {
            if t.spec.kind == Kind::Delay && r.chance(0.85) { let s = t.counter; t.counter += n as u64 + 1; return Wave { kind: COUNTER, amp: 1.0, seed: s }; }
            let k = r.pick(&[NOISE, NOISE, NOISE, NOISE, IMPULSE, ALT, RAMP, SPARSE, EXOTIC]);
            Wave { kind: k, amp: if k == EXOTIC { 3.0 } else { r.pick(&[1.0, 1.0, 0.01, 100.0]) }, seed }
        }
        2 => match r.below(10) {
            0..=4 => Wave { kind: r.pick(&[NOISE, NOISE, NOISE, SINE, ALT, RAMP, SPARSE, STEP]), amp: r.logu(1e-3, 1e3), seed },
            5 => Wave { kind: NOISE, amp: if f32ish { r.logu(1e-40, 1e-30) } else { r.logu(1e-310, 1e-290) }, seed },
            6 => Wave { kind: EXOTIC, amp: if f32ish { 12.0 } else { 60.0 }, seed },
            7 => Wave { kind: NOISE, amp: if f32ish { 1e15 } else { 1e100 }, seed },
            8 => Wave { kind: r.pick(&[DC, IMPULSE, SILENCE]), amp: r.uni(-2.0, 2.0), seed },
            _ => Wave { kind: NOISE, amp: r.logu(1e-25, 1e-3), seed },
        },
        3 => match r.below(10) {
            0..=4 => Wave { kind: r.pick(&[NOISE, SINE, ALT, RAMP, SPARSE, STEP]), amp: r.logu(1e-3, 1e2), seed },
            5 | 6 => Wave { kind: DC, amp: r.pick(&[0.5, -0.5, 1.0, -1.0, 0.25, 3.0, 0.0]), seed },
            7 => Wave { kind: EXOTIC, amp: if f32ish { 8.0 } else { 40.0 }, seed },
            8 => Wave { kind: NOISE, amp: r.logu(1e-15, 1e-3), seed },
            _ => Wave { kind: r.pick(&[IMPULSE, SILENCE]), amp: 1.0, seed },
        },
        4 => Wave { kind: r.pick(&[NOISE, NOISE, SINE, ALT, STEP, SPARSE]), amp: 1.0, seed },
        _ => match r.below(10) {
            0..=5 => Wave { kind: r.pick(&[NOISE, NOISE, SINE, ALT, RAMP, SPARSE, STEP]), amp: r.logu(1e-2, 1e2), seed },
            6 => Wave { kind: EXOTIC, amp: 10.0, seed },
            7 => Wave { kind: SILENCE, amp: 0.0, seed },
            8 => Wave { kind: DC, amp: if r.chance(0.5) { r.pick(&[1.0, -1.0, 0.5, -0.5, 0.25, 0.1, 2.0]) } else { r.uni(-1.0, 1.0) }, seed },
            _ => { let s = t.counter; t.counter += n as u64 + 1; Wave { kind: COUNTER, amp: 1.0, seed: s } }
        },
    }
}
/// halves, quarters, powers of two and round numbers
fn round_delay(r: &mut Rng, max: usize) -> f64 {
    let d = match r.below(6) { 0 => max / 2, 1 => (max + 1) / 2, 2 => max / 4, 3 => 1 << r.below(14), 4 => 10 * r.below(60), _ => r.pick(&[48, 96, 100, 240, 441, 480, 1000, 2205, 2400, 4410, 4800, 10000, 11025, 12000, 22050, 24000]) };
    (if d > max { r.below(max + 1) } else { d }) as f64
}
pub fn delay_value(r: &mut Rng, linear: bool, max: usize, garbage: bool) -> f64 {
    let m = max as f64;
    if linear {
        if garbage { return f64::NAN; }
        match r.below(16) {
            0 => 0.0, 1 => 1.0, 2 => m, 3 => m - 1.0, 4 => m + 1.0, 5 => r.pick(&[-1.0, -0.25, -1e9, f64::NEG_INFINITY, -0.0]), 6 => r.pick(&[f64::INFINITY, 1e30, 2.0 * m + 3.0]),
            7 => r.logu(1e-12, 1e-2), 8 => r.below(max + 1) as f64 + r.logu(1e-7, 1e-2), 9 => (r.below(max + 1) as f64 - r.logu(1e-7, 1e-2)).max(0.0),
            10 => if r.chance(0.5) { r.below(max + 1) as f64 } else { round_delay(r, max) }, 11 => r.below(max + 1) as f64 + 0.5, 12 => m - r.unit(), 13 => r.unit(),
            _ => r.uni(0.0, m),
        }
    } else {
        match r.below(12) {
            0 => 0.0, 1 => 1.0, 2 => m, 3 => (m - 1.0).max(0.0), 4 => m + 1.0, 5 => r.pick(&[2.0 * m + 3.0, 1e9, 1.8e19, 1.9e19]),
            // sizes whose low 8, 16, 31, 32 or 40 bits alone would be a possible delay
            7 => round_delay(r, max),
            6 => 2f64.powi(r.pick(&[8, 16, 31, 32, 33, 40, 52])) + r.below(max + 1) as f64,
            _ => r.below(max + 1) as f64,
        }
    }
}
fn length_value(r: &mut Rng, garbage: f64) -> f64 {
    if r.chance(garbage) { return r.pick(&[0.0, -0.0, -1.0, -0.5, -100.0, -1e-3, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1e30, -1e-300]); }
    match r.below(8) { 0 => r.logu(1e-3, 1.0), 1 => r.pick(&[1.0, 2.0, 10.0, 441.0, 882.0, 8820.0, 0.1, 0.5, 3.0, 5.0, 20.0, 48.0, 50.0, 64.0, 100.0, 128.0, 200.0, 256.0, 480.0, 500.0, 512.0, 1000.0, 1024.0, 2205.0, 4410.0, 4800.0, 10000.0, 22050.0, 44100.0, 48000.0, 96000.0]), 2 => r.logu(1e4, 1e7), 3 => r.pick(&[1e-30, 1e30, 1e-320]), _ => r.logu(1.0, 3000.0) }
}
fn alpha_value(r: &mut Rng, garbage: f64, stable: bool) -> f64 {
    if r.chance(garbage) { return r.pick(&[1.0, 1.0000001, 1.5, 2.0, 1e9, -1e-9, -0.01, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); }
    if stable { return r.uni(0.0, 0.998); }
    match r.below(7) { 5 => r.pick(&[0.1, 0.2, 0.25, 0.3, 0.4, 0.6, 0.7, 0.75, 0.8, 0.9, 0.95, 0.99, 0.999, 0.9999, 0.9999999]), 0 => 0.0, 1 => 0.5, 2 => 0.99999, 3 => r.logu(1e-9, 1e-2), 4 => -0.0, _ => r.unit() }
}
pub fn poles(r: &mut Rng, rmax: f64) -> (f64, f64) {
    // a1, a2 of a stable pair
    if r.chance(0.3) { let (p, q) = (r.uni(-rmax, rmax), r.uni(-rmax, rmax)); (-(p + q), p * q) }
    else { let m = rmax * r.unit().sqrt(); let th = r.uni(0.0, std::f64::consts::PI); (-2.0 * m * th.cos(), m * m) }
}
fn basic_coefs(r: &mut Rng, k: Kind, stable: bool, garbage: f64) -> Vec<f64> {
    if r.chance(garbage) { let n = k.ncoef(); return (0..n).map(|_| if r.chance(0.4) { bad_value(r) } else { r.uni(-1.0, 1.0) }).collect(); }
    let g = |r: &mut Rng| if stable { r.uni(-1.5, 1.5) } else { match r.below(8) { 0 => 0.0, 1 => 1.0, 2 => -1.0, 3 => r.logu(1e-6, 1e-2), 4 => if r.chance(0.3) { let v = r.logu(20.0, 1e6); if r.chance(0.5) { v } else { -v } } else { r.uni(-20.0, 20.0) }, _ => r.uni(-2.0, 2.0) } };
    let (a1, a2) = if stable || r.chance(0.8) { poles(r, if stable { 0.985 } else { 1.0 }) } else { (r.uni(-2.5, 2.5), if r.chance(0.3) { r.pick(&[1.0, -1.0]) } else { r.uni(-1.5, 1.5) }) };
    let p = if stable { r.uni(-0.985, 0.985) } else if r.chance(0.1) { r.pick(&[1.0, -1.0]) } else { r.uni(-1.1, 1.1) };
    // hand-made tunings: round numbers, absent terms, terms that are equal or opposite
    if r.chance(0.2) {
        let (p, a1, a2) = match r.below(6) { 4 => (0.0, r.pick(&[1.0, -1.0, 1.25, -1.25]), r.pick(&[0.5, 0.75])), 5 => (r.pick(&[0.25, -0.25]), r.pick(&[0.25, -0.25, 0.0]), r.pick(&[0.25, -0.25, 0.0])), 0 => (0.0, 0.0, r.pick(&[0.5, 0.25, -0.5, 0.81, -0.25])), 1 => (r.pick(&[0.5, -0.5, 0.9, -0.9, 0.25]), r.pick(&[0.5, -0.5, 0.9, -0.9]), 0.0),
            2 => (-0.75, 0.5, 0.5), _ => (0.75, -0.5, 0.25) };
        let v = r.pick(&[1.0, 0.5, -1.0, 2.0, 0.25, -0.5]);
        let (b0, b1, b2) = match r.below(7) { 0 => (v, v, v), 1 => (v, 0.0, -v), 2 => (v, 2.0 * v, v), 3 => (v, 0.0, 0.0), 4 => (0.0, v, 0.0), 5 => (0.0, 0.0, v), _ => (v, -v, 0.0) };
        return match k { Kind::OnePole => vec![b0, p], Kind::OneZero => vec![b0, b1], Kind::TwoPole => vec![b0, a1, a2], Kind::TwoZero => vec![b0, b1, b2], _ => vec![b0, b1, b2, a1, a2] };
    }
    match k {
        Kind::OnePole => vec![g(r), p], Kind::OneZero => vec![g(r), g(r)],
        Kind::TwoPole => vec![g(r), a1, a2], Kind::TwoZero => vec![g(r), g(r), g(r)],
        _ => vec![g(r), g(r), g(r), a1, a2],
    }
}
pub fn rbj_params(r: &mut Rng, k: Kind, prec: Prec, stable: bool) -> Vec<f64> {
    loop {
        let sr = match r.below(6) { 0 => 44100.0, 1 => 48000.0, 2 => 96000.0, 3 => 192000.0, 4 => r.pick(&[8000.0, 11025.0, 16000.0, 22050.0, 32000.0, 88200.0, 176400.0, 384000.0, 1.0, 2.0]), _ => r.uni(1.0, 100000.0).floor().max(1.0) };
        let w = match r.below(8) { 0 => 0.5 * r.pick(&[0.5, 0.25, 0.999, 0.001]), 1 => r.logu(1e-4, 0.02), 2 => r.uni(0.47, 0.4999), _ => r.logu(0.002, 0.499) };
        let mut f = sr * w;
        if r.chance(0.2) { let g = r.pick(&[0.5, 1.0, 1.0, 1.0, 2.0, 5.0, 10.0, 20.0, 50.0, 60.0, 80.0, 100.0, 120.0, 150.0, 200.0, 250.0, 300.0, 400.0, 440.0, 500.0, 800.0, 880.0, 1000.0, 1200.0, 1500.0, 2000.0, 3000.0, 4000.0, 5000.0, 8000.0, 10000.0, 11025.0, 12000.0, 15000.0, 16000.0, 18000.0, 20000.0, sr / 3.0, sr / 6.0, sr / 8.0, sr / 12.0]); if g < sr * 0.4999 && g > sr * 1e-4 { f = g } }
        let q = match r.below(6) { 5 => r.pick(&[0.1, 0.25, 0.3, 0.4, 0.5, 0.6, 0.7, 0.707, std::f64::consts::FRAC_1_SQRT_2, 0.8, 0.9, 1.2, 1.41, std::f64::consts::SQRT_2, 1.5, 2.0, 3.0, 4.0, 5.0, 8.0, 10.0, 12.0, 20.0, 50.0, 100.0]), 0 => 0.7071, 1 => 1.0, 2 => r.logu(0.02, 200.0), _ => r.logu(0.2, 20.0) };
        let gain = match r.below(6) { 5 => r.pick(&[-60.0, -40.0, -30.0, -24.0, -20.0, -18.0, -15.0, -12.0, -10.0, -9.0, -6.0, -6.02, -5.0, -4.0, -3.0, -2.0, -1.0, -0.5, -0.1, -0.0, 0.1, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 6.0, 6.02, 8.0, 9.0, 10.0, 12.0, 15.0, 18.0, 20.0, 24.0, 30.0, 40.0, 60.0]), 0 => 0.0, 1 => r.uni(-60.0, 60.0), _ => r.uni(-24.0, 24.0) };
        let mut slope = match r.below(7) { 6 => r.pick(&[0.1, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.7, 0.75, 0.8, 0.9, 0.95, 0.99]), 0 | 1 => 1.0, 2 => r.uni(1.0, 4.0), _ => r.uni(0.05, 1.0) };
        while !model::slope_ok(gain, slope * 1.001) && slope > 1.0 { slope = (1.0 + (slope - 1.0) * 0.5).max(1.0); if slope < 1.0001 { slope = 1.0 } }
        let p = match k { Kind::LowShelf | Kind::HighShelf => vec![sr, f, gain, slope], Kind::PeakEq => vec![sr, f, gain, q], _ => vec![sr, f, q] };
        let p: Vec<f64> = if prec == Prec::F32 { p.iter().map(|v| *v as f32 as f64).collect() } else { p };
        if p[1] <= 0.0 || p[1] * 2.0 >= p[0] { continue; }
        if stable {
            let c = model::cookbook_n(k, &p);
            if model::radius(c[3], c[4]) > 0.99 || w < 0.003 || model::tuning_scale(k, &p) > 1e4 { continue; }
        }
        return p;
    }
}
fn knob(r: &mut Rng, cfg: &Cfg, t: &mut Trk) -> Option<Ev> {
    let k = t.spec.kind;
    let stable = cfg.knobs == 1;
    let set = |which: u8, v: f64| Some(Ev::Set { which, a: vec![v] });
    // control surfaces repeat themselves: sometimes resend a value set earlier
    if !t.recent.is_empty() && (k.is_rbj() || k.is_basic()) && r.chance(0.2) {
        let a = t.recent[r.below(t.recent.len())].clone();
        t.coef = a.clone();
        return Some(Ev::Set { which: S_COEF, a });
    }
    let g = cfg.garbage;
    let ev = match k {
        Kind::Leaky => return set(S_ALPHA, alpha_value(r, g, stable)),
        Kind::Peak | Kind::Rms => { let v = length_value(r, g); return set(if r.chance(0.5) { S_ATTACK } else { S_RELEASE }, v) }
        Kind::Delay => return set(S_DELAY, delay_value(r, false, t.max, false)),
        Kind::LinDelay => { let gb = r.chance(g * 0.5); return set(S_DELAY, delay_value(r, true, t.max, gb)) }
        k if k.is_rbj() => {
            let mut p = rbj_params(r, k, t.spec.prec, stable);
            if r.chance(g) { let i = r.below(p.len()); p[i] = bad_value(r); }
            p
        }
        k if k.is_basic() => {
            if !stable && r.chance(0.35) {
                let f = match k { Kind::OnePole => r.pick(&[1u8, 4]), Kind::OneZero => r.pick(&[1, 2]), Kind::TwoPole => r.pick(&[1, 4, 5]), Kind::TwoZero => r.pick(&[1, 2, 3]), _ => r.pick(&[1, 2, 3, 4, 5]) };
                let v = if r.chance(0.2) { r.pick(&[0.0, 0.5, -0.5, 0.25, -0.25, 0.75, -0.75, -0.0]) + if f < 4 { r.pick(&[0.0, 1.0, -1.0, 0.5, -0.5]) } else { 0.0 } } else if f >= 4 { r.uni(-0.9, 0.9) } else { r.uni(-2.0, 2.0) };
                return set(f, v);
            }
            basic_coefs(r, k, stable, g)
        }
        _ => return None,
    };
    t.coef = ev.clone();
    if ev.iter().all(|v| v.is_finite()) && t.recent.len() < 4 { t.recent.push(ev.clone()); }
    Some(Ev::Set { which: S_COEF, a: ev })
}
pub fn tap_k(r: &mut Rng, max: usize) -> i64 {
    match r.below(8) { 0 => 0, 1 => 1, 2 => -1, 3 => -2, _ => r.below(max + 1) as i64 }
}
fn tap_val(r: &mut Rng, t: &mut Trk) -> f64 {
    if r.chance(0.15) { return r.pick(&[1.0, -1.0, 1.0, 0.0, -0.0, 0.5, -0.5, 2.0, -2.0]) }
    if t.spec.kind == Kind::Delay { t.counter += 1; (t.counter % 8_000_000) as f64 } else { r.uni(-1.0, 1.0) }
}

pub fn defaults() -> Cfg {
    Cfg { kinds: PROCS.to_vec(), precs: vec![Prec::F32, Prec::F64], units: 1, knob: 0.6, look: 0.0, tap: 0.3, reset: 0.1, grow: 0.05, growno: 0.0, arm: 0.0, mem: 0.0, frame: 0.0, probe: 0.0,
        corrupt: 0.05, garbage: 0.1, loss: 0.05, dup: 0.05, stall: 0.03, drop: 0.02, repeat: 0.02, block_mode: 0.5, max_ev: 40, max_samples: 4000, waves: 0, knobs: 0, big: false }
}

/// Simulate the host and return the delivered events.
pub fn simulate(prop: &str, seed: u64, run: u64, mut cfg: Cfg) -> Scenario {
    let mut r = Rng::new(hash2(seed ^ prop.bytes().fold(0u64, |a, b| a * 131 + b as u64), run));
    // swarm: each run enables a random subset of everything at random rates
    for f in [&mut cfg.knob, &mut cfg.look, &mut cfg.tap, &mut cfg.reset, &mut cfg.grow, &mut cfg.growno, &mut cfg.mem] {
        if r.chance(0.2) { *f *= 0.0 } else { *f *= r.logu(0.3, 3.0) }
    }
    for f in [&mut cfg.corrupt, &mut cfg.garbage, &mut cfg.loss, &mut cfg.dup, &mut cfg.stall, &mut cfg.drop, &mut cfg.repeat] {
        if r.chance(0.4) { *f = 0.0 } else { *f = (*f * r.logu(0.5, 4.0)).min(0.6) }
    }
    if r.chance(0.3) { cfg.block_mode = r.pick(&[0.0, 1.0]) }
    let sr = r.pick(&[44100.0, 48000.0, 96000.0, 8000.0]);
    let max_ev = match r.below(10) { 0 | 1 => r.range(3, 10), 9 => cfg.max_ev * 3, _ => r.range(6, cfg.max_ev.max(7)) };
    let huge = r.chance(if cfg.big { 0.03 } else { 0.006 });
    let max_samples = if huge { cfg.max_samples * 60 } else { cfg.max_samples };
    let period_block = r.pick(&[1usize, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64, 100, 128, 256, 441, 512, 1024, 5, 10, 24, 48, 96, 144, 160, 192, 240, 320, 384, 480, 500, 576, 882, 960, 1000, 1152, 2048]);
    let jitter = r.below(4);
    let period = period_block as f64 / sr * 1e9;
    let mut h = Host { rng: r, q: BinaryHeap::new(), msgs: vec![], now: 0, seq: 0, stats: BTreeMap::new() };
    let mut trks: Vec<Trk> = vec![];
    let mut evs: Vec<(u8, Ev)> = vec![];
    for u in 0..cfg.units {
        let kind = { let ks = cfg.kinds.clone(); h.rng.pick(&ks) };
        let prec = { let ps = cfg.precs.clone(); h.rng.pick(&ps) };
        let mut spec = Spec { kind, prec, init: [0.0, 0.0] };
        let mut max = 0;
        if kind.is_line() {
            max = pick_max(&mut h.rng, huge);
            spec.init = [delay_value(&mut h.rng, kind == Kind::LinDelay, max, false), max as f64];
        } else if kind.is_win() {
            let n = if huge { h.rng.pick(&[2047, 2048, 4095, 4096, 4097, 8193, 32768, 65535, 65536, 65537, 100_003]) } else { 0 };
            let n = if n > 0 { n } else { match h.rng.below(10) { 0 => h.rng.below(3), 1..=5 => h.rng.range(2, 20), 6 => if h.rng.chance(0.7) { 1 << h.rng.range(3, 10) } else { h.rng.pick(&[10, 20, 25, 48, 50, 100, 160, 192, 200, 240, 250, 300, 320, 400, 441, 480, 500, 576, 882, 960, 1000, 1152]) }, 7 => (1 << h.rng.range(3, 10)) + 1, _ => h.rng.range(2, 400) } };
            spec.init = [n as f64, 0.0];
        }
        let c0 = h.rng.below(1000) as u64;
        trks.push(Trk { spec, max, coef: vec![], counter: c0, recent: vec![] });
        let u = u as u8;
        // initial tuning (most hosts set parameters before starting the stream)
        if h.rng.chance(0.75) || cfg.knobs == 1 {
            let n = if kind.is_env() { 2 } else { 1 };
            for _ in 0..n { if let Some(e) = knob(&mut h.rng, &cfg, &mut trks[u as usize]) { evs.push((u, e)); } }
        }
        h.at(0, Msg::Audio(u));
        let act: [(f64, Msg); 9] = [(cfg.knob, Msg::Knob(u)), (cfg.look, Msg::Look(u)), (if kind.is_line() { cfg.tap } else { 0.0 }, Msg::Tap(u)), (cfg.reset, Msg::Reset(u)),
            (if kind.is_line() { cfg.grow } else { 0.0 }, Msg::Grow(u)), (if kind.is_line() { cfg.growno } else { 0.0 }, Msg::GrowNo(u)), (cfg.arm, Msg::Arm(u)), (cfg.frame, Msg::Frame(u)), (cfg.probe, Msg::Probe(u))];
        for (rate, m) in act { if rate > 0.0 { h.after(period / rate, m); } }
    }
    if cfg.mem > 0.0 { h.after(period / cfg.mem, Msg::MemOn); }
    let mut samples = 0usize;
    let mut last_blk: Vec<Option<Ev>> = vec![None; cfg.units];
    while let Some(Reverse((t, _, i))) = h.q.pop() {
        h.now = t;
        if evs.len() >= max_ev || samples >= max_samples { break; }
        match h.msgs[i].clone() {
            Msg::Audio(u) => {
                let tr = &mut trks[u as usize];
                let m = tr.max;
                let r = &mut h.rng;
                let mut n = match r.below(12) {
                    0 => 0, 1 => 1, 2 => r.below(5),
                    3 if tr.spec.kind.is_line() => r.pick(&[m.saturating_sub(1), m, m + 1, m + 2]),
                    4 if tr.spec.kind.is_line() => r.below(2 * m + 2),
                    5 => r.below(70),
                    _ => match jitter { 0 => period_block, 1 => period_block + r.below(period_block + 1), 2 => r.below(2 * period_block + 1), _ => r.range(1, period_block) },
                };
                if huge && r.chance(0.3) { n = if tr.spec.kind.is_line() { r.below(2 * m + 2) } else { r.logu(500.0, 40000.0) as usize }.min(max_samples / 3); }
                n = n.min(max_samples - samples);
                let w = wave(r, &cfg, tr, n);
                let mut bad = vec![];
                if n > 0 && r.chance(cfg.corrupt) {
                    let c = r.range(1, 3.min(n));
                    for _ in 0..c { let i = r.below(n) as u32; let v = if cfg.knobs == 1 { finite_bad(r) } else { bad_value(r) }; bad.push((i, v)); }
                    bad.sort_by_key(|x| x.0); bad.dedup_by_key(|x| x.0);
                }
                let block = r.chance(cfg.block_mode);
                let ev = Ev::Blk { n: n as u32, w, bad, block };
                if h.rng.chance(cfg.drop) { h.count("buffer_dropped"); }
                else { evs.push((u, ev.clone())); samples += n; }
                if h.rng.chance(cfg.repeat) { if let Some(e) = last_blk[u as usize].clone() { evs.push((u, e)); samples += n; h.count("buffer_repeated"); } }
                last_blk[u as usize] = Some(ev);
                let mut dt = (n.max(1) as f64 / sr * 1e9) as u64;
                if h.rng.chance(cfg.stall) { dt += (period * h.rng.uni(2.0, 30.0)) as u64; h.count("stall"); }
                h.at(t + dt, Msg::Audio(u));
            }
            Msg::Knob(u) => {
                if let Some(e) = knob(&mut h.rng, &cfg, &mut trks[u as usize]) {
                    if h.rng.chance(cfg.loss) { h.count("control_lost"); }
                    else {
                        let before = h.q.len();
                        let d = h.rng.logu(1.0, 4.0 * period + 2.0) as u64;
                        h.at(t + d, Msg::Deliver(u, e.clone()));
                        if h.rng.chance(cfg.dup) { let d2 = h.rng.logu(1.0, 8.0 * period + 2.0) as u64; h.at(t + d2, Msg::Deliver(u, e)); h.count("control_duplicated"); }
                        if before > 0 { h.count("control_sent"); }
                    }
                }
                h.after(period / cfg.knob, Msg::Knob(u));
            }
            Msg::Deliver(u, e) => evs.push((u, e)),
            Msg::Look(u) => { evs.push((u, if trks[u as usize].spec.kind.is_win() { Ev::Len } else { Ev::Poll })); h.after(period / cfg.look, Msg::Look(u)); }
            Msg::Tap(u) => {
                let tr = &mut trks[u as usize];
                let r = &mut h.rng;
                let burst = if r.chance(0.3) { r.range(2, 6) } else { 1 };
                for _ in 0..burst {
                    let k = tap_k(r, tr.max);
                    let v = tap_val(r, tr);
                    let e = match r.below(5) { 0 | 1 => Ev::TapOut(k), 2 | 3 => Ev::TapIn(k, v),
                        _ => if cfg.corrupt > 0.0 && r.chance(cfg.corrupt) { Ev::TapBad(k, bad_value(r), v) }
                            else if cfg.corrupt > 0.0 && r.chance(cfg.corrupt * 0.5) && matches!(prop, "C04" | "C06" | "C07" | "C10") { Ev::AddTo(k, bad_value(r)) }
                            else { Ev::AddTo(k, v) } };
                    evs.push((u, e));
                }
                h.after(period / cfg.tap, Msg::Tap(u));
            }
            Msg::Reset(u) => { evs.push((u, Ev::Clear)); h.after(period / cfg.reset, Msg::Reset(u)); }
            Msg::Grow(u) => {
                let tr = &mut trks[u as usize];
                let r = &mut h.rng;
                let m = tr.max;
                let n = match r.below(10) { 0 => m, 1 => m.saturating_sub(1), 2 => r.below(m + 1), 3 => m + 1, 4 => m + 2, 5 => 2 * m + 1, 6 => (m + 1).next_power_of_two(), 7 => m + r.below(m + 2), _ => m + r.range(1, 40) };
                let n = if huge && r.chance(0.2) { n + r.below(40000) } else { n };
                let n = if n > if huge { 300_000 } else { 20_000 } { m + r.below(3) } else { n };
                tr.max = tr.max.max(n);
                evs.push((u, Ev::Grow(n as u64)));
                h.after(period / cfg.grow, Msg::Grow(u));
            }
            Msg::GrowNo(u) => {
                let m = trks[u as usize].max as u64;
                let r = &mut h.rng;
                let n = match r.below(12) { 0 => u64::MAX, 1 => u64::MAX - 1, 2 => i64::MAX as u64, 3 => (i64::MAX / 4) as u64, 4 => (i64::MAX / 8) as u64 + 3, 5 => 1 << 40, 6 => m + 1, 7 => m + 2, 8 => 2 * m + 2,
                    9 => u64::MAX / 2, 10 => m, _ => m + 1 + r.below(100000) as u64 };
                evs.push((u, Ev::GrowNo(n)));
                h.after(period / cfg.growno, Msg::GrowNo(u));
            }
            Msg::Arm(u) => { let k = if h.rng.chance(0.5) { h.rng.below(12) } else { h.rng.logu(1.0, 400.0) as usize }; evs.push((u, Ev::Arm(k as u64))); h.after(period / cfg.arm, Msg::Arm(u)); }
            Msg::MemOn => { evs.push((0, Ev::Mem(true))); let d = period * h.rng.uni(0.5, 10.0); h.after(d, Msg::MemOff); }
            Msg::MemOff => { evs.push((0, Ev::Mem(false))); h.after(period / cfg.mem, Msg::MemOn); }
            Msg::Frame(u) => {
                let win = h.rng.below(7) as u8;
                let n = match h.rng.below(7) { 6 => h.rng.pick(&[10, 20, 25, 48, 50, 100, 160, 192, 200, 240, 250, 300, 320, 400, 441, 480, 500, 576, 882, 960, 1000, 1152]), 0 => h.rng.below(3), 1 => 1 << h.rng.range(1, 10), 2 if huge => h.rng.pick(&[4096, 4097, 16384, 65536, 65537]), _ => h.rng.below(200) };
                let w = wave(&mut h.rng, &cfg, &mut trks[u as usize], n);
                evs.push((u, Ev::App { win, n: n as u32, w }));
                h.after(period / cfg.frame, Msg::Frame(u));
            }
            Msg::Probe(u) => {
                let n = h.rng.below(40); let at = h.rng.below(n + 3);
                let w = wave(&mut h.rng, &cfg, &mut trks[u as usize], n);
                evs.push((u, Ev::Probe { n: n as u32, at: at as u32, w }));
                h.after(period / cfg.probe, Msg::Probe(u));
            }
        }
    }
    let aux = h.rng.next() >> 8;
    Scenario { prop: prop.into(), seed: run, sr, sim_ns: h.now, aux, units: trks.into_iter().map(|t| t.spec).collect(), evs, sched: vec![],
        host: h.stats.iter().map(|(k, v)| (k.to_string(), *v)).collect() }
}
