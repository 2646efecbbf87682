//! Per-property profiles (what the host does to the system) and oracles (what must hold).
use crate::host::{self, Cfg};
use crate::model::{self, Line};
use crate::rng::{hash2, Rng};
use crate::simf;
use crate::trace::*;
use crate::unit::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PROPS: [&str; 22] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"];

macro_rules! counters { ($($n:ident),* $(,)?) => {
    #[allow(non_camel_case_types)] #[derive(Clone, Copy)] #[repr(usize)] pub enum K { $($n),* , COUNT }
    pub const NAMES: &[&str] = &[$(stringify!($n)),*];
} }
counters!(
    // faults, counted when they actually take effect
    corrupt_sample, corrupt_tap_write, crash_in_operation, crash_armed_not_reached, allocation_refused, growth_size_unrepresentable, build_refused,
    operation_under_memory_exhaustion, garbage_parameter, control_sent, control_lost, control_duplicated, stall, buffer_dropped, buffer_repeated,
    preemption_mid_operation, thread_migration, instance_churn, instance_moved,
    // ordinary events
    samples, blocks, empty_buffers, parameter_changes, growths, clears, polls, tap_ops, window_steps, window_frames,
    // oracle activity
    comparisons, runs_with_faults,
    // reach probes: rare conditions that must not stay at zero
    probe_line_wrapped, probe_grow_after_wrap, probe_delay_changed_after_wrap, probe_prediction_checked, probe_clear_after_nonfinite, probe_crash_first_sample,
    probe_crash_last_sample, probe_crash_in_setter, probe_crash_in_clear, probe_crash_in_growth, probe_growth_ok_after_refusal, probe_spare_capacity_growth,
    probe_heal_checked, probe_decay_checked, probe_settle_checked, probe_retune_midstream, probe_invalid_ignored, probe_attack_and_release_seen,
    probe_iterator_end_repeated, probe_iterator_skip, probe_same_tuning_shared, probe_tap_oldest, probe_denormal, probe_crowd_of_other_instances,
    probe_gigantic_window, probe_random_bits, probe_second_pass, probe_churned_instances, probe_aged_beyond_2_16, probe_aged_beyond_2_24, probe_aged_beyond_2_32,
);

pub struct Violation { pub class: String, pub detail: String, pub ev: usize }
pub struct Ctx { pub c: [u64; K::COUNT as usize], pub ev: usize, pub sched: u64 }
impl Ctx {
    pub fn new() -> Ctx { Ctx { c: [0; K::COUNT as usize], ev: 0, sched: 0 } }
    pub fn n(&mut self, k: K) { self.c[k as usize] += 1 }
    pub fn add(&mut self, k: K, n: u64) { self.c[k as usize] += n }
    pub fn fail<R>(&self, class: &str, detail: String) -> Result<R, Violation> { Err(Violation { class: class.into(), detail, ev: self.ev }) }
}
type R = Result<(), Violation>;

// ------------------------------------------------------------------------------------------ profiles
fn cfg_for(prop: &str, r: &mut Rng) -> Cfg {
    let mut c = host::defaults();
    match prop {
        "C01" => { c.waves = r.pick(&[0, 0, 2]); c.big = true; c.look = 0.1; }
        "C02" => { c.precs = vec![Prec::Sim]; c.arm = 1.0; c.probe = 0.3; c.corrupt = 0.0; c.garbage = 0.02; c.max_samples = 1500; c.block_mode = 1.0; }
        "C03" => { c.look = 2.0; c.waves = r.pick(&[0, 1, 2]); c.reset = 0.2; c.grow = 0.1; }
        "C04" => { c.reset = 0.5; c.look = 0.5; c.garbage = 0.2; c.corrupt = 0.15; c.waves = r.pick(&[0, 2]); c.grow = 0.15; c.big = true; }
        "C05" => { c.precs = vec![Prec::Sim]; c.arm = 0.6; c.grow = 0.2; c.tap = 0.6; c.reset = 0.3; c.look = 0.3; c.max_samples = 2000; }
        "C06" => { c.kinds = LINES.to_vec(); c.waves = 1; c.tap = 0.15; c.grow = r.pick(&[0.0, 0.0, 0.1]); c.look = 0.3; c.knob = 1.0; c.big = true; c.max_ev = 60; }
        "C07" => { c.kinds = LINES.to_vec(); c.waves = 1; c.tap = 2.0; c.grow = r.pick(&[0.0, 0.0, 0.1]); c.look = 0.3; c.big = true; c.max_ev = 80; }
        "C08" => { c.kinds = LINES.to_vec(); c.waves = 1; c.tap = 0.6; c.grow = 0.5; c.big = true; c.max_ev = 50; c.look = 0.2; }
        "C09" => { c.kinds = LINES.to_vec(); c.waves = 1; c.tap = 0.5; c.grow = 0.3; c.growno = 0.7; c.look = 0.2; }
        "C10" => { c.kinds = PROCS.iter().chain(WINS.iter()).copied().collect(); c.units = r.range(1, 4); c.mem = 0.4; c.frame = 0.2; c.look = 0.3; c.reset = 0.2; c.big = true; }
        "C11" => { c.kinds = BASIC.to_vec(); c.waves = 2; c.knob = 1.2; c.garbage = 0.03; c.corrupt = 0.03; c.reset = 0.15; c.max_ev = 60; }
        "C12" => { c.kinds = RBJ.to_vec(); c.waves = r.pick(&[2, 4, 0]); c.knob = 0.5; c.garbage = 0.05; c.corrupt = 0.03; c.reset = 0.15; }
        "C13" => { c.kinds = vec![Kind::Leaky, Kind::Peak, Kind::Rms]; c.waves = 3; c.knob = 1.2; c.garbage = 0.4; c.corrupt = 0.05; c.reset = 0.15; c.max_ev = 60; c.look = 0.1; }
        "C14" => { c.kinds = vec![Kind::Peak, Kind::Rms]; c.waves = 3; c.knob = 0.6; c.knobs = 1; c.garbage = 0.2; }
        "C15" => { c.kinds = vec![Kind::Delay, Kind::LinDelay, Kind::OneZero, Kind::TwoZero]; c.waves = r.pick(&[1, 1, 2]); c.corrupt = 0.3; c.reset = 0.0; c.garbage = 0.05; c.grow = 0.1; c.tap = 0.5; }
        "C16" => { c.kinds = vec![Kind::Leaky, Kind::OnePole, Kind::TwoPole, Kind::Biquad1, Kind::Biquad2]; c.kinds.extend_from_slice(&RBJ); c.waves = 4; c.knobs = 1; c.garbage = 0.0; c.corrupt = 0.3; c.reset = 0.03; c.knob = 0.2; c.max_ev = 16; c.max_samples = 2500; }
        "C17" => { c.kinds = PROCS.iter().chain(WINS.iter()).copied().collect(); c.precs = vec![Prec::Sim, Prec::Sim, Prec::F32, Prec::F64]; c.units = r.range(2, 6); c.waves = r.pick(&[0, 2, 1]); c.max_samples = 1200; c.max_ev = 60; c.arm = 0.05; c.look = 0.3; c.frame = 0.1;
            // instances of one type are the likeliest to share something
            if r.chance(0.4) { let k = r.pick(&c.kinds.clone()); c.kinds = vec![k]; c.precs = if r.chance(0.8) { vec![Prec::Sim] } else { vec![r.pick(&[Prec::F32, Prec::F64])] }; if r.chance(0.6) { c.knob = 4.0; c.max_samples = 300; c.garbage = 0.02; } if r.chance(0.3) { c.corrupt = 0.4; } }
        }
        "C18" => { c.kinds = WINS.to_vec(); c.units = r.range(1, 4); c.look = 1.5; c.frame = 0.8; c.max_samples = 3000; c.max_ev = 60; c.knob = 0.0; c.reset = 0.0; }
        "C19" => { c.kinds = PROCS.iter().chain(WINS.iter()).copied().collect(); c.precs = vec![Prec::F32, Prec::F64, Prec::Sim, Prec::Sim]; c.waves = r.pick(&[0, 1, 2, 2, 3]); c.corrupt = 0.3; c.garbage = 0.3; c.knob = 1.2; c.look = 0.5; c.tap = 0.6; c.grow = 0.15; c.reset = 0.2; c.frame = 0.2; c.big = true; c.max_ev = 60; }
        "C20" => { c.kinds = PROCS.iter().chain(WINS.iter()).copied().collect(); if r.chance(0.4) { c.kinds = LINES.to_vec() } c.precs = vec![Prec::F32, Prec::F64, Prec::Sim, Prec::Sim]; c.waves = r.pick(&[0, 1, 2]); c.knob = 1.0; c.look = 0.3; c.tap = 0.4; c.grow = 0.3; c.growno = 0.2; c.arm = 0.2; c.reset = 0.2; c.frame = 0.2; c.max_samples = 800; }
        "C21" => { c.precs = vec![Prec::F32, Prec::F64, Prec::F64, Prec::Sim]; c.waves = r.pick(&[0, 1, 2]); c.knob = 0.8; c.look = 0.3; c.tap = 0.4; c.grow = 0.1; c.reset = 0.1; c.garbage = 0.05; c.corrupt = 0.02; c.max_ev = 24; c.max_samples = 1500; }
        "C22" => { c.precs = vec![Prec::F32, Prec::F64]; c.waves = r.pick(&[0, 0, 4]); c.knob = 0.8; c.look = 0.3; c.tap = 0.5; c.grow = 0.1; c.reset = 0.1; c.garbage = 0.0; c.corrupt = 0.0; c.frame = 0.2; c.max_ev = 50; }
        _ => {}
    }
    c
}
/// A line longer than a single-precision number can count: sizes, delays and taps about 2^24.
fn giant(sc: &mut Scenario, r: &mut Rng) {
    let lin = r.chance(0.6);
    let base = 1usize << 24;
    let max = base + r.pick(&[0usize, 2, 3, 4, 7, 8, 11, 1020, 1023]); // not where a single-precision number falls short of the maximum
    let s = &mut sc.units[0];
    s.kind = if lin { Kind::LinDelay } else { Kind::Delay };
    s.prec = if r.chance(0.8) { Prec::F32 } else { Prec::F64 };
    let delay = |r: &mut Rng| match r.below(6) { 0 | 1 => max as f64, 2 => (max - r.below(6)) as f32 as f64, 3 => 4.0e9, 4 => r.below(9) as f64 / 2.0, _ => r.below(max) as f64 };
    s.init = [delay(r), max as f64];
    sc.units.truncate(1);
    sc.evs.clear();
    for i in 0..r.range(3, 14) {
        let e = match r.below(8) {
            0 | 1 => Ev::TapIn(-(1 + r.below(5) as i64), 0.25 + i as f64),
            2 => { let d = delay(r); Ev::Set { which: S_DELAY, a: vec![d] } }
            3 | 4 => Ev::Blk { n: r.range(1, 6) as u32, w: Wave { kind: COUNTER, amp: 1.0, seed: r.next() >> 20 }, bad: vec![], block: r.chance(0.5) },
            5 => Ev::TapOut(if r.chance(0.5) { -(1 + r.below(5) as i64) } else { r.below(max) as i64 }),
            6 => Ev::AddTo(if r.chance(0.5) { -(1 + r.below(5) as i64) } else { r.below(max) as i64 }, 0.5),
            _ => Ev::Poll,
        };
        sc.evs.push((0, e));
    }
}
pub fn generate(prop: &str, seed: u64, run: u64) -> Scenario {
    let mut r = Rng::new(hash2(hash2(seed, 0xA5), run) ^ prop.bytes().fold(7u64, |a, b| a * 31 + b as u64));
    let mut sc = host::simulate(prop, seed, run, cfg_for(prop, &mut r));
    let blk = |n: usize, kind: u8, amp: f64, seed: u64| Ev::Blk { n: n as u32, w: Wave { kind, amp, seed }, bad: vec![], block: seed & 1 == 0 };
    match prop {
        "C06" | "C07" if r.chance(0.0003) => giant(&mut sc, &mut r),
        "C14" => {
            // faults stop: hold the level, long enough to settle
            for _ in 0..r.range(1, 3) {
                let amp = r.pick(&[0.0, 0.5, -0.5, 1.0, 2.0, -0.1]);
                let n = r.pick(&[50usize, 200, 1000, 3000]);
                sc.evs.push((0, blk(n, if amp == 0.0 { SILENCE } else if r.chance(0.3) { ALT } else { DC }, amp, r.next() >> 20)));
            }
        }
        "C15" => {
            let max = sc.evs.iter().fold(us(sc.units[0].init[1]), |m, (_, e)| if let Ev::Grow(n) = e { m.max(*n as usize) } else { m });
            let need = max + 4;
            let mut left = need + r.below(40);
            while left > 0 {
                let n = if r.chance(0.3) { left } else { r.range(1, left) };
                let (k, s) = (if r.chance(0.5) { NOISE } else { COUNTER }, r.next() >> 20);
                sc.evs.push((0, blk(n, k, 1.0, s)));
                left -= n;
                if r.chance(0.2) && sc.units[0].kind.is_line() { let d = host::delay_value(&mut r, sc.units[0].kind == Kind::LinDelay, max, false); sc.evs.push((0, Ev::Set { which: S_DELAY, a: vec![d] })); }
            }
        }
        "C16" => {
            let rad = tunings(&sc).iter().map(|t| t.r).fold(0.0, f64::max);
            let n = model::settle(rad.min(0.998), r.pick(&[1e-5, 1e-5, 1e-9, 1e-16, 1e-30, 1e-60])).min(r.pick(&[6000usize, 6000, 20000]));
            sc.evs.push((0, blk(n, NOISE, 1.0, r.next() >> 20)));
            sc.evs.push((0, blk(n, SILENCE, 0.0, r.next() >> 20)));
        }
        "C17" => {
            // several owners, few distinct tunings: sharing is what a leak between instances needs
            let mut pool: Vec<(Kind, Vec<f64>)> = vec![];
            let mut lens: Vec<f64> = vec![];
            let quiet = if r.chance(0.25) { 0.4 } else { 0.0 };
            for i in 0..sc.evs.len() {
                let (u, e) = &mut sc.evs[i];
                if let Ev::Blk { w, .. } = e { if r.chance(quiet) { w.kind = r.pick(&[SILENCE, SILENCE, DC, SPARSE]); } }
                let k = sc.units[*u as usize].kind;
                if let Ev::Set { which: S_COEF, a } = e {
                    let same: Vec<usize> = (0..pool.len()).filter(|j| pool[*j].0 == k || (pool[*j].0.ncoef() == k.ncoef() && pool[*j].0.is_rbj() == k.is_rbj())).collect();
                    if !same.is_empty() && r.chance(0.6) {
                        let j = r.pick(&same);
                        *a = pool[j].1.clone();
                        if r.chance(0.5) { let q = r.below(a.len()); a[q] *= r.pick(&[1.0, 0.5, 2.0, 1.0000001, 0.9999]); }
                    }
                    pool.push((k, a.clone()));
                } else if let Ev::Set { which, a } = e {
                    if *which == S_ALPHA || *which == S_ATTACK || *which == S_RELEASE {
                        if !lens.is_empty() && r.chance(0.6) { let v: f64 = r.pick(&lens); a[0] = v * r.pick(&[1.0, 1.0, 1.0000001, 0.9999, 1.01]); }
                        lens.push(a[0]);
                    }
                }
            }
            let n = if r.chance(0.2) { 0 } else { r.range(1, 120) };
            let mean = r.pick(&[1.5f64, 4.0, 20.0, 150.0]);
            let t = sc.units.len();
            for _ in 0..n { let g = (-(1.0 - r.unit()).ln() * mean) as u32 + 1; sc.sched.push((g, r.below(t) as u8)); }
        }
        "C19" => {
            // any bit pattern as a sample, a parameter, a position in a skip; windows of any size a caller can ask for
            let s = sc.units[0].clone();
            let bits = |r: &mut Rng| if r.chance(0.5) { f32::from_bits(r.next() as u32) as f64 } else { f64::from_bits(r.next()) };
            if s.kind.is_win() && r.chance(0.2) { sc.units[0].init[0] = r.pick(&[1.9e19, 1.8e19, 9.2e18, 9007199254740993.0, 4294967296.0, 4294967295.0, 16777217.0, 1e12]); }
            let vast = s.kind.is_win() && sc.units[0].init[0] > 1e6;
            for i in 0..sc.evs.len() {
                match &mut sc.evs[i].1 {
                    Ev::Blk { n, w, .. } => if r.chance(0.1) { *w = Wave { kind: BITS, amp: if s.prec == Prec::F32 { 32.0 } else { r.pick(&[32.0, 64.0]) }, seed: r.next() >> 16 }; *n = (*n).min(2000); },
                    Ev::Set { which, a } => if r.chance(0.25) { if s.kind.is_line() && *which == S_DELAY && s.kind == Kind::Delay { a[0] = r.pick(&[1.9e19, 1.8e19, 0.0, 4294967296.0, 9.3e18, 1e10]) } else { let q = r.below(a.len()); a[q] = bits(&mut r); } },
                    Ev::App { w, .. } => if r.chance(0.2) { w.kind = BITS; w.amp = 32.0 },
                    _ => {}
                }
            }
            if s.kind.is_win() { for _ in 0..r.below(6) { let k = if vast { r.below(300) as u64 } else { match r.below(4) { 0 => 0, 1 => u64::MAX, 2 => r.next(), _ => r.below(300) as u64 } }; let at = r.below(sc.evs.len() + 1); sc.evs.insert(at, (0, Ev::Nth(k))); } }
        }
        "C21" => {
            let long = crate::driver::PROFILE == "release" && run % 3000 == 7;
            if long {
                // two days of silence at 24 kHz: every counter of 32 bits goes round
                let k = PROCS[(run / 3000) as usize % PROCS.len()];
                if sc.units[0].kind != k { sc.evs.retain(|(_, e)| !matches!(e, Ev::Set { .. } | Ev::Grow(_) | Ev::TapIn(..) | Ev::TapOut(_) | Ev::AddTo(..))); sc.evs.truncate(12); }
                sc.units[0].kind = k;
                sc.units[0].prec = if r.chance(0.5) { Prec::F32 } else { Prec::F64 };
                if k.is_line() { let m = r.range(1, 500) as f64; sc.units[0].init = [(r.unit() * m).floor(), m]; sc.evs.retain(|(_, e)| !matches!(e, Ev::Grow(_))); }
            }
            let s = sc.units[0].clone();
            let max = sc.evs.iter().fold(us(s.init[1]), |m, (_, e)| if let Ev::Grow(n) = e { m.max(*n as usize) } else { m }) as u64;
            for i in 0..if long { 1 } else { r.range(1, 3) } {
                let what = if long { 0 } else { r.pick(&[0u8, 0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 7]) };
                let dm = r.pick(&[30usize, 80, 600]); let d = r.below(dm) as u64;
                let mut n = match r.below(400) { 0..=99 => d, 100..=199 => 1 << r.range(8, 13), 200..=380 => 1 << r.range(14, 16), 381..=396 => (1 << 17) + 100 * d, 397 | 398 => 1 << 20, _ => 1 << 24 };
                // a little less, so that something goes round while there is a signal, or a little more
                if n > 1000 { if r.chance(0.5) { n -= (d + max + 8).min(n / 2) } else { n += d } }
                if s.prec == Prec::Sim || what > 1 { n = n.min(140_000); }
                if what == 2 { n = n.min(30_000_000 / (max + 1)); }
                if what == 6 || what == 7 { if !s.kind.is_line() { n = n.min(300); } }
                if long { n = (1 << 32) + 600 * (r.next() & 1) - d.min(90) - max; }
                let at = if long { r.below(sc.evs.len() / 2 + 1) } else { r.below(sc.evs.len() + 1) };
                if what < 2 { sc.sim_ns += (n as f64 * 1e9 / sc.sr) as u64; }
                sc.evs.insert(at, (0, Ev::Age { what, n }));
                let _ = i;
            }
            let m = (max + 40).min(3000) as usize;
            sc.evs.push((0, blk(m, NOISE, 1.0, r.next() >> 20)));
            sc.evs.push((0, Ev::Poll));
        }
        "C18" => {
            // consumption in other ways than next()
            let mut evs = vec![];
            for (u, e) in sc.evs.drain(..) {
                if r.chance(0.25) { evs.push((u, Ev::Nth(match r.below(11) { 0 | 1 => 0, 2 | 3 => 1, 4 | 5 => r.below(400) as u64, 6 => if r.chance(0.1) { let d = r.below(64) as u64; r.pick(&[u64::MAX, u64::MAX - 1, u64::MAX - d, 1 << 63, 1 << 32, u32::MAX as u64]) } else { 2 }, _ => r.below(12) as u64 }))); }
                evs.push((u, e));
            }
            // half of the runs drain every iterator past its end
            if r.chance(0.5) { for u in 0..sc.units.len() { let n = us(sc.units[u].init[0]) + 3; evs.push((u as u8, blk(n, SILENCE, 0.0, 0))); evs.push((u as u8, Ev::Len)); } }
            sc.evs = evs;
        }
        _ => {}
    }
    sc
}

// ------------------------------------------------------------------------------------------ helpers
pub fn run(sc: &Scenario, cx: &mut Ctx) -> R {
    simf::disarm();
    simf::forget_tags();
    for (k, v) in &sc.host { if let Some(i) = NAMES.iter().position(|n| n == k) { cx.c[i] += v; } }
    let mut faults = sc.host.iter().any(|(k, _)| k != "control_sent") || !sc.sched.is_empty();
    for (u, e) in &sc.evs {
        match e {
            Ev::Blk { n, bad, .. } => { cx.n(K::blocks); cx.add(K::samples, *n as u64); cx.add(K::corrupt_sample, bad.len() as u64); if *n == 0 { cx.n(K::empty_buffers); } faults |= !bad.is_empty(); }
            Ev::Set { a, .. } => { cx.n(K::parameter_changes); if sc.units.get(*u as usize).is_some() && a.iter().any(|v| !v.is_finite()) { cx.n(K::garbage_parameter); faults = true; } }
            Ev::Grow(_) => cx.n(K::growths), Ev::Clear => cx.n(K::clears), Ev::Poll | Ev::Len => cx.n(K::polls),
            Ev::TapOut(_) | Ev::TapIn(..) | Ev::AddTo(..) => cx.n(K::tap_ops),
            Ev::TapBad(..) => { cx.n(K::tap_ops); cx.n(K::corrupt_tap_write); faults = true; }
            Ev::App { .. } => cx.n(K::window_frames), Ev::Nth(_) => cx.n(K::window_steps),
            Ev::GrowNo(_) | Ev::Arm(_) | Ev::Mem(true) | Ev::Probe { .. } => faults = true,
            Ev::Age { what, n } => if *what < 2 { cx.add(K::samples, *n) },
            Ev::Mem(_) => {}
        }
    }
    if faults { cx.n(K::runs_with_faults); }
    if sc.units.is_empty() { return Ok(()); }
    match sc.prop.as_str() {
        "C10" => return c10(sc, cx),
        "C17" => return crate::preempt::c17(sc, cx),
        "C18" => return c18_all(sc, cx),
        _ => {}
    }
    match sc.units[0].prec { Prec::F32 => run_t::<f32>(sc, cx), Prec::F64 => run_t::<f64>(sc, cx), Prec::Sim => run_t::<simf::SimF>(sc, cx) }
}
fn run_t<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    match sc.prop.as_str() {
        "C01" => c01::<T>(sc, cx), "C02" => c02::<T>(sc, cx), "C03" => c03::<T>(sc, cx), "C04" => c04::<T>(sc, cx), "C05" => c05::<T>(sc, cx),
        "C06" | "C07" | "C08" => lines::<T>(sc, cx), "C09" => c09::<T>(sc, cx), "C11" => c11::<T>(sc, cx), "C12" => c12::<T>(sc, cx),
        "C13" => c13::<T>(sc, cx), "C14" => c14::<T>(sc, cx), "C15" => c15::<T>(sc, cx), "C16" => c16::<T>(sc, cx),
        "C19" => c19::<T>(sc, cx), "C20" => c20::<T>(sc, cx), "C21" => c21::<T>(sc, cx), "C22" => c22::<T>(sc, cx),
        p => cx.fail("harness", format!("unknown property {}", p)),
    }
}
pub fn fill<T: Num>(n: u32, w: &Wave, bad: &[(u32, f64)]) -> Vec<T> {
    let mut v: Vec<T> = (0..n as usize).map(|i| T::of(w.at(i))).collect();
    for (i, b) in bad { if (*i as usize) < v.len() { v[*i as usize] = T::of(*b); } }
    v
}
pub fn positions(max: usize, salt: u64) -> Vec<usize> {
    if max <= 300 { return (0..=max).collect(); }
    let mut v = vec![0, 1, 2, max, max - 1, max - 2, max / 2];
    let mut r = Rng::new(salt ^ max as u64);
    for _ in 0..40 { v.push(r.below(max + 1)); }
    v
}
pub static SHIFT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// Apply one event; everything it yields goes to `out`.
pub fn apply<T: Num>(u: &mut Unit<T>, e: &Ev, out: &mut Vec<f64>) {
    let max = u.max_delay();
    match e {
        Ev::Blk { n, w, bad, block } => {
            let mut b: Vec<T> = fill(*n, w, bad);
            if *block {
                // where the buffer lies in memory is the host's business
                let s = SHIFT.load(std::sync::atomic::Ordering::Relaxed);
                if s > 0 { let mut v = vec![T::of(0.0); s]; v.extend_from_slice(&b); b = v; }
                let r = u.process_block(&mut b[s..]);
                out.extend(b[s..].iter().map(|v| v.f())); out.push(r.f());
            }
            else { for v in b { out.push(u.process(v).f()); } }
        }
        Ev::Set { which, a } => u.set(*which, a),
        Ev::Grow(n) => u.grow(*n),
        Ev::Clear => u.clear(),
        Ev::Poll => observe(u, out),
        Ev::TapOut(k) => out.push(u.tap_out(tap_pos(*k, max)).f()),
        Ev::TapIn(k, v) => u.tap_in(T::of(*v), tap_pos(*k, max)),
        Ev::TapBad(k, v, _) => u.tap_in(T::of(*v), tap_pos(*k, max)),
        Ev::AddTo(k, v) => out.push(u.add_to(T::of(*v), tap_pos(*k, max)).f()),
        Ev::Nth(k) => if let Some(w) = u.win() { out.push(w.nth(*k as usize).map_or(-777.0, |v| v.f())) },
        Ev::Len => if let Some(w) = u.win() { out.push(w.len() as f64); out.push(w.size_hint().0 as f64) },
        _ => {}
    }
}
/// Look at everything a unit shows.
pub fn observe<T: Num>(u: &mut Unit<T>, out: &mut Vec<f64>) {
    if let Some(w) = u.win() { out.push(w.len() as f64); return; }
    out.push(u.last_out().f());
    if let Some(v) = u.next_out() {
        out.push(v.f());
        let m = u.max_delay();
        for k in positions(m, 5) { out.push(u.tap_out(k).f()); }
    }
    out.extend_from_slice(&u.getters());
    out.push(u.last_out().f());
}
/// scale of what went through a line, for comparing interpolations made at different positions
struct Tol { amp: f64, linear: bool, odd: bool, nan_delay: bool }
impl Tol {
    fn new(k: Kind) -> Tol { Tol { amp: 0.0, linear: k == Kind::LinDelay, odd: false, nan_delay: false } }
    fn see(&mut self, v: f64) { if v.is_finite() { self.amp = self.amp.max(v.abs()) } else { self.odd = true } }
    fn see_ev<T: Num>(&mut self, e: &Ev) {
        if !self.linear { return; }
        match e {
            Ev::Blk { n, w, bad, .. } => for v in fill::<T>(*n, w, bad) { self.see(v.f()) },
            Ev::TapIn(_, v) | Ev::TapBad(_, v, _) => self.see(T::of(*v).f()),
            Ev::AddTo(_, v) => { let a = self.amp; self.see(T::of(*v).f()); self.amp += a }
            Ev::Set { which: S_DELAY, a } => self.nan_delay = a[0].is_nan(),
            _ => {}
        }
    }
    fn eq(&self, a: f64, b: f64) -> bool {
        if same(a, b) { return true; }
        if !self.linear { return false; }
        if self.nan_delay { return true; }
        if !a.is_finite() || !b.is_finite() { return self.odd; } // 0 * inf next to a corrupt sample
        if self.odd && self.amp > 1e30 { return true; }
        (a - b).abs() <= 1e-6 * self.amp
    }
}
fn cmp(cx: &mut Ctx, class: &str, what: &str, tol: &Tol, a: &[f64], b: &[f64]) -> R {
    if a.len() != b.len() { return cx.fail(class, format!("{}: {} values against {}", what, a.len(), b.len())); }
    for i in 0..a.len() {
        cx.n(K::comparisons);
        if !tol.eq(a[i], b[i]) { return cx.fail(class, format!("{}: value {} of {} is {:e}, expected {:e}", what, i, a.len(), a[i], b[i])); }
    }
    Ok(())
}
fn crashed<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        if p.is::<simf::Crash>() { "crash".into() }
        else if p.is::<crate::alloc::Refused>() { "refused".into() }
        else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
        else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
        else { "panic".into() }
    })
}
fn name(sc: &Scenario) -> String { format!("{} ({:?})", sc.units[0].kind.name(), sc.units[0].prec) }

// ------------------------------------------------------------------------------------------ C01
fn c01<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let (mut a, mut b, mut c) = (Unit::<T>::new(s), Unit::<T>::new(s), Unit::<T>::new(s));
    let mut cut = Rng::new(sc.aux);
    let exact = Tol::new(Kind::Delay);
    let mut step = |cx: &mut Ctx, a: &mut Unit<T>, b: &mut Unit<T>, c: &mut Unit<T>, e: &Ev| -> R {
        match e {
            Ev::Blk { n, w, bad, .. } => {
                let x: Vec<T> = fill(*n, w, bad);
                let mut yb = vec![];
                for v in &x { yb.push(b.process(*v).f()); }
                let want = if x.is_empty() { b.last_out().f() } else { yb[yb.len() - 1] };
                let mut xa = x.clone();
                let ra = match crashed(|| a.process_block(&mut xa).f()) { Ok(v) => v, Err(m) => return cx.fail("block-panics", format!("{}: a buffer of {} samples panics ({}); sample by sample it does not", name(sc), n, m)) };
                let ya: Vec<f64> = xa.iter().map(|v| v.f()).collect();
                cmp(cx, "block-output", &format!("{}: buffer of {} against one sample at a time", name(sc), n), &exact, &ya, &yb)?;
                cmp(cx, "block-return", &format!("{}: value returned for a buffer of {}", name(sc), n), &exact, &[ra], &[want])?;
                // the same stretch cut into random buffers, some empty
                let mut xc = x.clone();
                let mut i = 0;
                let style = cut.below(4);
                let mut parts = 0;
                while i < xc.len() || parts == 0 {
                    let m = match style { 0 => 1, 1 => cut.below(4), 2 => cut.below(70), _ => cut.below(xc.len() + 2) }.min(xc.len() - i);
                    let m = if parts > 4 * xc.len() + 8 { xc.len() - i } else { m };
                    parts += 1;
                    let before = if i == 0 { c.last_out().f() } else { xc[i - 1].f() };
                    let r = match crashed(|| c.process_block(&mut xc[i..i + m]).f()) { Ok(v) => v, Err(t) => return cx.fail("block-panics", format!("{}: a buffer of {} samples panics ({})", name(sc), m, t)) };
                    i += m;
                    let want = if m == 0 { before } else { xc[i - 1].f() };
                    cmp(cx, "block-return", &format!("{}: value returned for a buffer of {}", name(sc), m), &exact, &[r], &[want])?;
                }
                let yc: Vec<f64> = xc.iter().map(|v| v.f()).collect();
                cmp(cx, "partition-output", &format!("{}: {} samples in {} buffers against one sample at a time", name(sc), n, parts), &exact, &yc, &yb)?;
            }
            e => {
                let (mut va, mut vb, mut vc) = (vec![], vec![], vec![]);
                apply(a, e, &mut va); apply(b, e, &mut vb); apply(c, e, &mut vc);
                cmp(cx, "state", &format!("{}: {:?} after buffers", name(sc), e), &exact, &va, &vb)?;
                cmp(cx, "state", &format!("{}: {:?} after buffers", name(sc), e), &exact, &vc, &vb)?;
            }
        }
        let l = b.last_out().f();
        cmp(cx, "state", &format!("{}: last output after buffers", name(sc)), &exact, &[a.last_out().f(), c.last_out().f()], &[l, l])
    };
    for (i, (_, e)) in sc.evs.iter().enumerate() { cx.ev = i; step(cx, &mut a, &mut b, &mut c, e)?; }
    step(cx, &mut a, &mut b, &mut c, &Ev::Poll)?;
    step(cx, &mut a, &mut b, &mut c, &Ev::Blk { n: 24, w: Wave { kind: NOISE, amp: 1.0, seed: sc.aux }, bad: vec![], block: false })
}

// ------------------------------------------------------------------------------------------ C02
/// A processor written by a caller: panics at a chosen sample, remembers what it was handed.
#[cfg(not(feature = "closed"))]
struct Prober { seen: Vec<f64>, at: usize, last: f64 }
#[cfg(not(feature = "closed"))]
impl rasp::traits::Processor<f64> for Prober {
    fn process(&mut self, x: f64) -> f64 {
        self.seen.push(x);
        if self.seen.len() == self.at + 1 { std::panic::resume_unwind(Box::new(simf::Crash)); }
        self.last = 3.0 * x + 1000.0 + self.seen.len() as f64;
        self.last
    }
    fn clear(&mut self) { self.seen.clear(); self.last = 0.0 }
    fn last_out(&self) -> f64 { self.last }
}
#[cfg(feature = "closed")]
fn probe(_: &mut Ctx, _: u32, _: u32, _: &Wave) -> R { Ok(()) }
#[cfg(not(feature = "closed"))]
fn probe(cx: &mut Ctx, n: u32, at: u32, w: &Wave) -> R {
    use rasp::traits::Processor;
    let x: Vec<f64> = fill(n, w, &[]);
    let mut p = Prober { seen: vec![], at: at as usize, last: 0.0 };
    let mut b = x.clone();
    let r = crashed(|| p.process_block(&mut b));
    let j = (at as usize).min(x.len());
    let crash = (at as usize) < x.len();
    match (&r, crash) {
        (Err(m), true) if m == "crash" => { cx.n(K::crash_in_operation); if at == 0 { cx.n(K::probe_crash_first_sample) } if at + 1 == n { cx.n(K::probe_crash_last_sample) } }
        (Ok(_), false) => {}
        (Err(m), _) => return cx.fail("probe-panic", format!("caller's processor, buffer of {}: unexpected panic ({})", n, m)),
        (Ok(_), true) => return cx.fail("probe-swallowed", format!("caller's processor, buffer of {}: the panic at sample {} never arrived (it was handed {} samples)", n, at, p.seen.len())),
    }
    let handed = if crash { j + 1 } else { x.len() };
    if p.seen.len() != handed || p.seen[..] != x[..handed] {
        return cx.fail("probe-handed", format!("caller's processor, buffer of {} crashing at {}: handed {} samples {:?}, expected exactly the first {} in order", n, at, p.seen.len(), &p.seen[..p.seen.len().min(8)], handed));
    }
    for i in 0..x.len() {
        cx.n(K::comparisons);
        let want = if i < j { 3.0 * x[i] + 1000.0 + (i + 1) as f64 } else { x[i] };
        if !same(b[i], want) { return cx.fail("probe-buffer", format!("caller's processor, buffer of {} crashing at sample {}: position {} holds {:e}, expected {} {:e}", n, at, i, b[i], if i < j { "its output" } else { "its input" }, want)); }
    }
    Ok(())
}
fn c02<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let (mut a, mut b) = (Unit::<T>::new(s), Unit::<T>::new(s));
    let mut armed = None;
    let mut dead = false;
    let mut base = 1u32;
    let mut params: Vec<Ev> = vec![];
    for (i, (_, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        match e {
            Ev::Probe { n, at, w } => { probe(cx, *n, *at, w)?; continue; }
            Ev::Arm(k) => { armed = Some(*k); continue; }
            _ => {}
        }
        if let Ev::Blk { n, w, bad, .. } = e {
            if dead {
                // a crashed processor is replaced by a new one
                a = Unit::new(s); b = Unit::new(s);
                for p in &params { let mut o = vec![]; apply(&mut a, p, &mut o); apply(&mut b, p, &mut o); }
                dead = false;
            }
            let x: Vec<f64> = fill::<T>(*n, w, bad).iter().map(|v| v.f()).collect();
            let s0 = simf::steps();
            let y: Vec<f64> = x.iter().map(|v| b.process(T::of(*v)).f()).collect();
            let total = simf::steps() - s0;
            let mut buf: Vec<T> = x.iter().enumerate().map(|(i, v)| T::tagged(*v, base + i as u32)).collect();
            simf::forget_tags();
            // aim most crashes inside the buffer
            if let Some(k) = armed.take() { simf::arm(if total > 0 && k < 300 { hash2(sc.aux, i as u64 * 1000 + k) % (total + total / 8 + 1) } else { k }); }
            let r = crashed(|| { a.process_block(&mut buf); });
            simf::disarm();
            let m = simf::newest() as i64 - base as i64; // newest sample that entered any arithmetic; < 0: none
            base += *n;
            let got: Vec<f64> = buf.iter().map(|v| v.f()).collect();
            match r {
                Ok(()) => { for q in 0..x.len() { cx.n(K::comparisons); if !same(got[q], y[q]) { return cx.fail("no-crash-output", format!("{}: sample {} is {:e}, expected {:e}", name(sc), q, got[q], y[q])); } } }
                Err(msg) if msg == "crash" => {
                    cx.n(K::crash_in_operation);
                    let m = m.max(-1);
                    if m <= 0 { cx.n(K::probe_crash_first_sample) }
                    if m + 1 == x.len() as i64 { cx.n(K::probe_crash_last_sample) }
                    dead = true;
                    let fits = |j: usize| (0..x.len()).all(|q| if q < j { same(got[q], y[q]) } else { same(got[q], x[q]) });
                    cx.add(K::comparisons, x.len() as u64);
                    let lo = (m.max(0) as usize).min(x.len());
                    // a delay line's arithmetic is on samples that entered long ago, so there the tag only bounds from below
                    let hi = if s.kind.is_line() { x.len() } else { ((m + 1) as usize).min(x.len()) };
                    if !(lo..=hi).any(fits) {
                        let good = (0..x.len()).take_while(|q| same(got[*q], y[*q])).count();
                        return cx.fail("torn-buffer", format!("{}: crash while processing sample {} of {}: first {} positions hold their outputs, but the rest is not untouched input from there on (position {} holds {:e}, input {:e}, output {:e})",
                            name(sc), lo, n, good, lo, got.get(lo).copied().unwrap_or(0.0), x.get(lo).copied().unwrap_or(0.0), y.get(lo).copied().unwrap_or(0.0)));
                    }
                }
                Err(msg) => return cx.fail("panic", format!("{}: buffer of {} panics on its own: {}", name(sc), n, msg)),
            }
        } else {
            if matches!(e, Ev::Set { .. } | Ev::Grow(_)) { params.push(e.clone()); }
            if !dead { let mut o = vec![]; apply(&mut a, e, &mut o); apply(&mut b, e, &mut o); }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C03
fn c03<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let (mut a, mut b) = (Unit::<T>::new(s), Unit::<T>::new(s));
    let exact = Tol::new(Kind::Delay);
    let mut latest = 0.0f64;
    let mut predicted: Option<f64> = None;
    let mut wob = Rng::new(sc.aux);
    let chatty = wob.chance(0.5);
    let mut sink = vec![];
    let mut loud = Tol::new(s.kind);
    macro_rules! last { ($u:expr, $when:expr) => { let l = $u.last_out().f(); cx.n(K::comparisons);
        if !same(l, latest) { return cx.fail("last-out", format!("{}: last output reported {} is {:e}, the latest output is {:e}", name(sc), $when, l, latest)); } } }
    macro_rules! predict { () => { if s.kind.is_line() && a.get_delay() >= 1.0 { predicted = a.next_out().map(|v| v.f()); } } }
    macro_rules! verify { ($y:expr) => { if let Some(p) = predicted.take() {
        if s.kind == Kind::Delay || (p.is_finite() && $y.is_finite()) { cx.n(K::comparisons); cx.n(K::probe_prediction_checked);
            // an interpolated prediction may round differently from the output, never more than that
            let slack = if s.kind == Kind::Delay { 0.0 } else { 16.0 * T::EPS * loud.amp + 4.0 * T::TINY };
            if !same(p, $y) && !((p - $y).abs() <= slack) { return cx.fail("next-out", format!("{}: next output was predicted as {:e} with delay {}, then {:e} came", name(sc), p, a.get_delay(), $y)); } } } } }
    last!(a, "when built");
    for (i, (_, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        loud.see_ev::<T>(e);
        match e {
            Ev::Blk { n, w, bad, block } => {
                let x: Vec<T> = fill(*n, w, bad);
                let mut y = vec![];
                if *block && *n > 0 {
                    let mut buf = x.clone();
                    a.process_block(&mut buf);
                    y.extend(buf.iter().map(|v| v.f()));
                    verify!(y[0]);
                    latest = y[y.len() - 1];
                } else {
                    for v in &x {
                        let o = a.process(*v).f();
                        verify!(o);
                        y.push(o);
                        latest = o;
                        if chatty && wob.chance(0.3) { sink.clear(); observe(&mut a, &mut sink); last!(a, "between samples"); predict!(); }
                    }
                }
                let yb: Vec<f64> = x.iter().map(|v| b.process(*v).f()).collect();
                cmp(cx, "observer-effect", &format!("{}: outputs of a watched instance against an unwatched one", name(sc)), &exact, &y, &yb)?;
                last!(a, "after processing"); last!(b, "after processing");
            }
            Ev::Poll => { sink.clear(); observe(&mut a, &mut sink); observe(&mut a, &mut sink); last!(a, "when polled"); predict!();
                if let Some(p) = predicted { let q = a.next_out().unwrap().f(); if !same(p, q) { return cx.fail("next-out", format!("{}: two predictions in a row differ: {:e} then {:e}", name(sc), p, q)); } } }
            Ev::TapOut(_) => { let mut o = vec![]; apply(&mut a, e, &mut o); }
            e => {
                let (mut va, mut vb) = (vec![], vec![]);
                predicted = None;
                apply(&mut a, e, &mut va); apply(&mut b, e, &mut vb);
                cmp(cx, "observer-effect", &format!("{}: {:?} on a watched instance against an unwatched one", name(sc), e), &exact, &va, &vb)?;
                if matches!(e, Ev::Clear) || (s.kind.is_rbj() && matches!(e, Ev::Set { .. })) { latest = 0.0; }
                if s.kind.is_line() { cx.n(K::comparisons); let (g, h) = (a.getters(), b.getters());
                    if g[1] != h[1] || !same(g[0], h[0]) { return cx.fail("observer-effect", format!("{}: parameters {:?} when watched, {:?} when not", name(sc), g, h)); } }
                last!(a, "after a control operation"); last!(b, "after a control operation");
                // a prediction made right after a control operation must hold too
                if wob.chance(0.4) { predict!(); }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C04
fn c04<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let mut a = Unit::<T>::new(s);
    let mut twin: Option<Unit<T>> = None;
    let mut past: Vec<Ev> = vec![];
    let mut tol = Tol::new(s.kind);
    let mut odd = false;
    for (i, (_, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        if let Ev::Clear = e {
            let before = a.getters();
            a.clear();
            let after = a.getters();
            cmp(cx, "clear-parameters", &format!("{}: parameters after clear", name(sc)), &Tol::new(Kind::Delay), &after, &before)?;
            if odd { cx.n(K::probe_clear_after_nonfinite); }
            odd = false;
            let nan = tol.nan_delay;
            tol = Tol::new(s.kind);
            tol.nan_delay = nan;
            let mut f = Unit::<T>::new(s);
            let mut o = vec![];
            for p in &past { apply(&mut f, p, &mut o); }
            let (mut va, mut vf) = (vec![], vec![]);
            observe(&mut a, &mut va); observe(&mut f, &mut vf);
            cmp(cx, "clear-state", &format!("{}: last output, predicted output, taps and parameters right after clear, against a new instance", name(sc)), &tol, &va, &vf)?;
            twin = Some(f);
            continue;
        }
        if matches!(e, Ev::Set { .. } | Ev::Grow(_)) { past.push(e.clone()); }
        tol.see_ev::<T>(e);
        let mut va = vec![];
        apply(&mut a, e, &mut va);
        odd |= va.iter().any(|v| !v.is_finite());
        if let Some(f) = twin.as_mut() {
            let mut vf = vec![];
            apply(f, e, &mut vf);
            cmp(cx, "clear-output", &format!("{}: {} after a clear, against a new instance", name(sc), e.human()), &tol, &va, &vf)?;
            let (la, lf) = (a.last_out().f(), f.last_out().f());
            cmp(cx, "clear-output", &format!("{}: last output after a clear, against a new instance", name(sc)), &tol, &[la], &[lf])?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C05
#[derive(Clone)]
struct Params { coef: Option<Vec<f64>>, alpha: Option<f64>, att: Option<f64>, rel: Option<f64>, delay: Option<f64>, max: Option<u64> }
impl Params {
    fn new() -> Params { Params { coef: None, alpha: None, att: None, rel: None, delay: None, max: None } }
    fn see(&mut self, k: Kind, e: &Ev) {
        match e {
            Ev::Set { which, a } => match *which {
                S_COEF => self.coef = Some(a.clone()),
                S_ALPHA => if a[0] >= 0.0 && a[0] < 1.0 { self.alpha = Some(a[0]) },
                S_ATTACK => if a[0] > 0.0 && a[0].is_finite() { self.att = Some(a[0]) },
                S_RELEASE => if a[0] > 0.0 && a[0].is_finite() { self.rel = Some(a[0]) },
                S_DELAY => self.delay = Some(a[0]),
                f => {
                    let mut c = self.coef.clone().unwrap_or_else(|| { let mut v = vec![0.0; k.ncoef()]; v[0] = 1.0; v });
                    if let Some(i) = field_index(k, f) { c[i] = a[0]; }
                    self.coef = Some(c);
                }
            },
            Ev::Grow(n) => self.max = Some(self.max.unwrap_or(0).max(*n)),
            _ => {}
        }
    }
    fn give<T: Num>(&self, u: &mut Unit<T>) {
        if let Some(c) = &self.coef { u.set(S_COEF, c); }
        if let Some(v) = self.alpha { u.set(S_ALPHA, &[v]); }
        if let Some(v) = self.att { u.set(S_ATTACK, &[v]); }
        if let Some(v) = self.rel { u.set(S_RELEASE, &[v]); }
        if let Some(n) = self.max { u.grow(n); }
        if let Some(v) = self.delay { u.set(S_DELAY, &[v]); }
    }
}
/// position of single field `f` (1..=5: b0 b1 b2 a1 a2) in the argument list of set_coefficients
pub fn field_index(k: Kind, f: u8) -> Option<usize> {
    match (k, f) {
        (Kind::OnePole, 1) => Some(0), (Kind::OnePole, 4) => Some(1),
        (Kind::OneZero, 1) => Some(0), (Kind::OneZero, 2) => Some(1),
        (Kind::TwoPole, 1) => Some(0), (Kind::TwoPole, 4) => Some(1), (Kind::TwoPole, 5) => Some(2),
        (Kind::TwoZero, 1..=3) => Some(f as usize - 1),
        (Kind::Biquad1, 1..=5) | (Kind::Biquad2, 1..=5) => Some(f as usize - 1),
        _ => None,
    }
}
fn c05<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let mut a = Unit::<T>::new(s);
    let mut twin: Option<Unit<T>> = None;
    let mut par = Params::new();
    if s.kind.is_line() { par.delay = Some(s.init[0]); }
    let mut armed: Option<u64> = None;
    let mut tol = Tol::new(s.kind);
    for (i, (_, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        if let Ev::Arm(k) = e { armed = Some(*k); continue; }
        par.see(s.kind, e);
        tol.see_ev::<T>(e);
        let was = armed.take();
        if let Some(k) = was { simf::arm(k); }
        let mut va = vec![];
        let r = crashed(|| apply(&mut a, e, &mut va));
        simf::disarm();
        // without the arithmetic seam nothing can be interrupted; recovery is then asked for after the operation
        let r = if cfg!(feature = "plain") && was.is_some() && r.is_ok() { Err("crash".to_string()) } else { r };
        match r {
            Err(m) if m == "crash" => {
                cx.n(K::crash_in_operation);
                match e { Ev::Set { .. } => cx.n(K::probe_crash_in_setter), Ev::Clear => cx.n(K::probe_crash_in_clear), Ev::Grow(_) => cx.n(K::probe_crash_in_growth), _ => {} }
                // recovery: clear, then every parameter again
                let mut f = Unit::<T>::new(s);
                let n = f.max_delay() as u64;
                if s.kind.is_line() { par.max = Some(par.max.unwrap_or(0).max(n)); }
                if let Err(m) = crashed(|| { a.clear(); par.give(&mut a); }) { return cx.fail("recovery-panics", format!("{}: clearing and re-setting parameters after a crash in {} panics: {}", name(sc), e.human(), m)); }
                par.give(&mut f);
                let nan = tol.nan_delay;
                tol = Tol::new(s.kind);
                tol.nan_delay = nan;
                let (mut va, mut vf) = (vec![], vec![]);
                if let Err(m) = crashed(|| observe(&mut a, &mut va)) { return cx.fail("recovery-panics", format!("{}: looking at it after recovery panics: {}", name(sc), m)); }
                observe(&mut f, &mut vf);
                cmp(cx, "recovery-state", &format!("{}: state after a crash in {}, a clear and re-set parameters, against a new instance", name(sc), e.human()), &tol, &va, &vf)?;
                twin = Some(f);
            }
            Err(m) => return cx.fail("panic", format!("{}: {} panics on its own: {}", name(sc), e.human(), m)),
            Ok(()) => {
                if was.is_some() { cx.n(K::crash_armed_not_reached); }
                if let Some(f) = twin.as_mut() {
                    let mut vf = vec![];
                    apply(f, e, &mut vf);
                    cmp(cx, "recovery-output", &format!("{}: {} after recovery from a crash, against a new instance", name(sc), e.human()), &tol, &va, &vf)?;
                }
            }
        }
    }
    if let Some(f) = twin.as_mut() {
        let e = Ev::Blk { n: (f.max_delay() as u32 + 8).min(5000), w: Wave { kind: NOISE, amp: 1.0, seed: sc.aux }, bad: vec![], block: false };
        tol.see_ev::<T>(&e);
        let (mut va, mut vf) = (vec![], vec![]);
        if let Err(m) = crashed(|| apply(&mut a, &e, &mut va)) { return cx.fail("recovery-panics", format!("{}: processing after recovery panics: {}", name(sc), m)); }
        apply(f, &e, &mut vf);
        cmp(cx, "recovery-output", &format!("{}: output after recovery from a crash, against a new instance", name(sc)), &tol, &va, &vf)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C06 C07 C08
fn check_line<T: Num>(sc: &Scenario, cx: &mut Ctx, u: &Unit<T>, m: &Line, why: &str, salt: u64) -> R {
    cx.n(K::comparisons);
    if u.max_delay() != m.max { return cx.fail("max-delay", format!("{}: maximum delay is {} {}, expected {}", name(sc), u.max_delay(), why, m.max)); }
    if !m.d.is_nan() && u.get_delay() != (if m.linear { m.d as f32 as f64 } else { m.d }) { return cx.fail("delay-setting", format!("{}: reported delay is {} {}, expected {}", name(sc), u.get_delay(), why, m.d)); }
    for k in positions(m.max, salt) {
        cx.n(K::comparisons);
        let (g, w) = (u.tap_out(k).f(), m.at(k));
        if !same(g, w) { return cx.fail("tap-value", format!("{}: tap {} of {} reads {:e} {}, expected {:e}", name(sc), k, m.max, g, why, w)); }
    }
    Ok(())
}
fn lines<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let lin = s.kind == Kind::LinDelay;
    let mut u = Unit::<T>::new(s);
    let mut m = Line::new(lin, s.init[0], us(s.init[1]));
    let mut pushed = 0usize;
    let mut latest = 0.0;
    check_line(sc, cx, &u, &m, "when built", 1)?;
    for (i, (_, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        let wrapped = pushed > m.max;
        match e {
            Ev::Blk { n, w, bad, block } => {
                let x: Vec<T> = fill(*n, w, bad);
                let y: Vec<f64> = if *block && *n > 0 { let mut b = x.clone(); u.process_block(&mut b); b.iter().map(|v| v.f()).collect() } else { x.iter().map(|v| u.process(*v).f()).collect() };
                for q in 0..x.len() {
                    m.push(x[q].f());
                    pushed += 1;
                    if let Some((want, tol)) = m.out(0, T::EPS, T::TINY) {
                        cx.n(K::comparisons);
                        if !same(y[q], want) && !((y[q] - want).abs() <= tol) {
                            return cx.fail("output", format!("{}: sample {} of {} with delay {} of {} gives {:e}, the input of that many samples ago is {:e} (allowed error {:e})", name(sc), q, n, m.d, m.max, y[q], want, tol));
                        }
                    }
                    latest = y[q];
                }
                if pushed > m.max + 1 { cx.n(K::probe_line_wrapped); }
                if i % 4 == 0 || m.max < 64 { check_line(sc, cx, &u, &m, "after processing", i as u64)?; }
            }
            Ev::Set { a, .. } => {
                u.set(S_DELAY, a);
                m.set_delay(a[0]);
                if wrapped { cx.n(K::probe_delay_changed_after_wrap); }
                check_line(sc, cx, &u, &m, "after setting the delay", i as u64)?;
            }
            Ev::Grow(n) => {
                if wrapped && *n as usize > m.max { cx.n(K::probe_grow_after_wrap); }
                u.grow(*n);
                m.grow(*n as usize);
                check_line(sc, cx, &u, &m, "after growing", i as u64)?;
                let l = u.last_out().f();
                if !same(l, latest) { return cx.fail("last-out", format!("{}: last output changed from {:e} to {:e} by growing", name(sc), latest, l)); }
            }
            Ev::Clear => { u.clear(); m.clear(); latest = 0.0; check_line(sc, cx, &u, &m, "after clear", i as u64)?; }
            Ev::TapOut(k) => {
                let p = tap_pos(*k, m.max);
                if p == m.max { cx.n(K::probe_tap_oldest); }
                cx.n(K::comparisons);
                let (g, w) = (u.tap_out(p).f(), m.at(p));
                if !same(g, w) { return cx.fail("tap-value", format!("{}: tap {} of {} reads {:e}, expected {:e}", name(sc), p, m.max, g, w)); }
            }
            Ev::TapIn(k, v) | Ev::TapBad(k, v, _) => {
                let p = tap_pos(*k, m.max);
                if p == m.max { cx.n(K::probe_tap_oldest); }
                u.tap_in(T::of(*v), p);
                m.put(p, T::of(*v).f());
                check_line(sc, cx, &u, &m, "after writing a tap", i as u64)?;
                let g = u.tap_out(p).f();
                if !same(g, m.at(p)) { return cx.fail("tap-value", format!("{}: tap {} of {} reads {:e} after {:e} was written to it", name(sc), p, m.max, g, m.at(p))); }
            }
            Ev::AddTo(k, v) => {
                let p = tap_pos(*k, m.max);
                if p == m.max { cx.n(K::probe_tap_oldest); }
                let r = u.add_to(T::of(*v), p).f();
                let want = (T::of(m.at(p)) + T::of(*v)).f();
                m.put(p, want);
                cx.n(K::comparisons);
                if !same(r, want) { return cx.fail("tap-sum", format!("{}: adding to tap {} returned {:e}, expected {:e}", name(sc), p, r, want)); }
                check_line(sc, cx, &u, &m, "after adding to a tap", i as u64)?;
                let g = u.tap_out(p).f();
                if !same(g, want) { return cx.fail("tap-value", format!("{}: tap {} of {} reads {:e} after adding made it {:e}", name(sc), p, m.max, g, want)); }
            }
            Ev::Poll => {
                check_line(sc, cx, &u, &m, "when polled", i as u64)?;
                let l = u.last_out().f();
                if !same(l, latest) { return cx.fail("last-out", format!("{}: last output reported is {:e}, the latest output was {:e}", name(sc), l, latest)); }
                let p = u.next_out().unwrap().f();
                if m.d >= 1.0 {
                    if let Some((want, tol)) = m.out(1, T::EPS, T::TINY) {
                        cx.n(K::comparisons);
                        if !same(p, want) && !((p - want).abs() <= tol) { return cx.fail("next-out", format!("{}: with delay {} of {} the predicted output is {:e}, expected {:e} (allowed error {:e})", name(sc), m.d, m.max, p, want, tol)); }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C09
fn c09<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let (mut a, mut b) = (Unit::<T>::new(s), Unit::<T>::new(s));
    let exact = Tol::new(Kind::Delay);
    let mut refused = false;
    for (i, (_, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        let mut after = "";
        if let Ev::GrowNo(n) = e {
            let before = b.max_delay();
            crate::alloc::refuse(true);
            let r = crashed(|| a.grow(*n));
            // A line of that maximum cannot be built either: there is a panic, never a line that is something else.
            let built = catch_unwind(AssertUnwindSafe(|| {
                let mut u = Unit::<T>::line(s, *n as usize);
                let m = u.max_delay();
                (m, catch_unwind(AssertUnwindSafe(|| { u.process(T::of(1.0)); u.process(T::of(1.0)); })).is_ok())
            }));
            crate::alloc::refuse(false);
            if let Ok((m, usable)) = built {
                if m as u64 != *n { return cx.fail("refused-build", format!("{}: building a line with a maximum of {} when memory is refused silently made one with a maximum of {}", name(sc), n, m)); }
                if !usable { return cx.fail("refused-build", format!("{}: building a line with a maximum of {} when memory is refused made one that panics when used", name(sc), n)); }
            } else { cx.n(K::build_refused) }
            cx.n(K::comparisons);
            match r {
                Err(_) => { refused = true; after = "after a refused growth"; if *n as u128 + 1 > (isize::MAX as u128) / std::mem::size_of::<T>() as u128 { cx.n(K::growth_size_unrepresentable) } else { cx.n(K::allocation_refused) } }
                Ok(()) => {
                    let m = match crashed(|| a.max_delay()) { Ok(m) => m, Err(t) => return cx.fail("refused-growth", format!("{}: after asking for a maximum of {} the maximum cannot be read: {}", name(sc), n, t)) };
                    if m as u64 == *n && m > before { cx.n(K::probe_spare_capacity_growth); b.grow(*n); }
                    else if m != before { return cx.fail("refused-growth", format!("{}: asking for a maximum of {} when memory is refused silently made it {} (it was {})", name(sc), n, m, before)); }
                }
            }
        } else {
            let (mut va, mut vb) = (vec![], vec![]);
            apply(&mut b, e, &mut vb);
            if let Err(t) = crashed(|| apply(&mut a, e, &mut va)) { return cx.fail("broken-after-refusal", format!("{}: {} panics on a line whose growth was refused: {}", name(sc), e.human(), t)); }
            cmp(cx, "refusal-output", &format!("{}: {} on a line whose growth was refused, against one that was never asked", name(sc), e.human()), &exact, &va, &vb)?;
            if refused && matches!(e, Ev::Grow(_)) { cx.n(K::probe_growth_ok_after_refusal); }
        }
        let (mut va, mut vb) = (vec![], vec![]);
        if let Err(t) = crashed(|| { va.push(a.max_delay() as f64); va.push(a.get_delay()); observe(&mut a, &mut va) }) { return cx.fail("broken-after-refusal", format!("{}: looking at a line whose growth was refused panics: {}", name(sc), t)); }
        vb.push(b.max_delay() as f64); vb.push(b.get_delay()); observe(&mut b, &mut vb);
        cmp(cx, "refusal-state", &format!("{}: maximum, delay, last and predicted output and taps {} against a line that was never asked", name(sc), after), &exact, &va, &vb)?;
    }
    let e = Ev::Blk { n: (b.max_delay() as u32 + 8).min(6000), w: Wave { kind: COUNTER, amp: 1.0, seed: 5 }, bad: vec![], block: false };
    let (mut va, mut vb) = (vec![], vec![]);
    apply(&mut b, &e, &mut vb);
    if let Err(t) = crashed(|| apply(&mut a, &e, &mut va)) { return cx.fail("broken-after-refusal", format!("{}: processing panics on a line whose growth was refused: {}", name(sc), t)); }
    cmp(cx, "refusal-output", &format!("{}: later outputs of a line whose growth was refused", name(sc)), &exact, &va, &vb)
}

// ------------------------------------------------------------------------------------------ C10
pub enum AnyUnit { S(Unit<f32>), D(Unit<f64>), M(Unit<simf::SimF>) }
impl AnyUnit {
    pub fn new(s: &Spec) -> AnyUnit { match s.prec { Prec::F32 => AnyUnit::S(Unit::new(s)), Prec::F64 => AnyUnit::D(Unit::new(s)), Prec::Sim => AnyUnit::M(Unit::new(s)) } }
    pub fn apply(&mut self, e: &Ev, out: &mut Vec<f64>) { match self { AnyUnit::S(u) => apply(u, e, out), AnyUnit::D(u) => apply(u, e, out), AnyUnit::M(u) => apply(u, e, out) } }
}
pub fn window_kind(w: u8) -> rasp::window::Window {
    use rasp::window::Window::*;
    match w { 0 => Rectangular, 1 => Triangular, 2 => Bartlett, 3 => Hann, 4 => Hamming, 5 => Blackman, _ => BlackmanHarris }
}
/// `apply` without a single allocation between its first and last call into rasp.
fn lean<T: Num>(u: &mut Unit<T>, e: &Ev, buf: &mut [T], out: &mut Vec<f64>, starve: bool) -> Result<(), String> {
    let max = u.max_delay();
    let mut few = [0f64; 8];
    let mut nf = 0;
    crate::alloc::refuse(starve);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut put = |v: f64| { few[nf] = v; nf += 1 };
        match e {
            Ev::Blk { block, .. } => if *block { let r = u.process_block(buf); put(r.f()); } else { for v in buf.iter_mut() { *v = u.process(*v); } },
            Ev::Set { which, a } => u.set(*which, a),
            Ev::Clear => u.clear(),
            Ev::Poll | Ev::Len => {
                if let Some(w) = u.win() { put(w.len() as f64); put(w.size_hint().0 as f64); }
                else {
                    put(u.last_out().f());
                    if let Some(v) = u.next_out() { put(v.f()); put(u.tap_out(max).f()); put(u.tap_out(0).f()); }
                    for v in u.getters() { put(v); }
                }
            }
            Ev::TapOut(k) => put(u.tap_out(tap_pos(*k, max)).f()),
            Ev::TapIn(k, v) | Ev::TapBad(k, v, _) => u.tap_in(T::of(*v), tap_pos(*k, max)),
            Ev::AddTo(k, v) => put(u.add_to(T::of(*v), tap_pos(*k, max)).f()),
            Ev::Nth(k) => if let Some(w) = u.win() { put(w.nth(*k as usize).map_or(-777.0, |v| v.f())) },
            Ev::App { win, .. } => rasp::window::apply_window(buf, window_kind(*win)),
            _ => {}
        }
    }));
    crate::alloc::refuse(false);
    out.extend(buf.iter().map(|v| v.f()));
    out.extend_from_slice(&few[..nf]);
    r.map_err(|p| if p.is::<crate::alloc::Refused>() { "it asked for memory".into() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { "panic".into() })
}
fn c10(sc: &Scenario, cx: &mut Ctx) -> R {
    let mut a: Vec<AnyUnit> = sc.units.iter().map(AnyUnit::new).collect();
    let mut b: Vec<AnyUnit> = sc.units.iter().map(AnyUnit::new).collect();
    let exact = Tol::new(Kind::Delay);
    let mut starve = false;
    for (i, (u, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        if let Ev::Mem(on) = e { starve = *on; continue; }
        let ui = *u as usize % sc.units.len();
        if let Ev::Grow(_) = e {
            if !starve { let mut o = vec![]; a[ui].apply(e, &mut o); b[ui].apply(e, &mut o); }
            continue;
        }
        if starve { cx.n(K::operation_under_memory_exhaustion); }
        fn one<T: Num>(x: &mut Unit<T>, y: &mut Unit<T>, e: &Ev, starve: bool, va: &mut Vec<f64>, vb: &mut Vec<f64>) -> (Result<(), String>, u64) {
            let (n, w, bad) = match e { Ev::Blk { n, w, bad, .. } => (*n, w.clone(), bad.clone()), Ev::App { n, w, .. } => (*n, w.clone(), vec![]), _ => (0, Wave { kind: 0, amp: 0.0, seed: 0 }, vec![]) };
            let mut ba: Vec<T> = fill(n, &w, &bad);
            let mut bb = ba.clone();
            va.reserve(ba.len() + 8); vb.reserve(ba.len() + 8);
            let r0 = crate::alloc::refused();
            let r = lean(x, e, &mut ba, va, starve);
            let asked = crate::alloc::refused() - r0;
            let _ = lean(y, e, &mut bb, vb, false);
            (r, asked)
        }
        let (mut va, mut vb) = (vec![], vec![]);
        let (r, asked) = match (&mut a[ui], &mut b[ui]) {
            (AnyUnit::S(x), AnyUnit::S(y)) => one(x, y, e, starve, &mut va, &mut vb),
            (AnyUnit::D(x), AnyUnit::D(y)) => one(x, y, e, starve, &mut va, &mut vb),
            (AnyUnit::M(x), AnyUnit::M(y)) => one(x, y, e, starve, &mut va, &mut vb),
            _ => (Ok(()), 0),
        };
        let nm = sc.units[ui].kind.name();
        if let Err(m) = r { return cx.fail(if starve { "needs-memory" } else { "panic" }, format!("{} ({:?}): {} fails{}: {}", nm, sc.units[ui].prec, e.human(), if starve { " while memory is exhausted" } else { "" }, m)); }
        cx.n(K::comparisons);
if asked > 0 { cx.n(K::allocation_refused); }
        cmp(cx, "exhaustion-output", &format!("{}: {} while memory is exhausted, against an instance with memory", nm, e.human()), &exact, &va, &vb)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C11 C12
#[derive(Clone, Copy)]
struct Hist { c: [[f64; 5]; 3], x: [f64; 3], y: [f64; 3] }
fn basic5(k: Kind, a: &[f64]) -> [f64; 5] {
    match k {
        Kind::OnePole => [a[0], 0.0, 0.0, a[1], 0.0], Kind::OneZero => [a[0], a[1], 0.0, 0.0, 0.0],
        Kind::TwoPole => [a[0], 0.0, 0.0, a[1], a[2]], Kind::TwoZero => [a[0], a[1], a[2], 0.0, 0.0],
        _ => [a[0], a[1], a[2], a[3], a[4]],
    }
}
/// which of b0 b1 b2 a1 a2 a filter has at all
fn has5(k: Kind) -> [bool; 5] {
    match k { Kind::OnePole => [true, false, false, true, false], Kind::OneZero => [true, true, false, false, false], Kind::TwoPole => [true, false, false, true, true],
        Kind::TwoZero => [true, true, true, false, false], _ => [true; 5] }
}
fn step_terms(h: &Hist, tdf2: bool, has: [bool; 5]) -> [f64; 5] {
    let c = |lag: usize, i: usize| if !has[i] { 0.0 } else if tdf2 { h.c[lag][i] } else { h.c[0][i] };
    let m = |a: f64, b: f64| if a == 0.0 && !b.is_nan() && b.is_finite() { 0.0 } else { a * b };
    let t = |lag, i, v: f64| if has[i] { m(c(lag, i), v) } else { 0.0 };
    [t(0, 0, h.x[0]), t(1, 1, h.x[1]), t(2, 2, h.x[2]), -t(1, 3, h.y[1]), -t(2, 4, h.y[2])]
}
fn c11<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let mut u = Unit::<T>::new(s);
    let has = has5(s.kind);
    let tdf2 = s.kind == Kind::Biquad2;
    let mut coef = [1.0, 0.0, 0.0, 0.0, 0.0];
    let mut h = Hist { c: [coef; 3], x: [0.0; 3], y: [0.0; 3] };
    for (i, (_, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        match e {
            Ev::Set { which, a } => {
                u.set(*which, a);
                let q: Vec<f64> = a.iter().map(|v| T::of(*v).f()).collect();
                if *which == S_COEF { coef = basic5(s.kind, &q); } else { coef[*which as usize - 1] = q[0]; }
            }
            Ev::Clear => { u.clear(); h.x = [0.0; 3]; h.y = [0.0; 3]; }
            Ev::Blk { n, w, bad, block } => {
                let x: Vec<T> = fill(*n, w, bad);
                let y: Vec<f64> = if *block && *n > 0 { let mut b = x.clone(); u.process_block(&mut b); b.iter().map(|v| v.f()).collect() } else { x.iter().map(|v| u.process(*v).f()).collect() };
                for q in 0..x.len() {
                    h.x = [x[q].f(), h.x[0], h.x[1]];
                    h.y = [y[q], h.y[0], h.y[1]];
                    h.c = [coef, h.c[0], h.c[1]];
                    let t = step_terms(&h, tdf2, has);
                    cx.n(K::comparisons);
                    let sum: f64 = t.iter().sum();
                    let mag: f64 = t.iter().map(|v| v.abs()).sum();
                    if t.iter().any(|v| !v.is_finite()) {
                        // a NaN or infinity still in reach of the equation under a finite non-zero weight cannot give a finite number
                        let at = [(h.x[0], 0, 0), (h.x[1], 1, 1), (h.x[2], 2, 2), (h.y[1], 1, 3), (h.y[2], 2, 4)];
                        let nan = at.iter().any(|&(v, lag, i)| { let k = if tdf2 { h.c[lag][i] } else { h.c[0][i] }; !v.is_finite() && has[i] && k.is_finite() && k != 0.0 });
                        if nan && y[q].is_finite() { return cx.fail("poison-lost", format!("{}: a term of the equation is not a finite number but the output is {:e}", name(sc), y[q])); }
                        continue;
                    }
                    if mag > T::MAXV / 8.0 { continue; }
                    let tol = 16.0 * T::EPS * mag + 16.0 * T::TINY;
                    if mag > 0.0 && mag < 1e-37 && T::EPS > 1e-10 { cx.n(K::probe_denormal); }
                    if !((y[q] - sum).abs() <= tol) {
                        return cx.fail("difference-equation", format!("{}: sample {} of {}: output {:e}, equation gives {:e} (allowed error {:e}); coefficients b0 b1 b2 a1 a2 {:?}, x {:?}, y {:?}", name(sc), q, n, y[q], sum, tol, coef, h.x, h.y));
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}
/// A tuning the cookbook is meant for, with margins outside which its formulas cannot be evaluated
/// in single precision by anybody (they overflow or cancel): there the property claims nothing.
fn valid_rbj(k: Kind, p: &[f64]) -> bool {
    let shelf = matches!(k, Kind::LowShelf | Kind::HighShelf);
    let q = p[p.len() - 1];
    p.iter().all(|v| v.is_finite()) && p[0] >= 1e-3 && p[0] <= 1e7 && p[1] >= p[0] * 0.99e-4 && p[1] * 2.0 < p[0]
        && (if shelf { q >= 0.04 && model::slope_ok(p[2], q) } else { q >= 0.01 && q <= 500.0 }) && (p.len() < 4 || p[2].abs() <= 61.0)
}
fn c12<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let mut u = Unit::<T>::new(s);
    let mut c = Some(([1.0, 0.0, 0.0, 0.0, 0.0], 0.0));
    let mut x1 = [0.0f64; 2];
    let mut y1 = [0.0f64; 2];
    let mut fresh = 0u64;
    let mut par: Vec<f64> = vec![];
    for (i, (_, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        match e {
            Ev::Set { a, .. } => {
                u.set(S_COEF, a);
                par = a.iter().map(|v| T::of(*v).f()).collect();
                if fresh > 0 { cx.n(K::probe_retune_midstream); }
                fresh = 0;
                c = if valid_rbj(s.kind, &par) { Some((model::cookbook_n(s.kind, &par), model::tuning_scale(s.kind, &par))) } else { None };
                x1 = [0.0; 2]; y1 = [0.0; 2];
            }
            Ev::Clear => { u.clear(); x1 = [0.0; 2]; y1 = [0.0; 2]; }
            Ev::Blk { n, w, bad, block } => {
                let x: Vec<T> = fill(*n, w, bad);
                let y: Vec<f64> = if *block && *n > 0 { let mut b = x.clone(); u.process_block(&mut b); b.iter().map(|v| v.f()).collect() } else { x.iter().map(|v| u.process(*v).f()).collect() };
                for q in 0..x.len() {
                    fresh += 1;
                    let xv = x[q].f();
                    if let Some((k, sc_)) = c {
                        let t = [k[0] * xv, k[1] * x1[0], k[2] * x1[1], -k[3] * y1[0], -k[4] * y1[1]];
                        let lvl = xv.abs() + x1[0].abs() + x1[1].abs() + y1[0].abs() + y1[1].abs();
                        let mag: f64 = t.iter().map(|v| v.abs()).sum();
                        if t.iter().all(|v| v.is_finite()) && mag.max(lvl) < T::MAXV / 8.0 {
                            cx.n(K::comparisons);
                            let sum: f64 = t.iter().sum();
                            let tol = T::EPS * (16.0 * mag + 8.0 * sc_ * lvl) + 64.0 * T::TINY;
                            if !((y[q] - sum).abs() <= tol) {
                                return cx.fail("cookbook", format!("{}: sample {} after tuning {:?}: output {:e}, cookbook filter gives {:e} (allowed error {:e}); x {:e} {:?} y {:?}", name(sc), fresh, par, y[q], sum, tol, xv, x1, y1));
                            }
                        }
                    }
                    x1 = [xv, x1[0]];
                    y1 = [y[q], y1[0]];
                }
            }
            _ => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C13 C14
/// expected smoothing gain of a length and how far rounding may take it
fn gain<T: Num>(len: f64) -> (f64, f64) {
    let g = (-1.0 / len).exp();
    let arg = (1.0 / len).min(1e4);
    (g, T::EPS * (4.0 + 2.0 * arg) * g + 4.0 * T::TINY)
}
struct Env { alpha: f64, att: Option<f64>, rel: Option<f64> }
impl Env {
    fn set<T: Num>(&mut self, cx: &mut Ctx, which: u8, v: f64) {
        let v = T::of(v).f();
        let ok = match which { S_ALPHA => v >= 0.0 && v < 1.0, _ => v > 0.0 && v.is_finite() };
        if !ok { cx.n(K::probe_invalid_ignored); return; }
        match which { S_ALPHA => self.alpha = v, S_ATTACK => self.att = Some(v), S_RELEASE => self.rel = Some(v), _ => {} }
    }
}
fn c13<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let mut u = Unit::<T>::new(s);
    let mut st = Env { alpha: 0.0, att: None, rel: None };
    let mut prev = 0.0f64;
    let (mut up, mut down) = (false, false);
    let g = |l: Option<f64>| l.map_or((0.0, 0.0), gain::<T>);
    for (i, (_, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        match e {
            Ev::Set { which, a } => {
                let l0 = u.last_out().f();
                u.set(*which, a);
                st.set::<T>(cx, *which, a[0]);
                let l1 = u.last_out().f();
                cx.n(K::comparisons);
                if !same(l0, l1) { return cx.fail("setting-disturbs", format!("{}: setting {} to {:e} changed the stored value from {:e} to {:e}", name(sc), which, a[0], l0, l1)); }
            }
            Ev::Clear => { u.clear(); prev = 0.0; }
            Ev::Blk { n, w, bad, block } => {
                let x: Vec<T> = fill(*n, w, bad);
                let y: Vec<f64> = if *block && *n > 0 { let mut b = x.clone(); u.process_block(&mut b); b.iter().map(|v| v.f()).collect() } else { x.iter().map(|v| u.process(*v).f()).collect() };
                for q in 0..x.len() {
                    let xv = x[q].f();
                    let p = prev;
                    prev = y[q];
                    if !xv.is_finite() || !p.is_finite() { continue; }
                    let (lvl, env) = match s.kind { Kind::Leaky => (xv, p), Kind::Peak => (xv.abs(), p), _ => (xv * xv, p * p) };
                    if lvl.abs() > T::MAXV / 8.0 || env.abs() > T::MAXV / 8.0 { continue; }
                    let (al, ag) = if s.kind == Kind::Leaky { (st.alpha, 0.0) } else if env < lvl { up = true; g(st.att) } else { down = true; g(st.rel) };
                    let want = lvl + al * (env - lvl);
                    let big = lvl.abs() + env.abs();
                    let got = if s.kind == Kind::Rms { y[q] * y[q] } else { y[q] };
                    let tol = 16.0 * T::EPS * big + ag * (env - lvl).abs() + 16.0 * T::TINY;
                    cx.n(K::comparisons);
                    if !((got - want).abs() <= tol) {
                        return cx.fail("law", format!("{}: sample {} of {}: level {:e}, previous {:e}, gain {:e}: value {:e}, expected {:e} (allowed error {:e})", name(sc), q, n, lvl, env, al, got, want, tol));
                    }
                }
            }
            _ => {}
        }
        let gt = u.getters();
        cx.n(K::comparisons);
        if s.kind == Kind::Leaky { if gt[0] != st.alpha { return cx.fail("reported-gain", format!("{}: reported gain {:e}, latest valid setting {:e}", name(sc), gt[0], st.alpha)); } }
        else {
            for (j, l) in [st.att, st.rel].iter().enumerate() {
                let (v, t) = g(*l);
                if !((gt[j] - v).abs() <= t + T::EPS * 1e-3) { return cx.fail("reported-gain", format!("{}: reported {} gain {:e}, latest valid length {:?} gives {:e}", name(sc), ["attack", "release"][j], gt[j], l, v)); }
            }
        }
    }
    if up && down { cx.n(K::probe_attack_and_release_seen); }
    Ok(())
}
fn c14<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let rms = s.kind == Kind::Rms;
    let mut u = Unit::<T>::new(s);
    let mut st = Env { alpha: 0.0, att: None, rel: None };
    let mut prev = 0.0f64;
    for (i, (_, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        match e {
            Ev::Set { which, a } => { u.set(*which, a); st.set::<T>(cx, *which, a[0]); }
            Ev::Clear => { u.clear(); prev = 0.0; }
            Ev::Blk { n, w, bad, block } => {
                let x: Vec<T> = fill(*n, w, bad);
                let y: Vec<f64> = if *block && *n > 0 { let mut b = x.clone(); u.process_block(&mut b); b.iter().map(|v| v.f()).collect() } else { x.iter().map(|v| u.process(*v).f()).collect() };
                let start = prev;
                for q in 0..x.len() {
                    let lvl = x[q].f().abs();
                    let p = prev;
                    prev = y[q];
                    if !lvl.is_finite() || !p.is_finite() || (rms && lvl.max(p).powi(2) > T::MAXV / 8.0) || lvl.max(p) > T::MAXV / 8.0 { continue; }
                    cx.n(K::comparisons);
                    if !(y[q] >= 0.0) { return cx.fail("negative", format!("{}: envelope {:e} is negative or not a number after level {:e}, previous {:e}", name(sc), y[q], lvl, p)); }
                    // rounding happens on the level (the squares, for RMS): allow a few units of the larger one
                    let sq = |v: f64| if rms { v * v } else { v };
                    let (sl, sp, sy) = (sq(lvl), sq(p), sq(y[q]));
                    let slack = 8.0 * T::EPS * sl.max(sp) + 16.0 * T::TINY;
                    if sy < sl.min(sp) - slack || sy > sl.max(sp) + slack { return cx.fail("overshoot", format!("{}: sample {} of {}: envelope {:e} is not between its previous value {:e} and the level {:e}", name(sc), q, n, y[q], p, lvl)); }
                }
                // level held constant: settle
                let lvl0 = x.first().map_or(0.0, |v| v.f().abs());
                let held = !x.is_empty() && x.iter().all(|v| v.f().abs() == lvl0) && lvl0.is_finite() && start.is_finite();
                if held && lvl0.max(start) < T::MAXV.sqrt() / 8.0 {
                    let sq = |v: f64| if rms { v * v } else { v };
                    let (l, s0, s1) = (sq(lvl0), sq(start), sq(prev));
                    let len = if s0 < l { st.att } else { st.rel }.unwrap_or(0.0);
                    let n = x.len() as f64;
                    if len * T::EPS < 0.002 {
                        // one rounding of about eps*level per sample, forgotten at the same rate
                        let noise = 8.0 * T::EPS * (len + 2.0) * l.max(s0).max(T::TINY / T::EPS);
                        let shrink = if len > 0.0 { (-n / len).exp() } else { 0.0 };
                        // the gain itself is rounded: relative 8 eps per sample
                        let bound = (s0 - l).abs() * shrink * (1.0 + 16.0 * T::EPS * n) + noise + 16.0 * T::TINY * (len + 2.0);
                        cx.n(K::comparisons); cx.n(K::probe_settle_checked);
                        if !((s1 - l).abs() <= bound) {
                            return cx.fail("settling", format!("{}: level held at {:e} for {} samples with length {}: distance went from {:e} to {:e}, at most {:e} expected{}", name(sc), lvl0, n, len, (s0 - l).abs(), (s1 - l).abs(), bound, if rms { " (squares)" } else { "" }));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C15
fn c15<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let (mut a, mut b) = (Unit::<T>::new(s), Unit::<T>::new(s));
    let mut clean = usize::MAX / 2; // clean samples since the last corruption
    let mut ever = false;
    let mut tol = Tol::new(s.kind);
    for (i, (_, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        if let Ev::Set { which: S_DELAY, a } = e { tol.nan_delay = a[0].is_nan() && s.kind == Kind::LinDelay; }
        let max = a.max_delay();
        match e {
            Ev::Blk { n, w, bad, block } => {
                let x: Vec<T> = fill(*n, w, bad);
                let xb: Vec<T> = fill(*n, w, &[]);
                let need = match s.kind { Kind::OneZero => 1, Kind::TwoZero => 2, _ => max + 1 };
                let y: Vec<f64> = if *block && *n > 0 { let mut v = x.clone(); a.process_block(&mut v); v.iter().map(|v| v.f()).collect() } else { x.iter().map(|v| a.process(*v).f()).collect() };
                for q in 0..x.len() {
                    let want = b.process(xb[q]).f();
                    if bad.iter().any(|z| z.0 as usize == q) { clean = 0; ever = true; } else { clean += 1; }
                    if clean > need && !tol.nan_delay {
                        cx.n(K::comparisons);
                        if ever { cx.n(K::probe_heal_checked); }
                        if !same(y[q], want) { return cx.fail("not-healed", format!("{}: {} clean samples after a corrupt one (maximum delay {}) the output is {:e}, uncorrupted it is {:e}", name(sc), clean, max, y[q], want)); }
                    }
                }
            }
            Ev::TapBad(k, v, c) => { let p = tap_pos(*k, max); a.tap_in(T::of(*v), p); b.tap_in(T::of(*c), p); clean = 0; ever = true; }
            e => { let (mut va, mut vb) = (vec![], vec![]); apply(&mut a, e, &mut va); apply(&mut b, e, &mut vb); }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C16
#[derive(Clone, Copy)]
pub struct Tuning { c: [f64; 5], pub r: f64, first: bool }
/// normalised coefficients and a safe upper bound of the pole radius for a tuning
fn tuning<T: Num>(k: Kind, par: &[f64]) -> Tuning {
    let (c, err) = if k == Kind::Leaky { ([1.0 - par[0], 0.0, 0.0, -par[0], 0.0], T::EPS) }
        else if k.is_rbj() { (model::cookbook_n(k, par), T::EPS * (4.0 + 2.0 * model::tuning_scale(k, par))) }
        else { (basic5(k, par), 0.0) };
    let first = matches!(k, Kind::Leaky | Kind::OnePole);
    let mut r: f64 = if first { c[3].abs() + err } else { 0.0 };
    if !first { for (s, t) in [(1.0, 1.0), (1.0, -1.0), (-1.0, 1.0), (-1.0, -1.0), (0.0, 0.0)] { r = r.max(model::radius(c[3] + s * err, c[4] + t * err)); } }
    let mut c = c;
    for v in c.iter_mut().take(3) { *v = v.abs() + err; }
    for v in c.iter_mut().skip(3) { *v = v.abs() + err; }
    Tuning { c, r: r.max(1e-12), first }
}
fn identity(k: Kind) -> Vec<f64> { if k == Kind::Leaky { vec![0.0] } else { let mut v = vec![0.0; 5]; v[0] = 1.0; v } }
/// all tunings a C16 scenario goes through
pub fn tunings(sc: &Scenario) -> Vec<Tuning> {
    let k = sc.units[0].kind;
    sc.evs.iter().filter_map(|(_, e)| match e {
        Ev::Set { which: S_COEF, a } if !k.is_rbj() || valid_rbj(k, a) => Some(tuning::<f64>(k, a)),
        Ev::Set { which: S_ALPHA, a } => Some(tuning::<f64>(k, a)),
        _ => None,
    }).collect()
}
/// Upper bound of |output| of a filter with these pole radii, driven by |input| injections.
#[derive(Clone, Copy)]
struct Bound { s1: f64, s2: f64, pend: [f64; 2] }
impl Bound {
    fn new() -> Bound { Bound { s1: 0.0, s2: 0.0, pend: [0.0; 2] } }
    fn step(&mut self, t: &Tuning, e: f64) -> f64 {
        let e = e + self.pend[0];
        self.pend = [self.pend[1], 0.0];
        self.s1 = t.r * self.s1 + e;
        self.s2 = t.r * self.s2 + self.s1;
        if t.first { self.s1 } else { self.s2 }
    }
    /// coefficients change while the stored samples stay: earlier outputs become initial conditions
    fn change(&mut self, old: &Tuning, new: &Tuning, y: [f64; 2]) {
        let m = |i: usize| old.c[i].max(new.c[i]);
        self.pend[0] += m(3) * y[0] + m(4) * y[1];
        self.pend[1] += m(4) * y[0];
        self.s1 = 0.0; self.s2 = 0.0;
    }
}
fn c16<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let (mut a, mut b) = (Unit::<T>::new(s), Unit::<T>::new(s));
    let mut t = if s.kind.is_rbj() { Tuning { c: [1.0, 0.0, 0.0, 0.0, 0.0], r: 1e-12, first: false } } else { tuning::<T>(s.kind, &identity(s.kind)) };
    let mut b_eff = [[0.0f64; 3]; 3]; // |b| in force when each of the last inputs came
    let (mut ba, mut bd) = (Bound::new(), Bound::new());
    let (mut xa, mut xd) = ([0.0f64; 3], [0.0f64; 3]);
    let (mut ya, mut yb, mut yd) = ([0.0f64; 2], [0.0f64; 2], [0.0f64; 2]);
    let mut ok = true;
    let mut quiet = 0usize;
    for (i, (_, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        match e {
            Ev::Set { a: p, which } => {
                a.set(*which, p); b.set(*which, p);
                let q: Vec<f64> = p.iter().map(|v| T::of(*v).f()).collect();
                if s.kind.is_rbj() {
                    ok = valid_rbj(s.kind, &q);
                    if ok { t = tuning::<T>(s.kind, &q); }
                    ba = Bound::new(); bd = Bound::new(); xa = [0.0; 3]; xd = [0.0; 3]; ya = [0.0; 2]; yb = ya; yd = ya;
                } else if *which == S_COEF || *which == S_ALPHA {
                    if *which == S_ALPHA && !(q[0] >= 0.0 && q[0] < 1.0) { continue; }
                    let n = tuning::<T>(s.kind, &q);
                    ba.change(&t, &n, ya); bd.change(&t, &n, yd);
                    t = n;
                } else { ok = false; }
                ok &= t.r < 0.9999;
            }
            Ev::Clear => { a.clear(); b.clear(); ba = Bound::new(); bd = Bound::new(); xa = [0.0; 3]; xd = [0.0; 3]; ya = [0.0; 2]; yb = ya; yd = ya; }
            Ev::Blk { n, w, bad, block } => {
                let x: Vec<T> = fill(*n, w, bad);
                let xc: Vec<T> = fill(*n, w, &[]);
                let y: Vec<f64> = if *block && *n > 0 { let mut v = x.clone(); a.process_block(&mut v); v.iter().map(|v| v.f()).collect() } else { x.iter().map(|v| a.process(*v).f()).collect() };
                for q in 0..x.len() {
                    let yc = b.process(xc[q]).f();
                    let bb = [t.c[0], t.c[1], t.c[2]];
                    b_eff = [bb, b_eff[0], b_eff[1]];
                    let lag = |l: usize| b_eff[l][l].max(bb[l]); // the b of a direct form or of a transposed one
                    xa = [x[q].f().abs(), xa[0], xa[1]];
                    xd = [(x[q].f() - xc[q].f()).abs(), xd[0], xd[1]];
                    let drive: f64 = (0..3).map(|l| lag(l) * xa[l]).sum();
                    // rounding of one step, relative to the terms actually added (both instances)
                    let feed = |y: &[f64; 2], y0: f64| t.c[3] * (y[0] + y0) + t.c[4] * (y[0] + y[1] + y0) + y0;
                    let round = 16.0 * T::EPS * (drive + xa[0] + feed(&ya, y[q].abs()) + feed(&yb, yc.abs())) + 16.0 * T::TINY;
                    ya = [y[q].abs(), ya[0]]; yb = [yc.abs(), yb[0]]; yd = [(y[q] - yc).abs(), yd[0]];
                    let lim = ba.step(&t, drive + round) * 1.001;
                    let injd: f64 = (0..3).map(|l| lag(l) * xd[l]).sum();
                    let limd = bd.step(&t, injd + 2.0 * round) * 1.001;
                    if !ok { continue; }
                    cx.n(K::comparisons);
                    if x[q].f() == 0.0 { quiet += 1; if quiet > 20 { cx.n(K::probe_decay_checked); } } else { quiet = 0; }
                    if !(y[q].abs() <= lim) { return cx.fail("unbounded", format!("{}: output {:e} at sample {} of {}, but with pole radius {} and this input it must stay below {:e}{}", name(sc), y[q], q, n, t.r, lim, if quiet > 0 { " (input silent)" } else { "" })); }
                    if !((y[q] - yc).abs() <= limd) { return cx.fail("not-forgotten", format!("{}: at sample {} of {} the output {:e} still differs from the uncorrupted {:e} by more than {:e}, which pole radius {} allows", name(sc), q, n, y[q], yc, limd, t.r)); }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C18
pub enum AnyWin { S(Option<Win<f32>>), D(Option<Win<f64>>), M(Option<Win<simf::SimF>>) }
fn c18_all(sc: &Scenario, cx: &mut Ctx) -> R {
    let mut ws: Vec<AnyWin> = sc.units.iter().map(|s| { let n = us(s.init[0]); match s.prec { Prec::F32 => AnyWin::S(Some(Win::new(s.kind, n))), Prec::F64 => AnyWin::D(Some(Win::new(s.kind, n))), Prec::Sim => AnyWin::M(Some(Win::new(s.kind, n))) } }).collect();
    let mut at = vec![0usize; ws.len()];
    for (i, (u, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        let ui = *u as usize % ws.len();
        match &mut ws[ui] {
            AnyWin::S(w) => if let Some(w) = w { c18(sc, cx, &sc.units[ui], w, &mut at[ui], e)? },
            AnyWin::D(w) => if let Some(w) = w { c18(sc, cx, &sc.units[ui], w, &mut at[ui], e)? },
            AnyWin::M(w) => if let Some(w) = w { c18(sc, cx, &sc.units[ui], w, &mut at[ui], e)? },
        }
    }
    // consume what is left by other means
    for (i, w) in ws.into_iter().enumerate() {
        cx.ev = sc.evs.len().saturating_sub(1);
        let how = hash2(sc.aux, i as u64) % 6;
        match w { AnyWin::S(Some(w)) => c18_rest(cx, &sc.units[i], w, at[i], how)?, AnyWin::D(Some(w)) => c18_rest(cx, &sc.units[i], w, at[i], how)?, AnyWin::M(Some(w)) => c18_rest(cx, &sc.units[i], w, at[i], how)?, _ => {} }
    }
    Ok(())
}
fn point<T: Num>(cx: &mut Ctx, s: &Spec, i: usize, v: f64) -> R {
    let n = us(s.init[0]);
    cx.n(K::comparisons);
    if !v.is_finite() { return cx.fail("point-not-finite", format!("{} ({:?}) of size {}: point {} is {}", s.kind.name(), s.prec, n, i, v)); }
    if n < 2 { return Ok(()); }
    let want = model::window(s.kind, i, n);
    if !((v - want).abs() <= 64.0 * T::EPS) { return cx.fail("point-value", format!("{} ({:?}) of size {}: value delivered as point {} is {:e}, point {} is {:e}", s.kind.name(), s.prec, n, i, v, i, want)); }
    Ok(())
}
fn remaining<T: Num>(cx: &mut Ctx, s: &Spec, w: &Win<T>, left: usize) -> R {
    cx.n(K::comparisons);
    let l = match crashed(|| w.len()) { Ok(l) => l, Err(m) => return cx.fail("length", format!("{} ({:?}) of size {}: asking for the remaining length with {} points to come panics: {}", s.kind.name(), s.prec, us(s.init[0]), left, m)) };
    if l != left { return cx.fail("length", format!("{} ({:?}) of size {}: reports {} points remaining, {} are still to come", s.kind.name(), s.prec, us(s.init[0]), l, left)); }
    let h = w.size_hint();
    if h != (left, Some(left)) { return cx.fail("size-bounds", format!("{} ({:?}) of size {}: size bounds {:?}, {} points are still to come", s.kind.name(), s.prec, us(s.init[0]), h, left)); }
    Ok(())
}
fn c18<T: Num>(sc: &Scenario, cx: &mut Ctx, s: &Spec, w: &mut Win<T>, at: &mut usize, e: &Ev) -> R {
    let n = us(s.init[0]);
    match e {
        Ev::Blk { n: take, .. } => {
            for _ in 0..*take {
                cx.n(K::window_steps);
                match w.next() {
                    Some(v) => { if *at >= n { return cx.fail("after-end", format!("{} of size {}: a point ({:e}) came after the end", s.kind.name(), n, v.f())); } point::<T>(cx, s, *at, v.f())?; *at += 1; }
                    None => { cx.n(K::comparisons); if *at < n { return cx.fail("early-end", format!("{} of size {}: ended after {} points", s.kind.name(), n, *at)); } cx.n(K::probe_iterator_end_repeated); }
                }
                if sc.aux & 1 == 0 { remaining(cx, s, w, n - *at)?; }
            }
        }
        Ev::Nth(k) => {
            let k = *k as usize;
            let v = w.nth(k);
            cx.n(K::comparisons); cx.n(K::probe_iterator_skip);
            match v {
                Some(v) => { if at.saturating_add(k) >= n { return cx.fail("after-end", format!("{} of size {}: skipping {} at {} gave a point", s.kind.name(), n, k, *at)); } point::<T>(cx, s, *at + k, v.f())?; *at += k + 1; }
                None => { if at.saturating_add(k) < n { return cx.fail("early-end", format!("{} of size {}: skipping {} at {} gave the end", s.kind.name(), n, k, *at)); } *at = n; }
            }
        }
        Ev::Len | Ev::Poll => remaining(cx, s, w, n - *at)?,
        Ev::App { win, n: m, w: wv } => {
            let mut x: Vec<T> = fill(*m, wv, &[]);
            let h = crate::rng::hash2(sc.aux, wv.seed);
            if *m > 0 && h % 6 == 0 { let v = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -0.0][(h >> 8) as usize % 5]; x[(h >> 16) as usize % *m as usize] = T::of(v); cx.n(K::corrupt_sample); }
            let mut b = x.clone();
            rasp::window::apply_window(&mut b, window_kind(*win));
            let it: Vec<f64> = if *win == 0 { vec![1.0; *m as usize] } else { Win::<T>::new(WINS[*win as usize - 1], *m as usize).rest().iter().map(|v| v.f()).collect() };
            if it.len() != *m as usize { return cx.fail("early-end", format!("window {} of size {} delivers {} points", win, m, it.len())); }
            for i in 0..b.len() {
                cx.n(K::comparisons);
                let want = it[i] * x[i].f();
                let g = b[i].f();
                if !x[i].f().is_finite() {
                    if g.is_finite() { return cx.fail("applied", format!("window {} over {} samples ({:?}): sample {} was {:e} and became {:e}", win, m, s.prec, i, x[i].f(), g)); }
                    continue;
                }
                if !same(g, want) && !((g - want).abs() <= 4.0 * T::EPS * want.abs() + 4.0 * T::TINY) {
                    return cx.fail("applied", format!("window {} over {} samples ({:?}): sample {} is {:e}, point {:e} times {:e} is {:e}", win, m, s.prec, i, g, it[i], x[i].f(), want));
                }
                if *win > 0 && *m > 1 {
                    let p = model::window(WINS[*win as usize - 1], i, *m as usize);
                    if !((g - p * x[i].f()).abs() <= 70.0 * T::EPS * x[i].f().abs() + 4.0 * T::TINY) { return cx.fail("applied", format!("window {} over {} samples ({:?}): sample {} is {:e}, expected {:e}", win, m, s.prec, i, g, p * x[i].f())); }
                }
            }
        }
        _ => {}
    }
    if *at <= n && sc.aux & 2 == 0 { remaining(cx, s, w, n - *at)?; }
    Ok(())
}
fn c18_rest<T: Num>(cx: &mut Ctx, s: &Spec, mut w: Win<T>, at: usize, how: u64) -> R {
    let n = us(s.init[0]);
    match how {
        0 => { let v = w.rest(); if v.len() != n - at { return cx.fail("early-end", format!("{} of size {}: collecting after {} points gave {}", s.kind.name(), n, at, v.len())); }
            for (i, p) in v.iter().enumerate() { point::<T>(cx, s, at + i, p.f())?; } }
        4 => { // in slices of an adaptor, then by stepping
            let mut w = w;
            let k = (n - at) / 2;
            let v = w.some(k);
            if v.len() != k { return cx.fail("early-end", format!("{} of size {}: taking {} after {} points gave {}", s.kind.name(), n, k, at, v.len())); }
            for (i, p) in v.iter().enumerate() { point::<T>(cx, s, at + i, p.f())?; }
            remaining(cx, s, &w, n - at - k)?;
            let v = w.third();
            let want: Vec<usize> = (at + k..n).step_by(3).collect();
            if v.len() != want.len() { return cx.fail("early-end", format!("{} of size {}: every third point after {} gave {} points", s.kind.name(), n, at + k, v.len())); }
            for (i, p) in want.iter().zip(v.iter()) { point::<T>(cx, s, *i, p.f())?; } }
        5 => { let mut i = at; let mut bad = None; w.each(|v| { if bad.is_none() { if let Err(e) = point::<T>(cx, s, i.min(n.max(1) - 1), v.f()) { bad = Some(e); } } i += 1; });
            if let Some(e) = bad { return Err(e); }
            if i != n { return cx.fail("early-end", format!("{} of size {}: visiting the rest after {} points gave {}", s.kind.name(), n, at, i - at)); } }
        1 => { let c = w.count_rest(); cx.n(K::comparisons); if c != n - at { return cx.fail("early-end", format!("{} of size {}: counting after {} points gave {}", s.kind.name(), n, at, c)); } }
        2 => { let l = w.last(); cx.n(K::comparisons); match l { Some(v) if at < n => point::<T>(cx, s, n - 1, v.f())?, None if at == n => {}, _ => return cx.fail("early-end", format!("{} of size {}: last point after {} points", s.kind.name(), n, at)) } }
        _ => {
            for i in at..n { match w.next() { Some(v) => point::<T>(cx, s, i, v.f())?, None => return cx.fail("early-end", format!("{} of size {}: ended after {} points", s.kind.name(), n, i)) } }
            for _ in 0..3 { if w.next().is_some() { return cx.fail("after-end", format!("{} of size {}: a point came after the end", s.kind.name(), n)); } }
            remaining(cx, s, &w, 0)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C19 C20
#[derive(Clone, Copy, PartialEq, Debug)]
enum Trip { Crash, Refused, Spent, Panic }
/// One event, straight into rasp, allocating nothing of our own.
fn perform<T: Num>(u: &mut Unit<T>, e: &Ev, buf: &mut [T], refuse: bool) -> Result<(), Trip> {
    let max = u.max_delay();
    let mut seen = 0.0f64;
    crate::alloc::refuse(refuse);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut put = |v: f64| seen += v;
        match e {
            Ev::Blk { block, .. } => if *block { put(u.process_block(buf).f()) } else { for v in buf.iter_mut() { *v = u.process(*v); } },
            Ev::Set { which, a } => u.set(*which, a),
            Ev::Grow(n) | Ev::GrowNo(n) => u.grow(*n),
            Ev::Clear => u.clear(),
            Ev::TapOut(k) => put(u.tap_out(tap_pos(*k, max)).f()),
            Ev::TapIn(k, v) | Ev::TapBad(k, v, _) => u.tap_in(T::of(*v), tap_pos(*k, max)),
            Ev::AddTo(k, v) => put(u.add_to(T::of(*v), tap_pos(*k, max)).f()),
            Ev::Nth(k) => if let Some(w) = u.win() { if let Some(v) = w.nth(*k as usize) { put(v.f()) } },
            Ev::App { win, .. } => rasp::window::apply_window(buf, window_kind(*win)),
            _ => {}
        }
        // whatever happened, it can be looked at
        if let Some(w) = u.win() { put(w.len() as f64); put(w.size_hint().0 as f64); }
        else {
            put(u.last_out().f());
            let max = u.max_delay();
            if let Some(v) = u.next_out() { put(v.f()); for k in [0, max / 2, max] { put(u.tap_out(k).f()); } }
            for v in u.getters() { put(v); }
        }
    }));
    crate::alloc::refuse(false);
    simf::disarm();
    simf::fuel(u64::MAX);
    std::hint::black_box(seen);
    r.map_err(|p| if p.is::<simf::Crash>() { Trip::Crash } else if p.is::<crate::alloc::Refused>() { Trip::Refused } else if p.is::<simf::Spent>() { Trip::Spent } else { Trip::Panic })
}
fn buffer<T: Num>(e: &Ev) -> Vec<T> { match e { Ev::Blk { n, w, bad, .. } => fill(*n, w, bad), Ev::App { n, w, .. } => fill(*n, w, &[]), _ => vec![] } }
fn c19<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let mut u = match crashed(|| Unit::<T>::new(s)) { Ok(u) => u, Err(m) => return cx.fail("build-panics", format!("{}: building it with {:?} panics: {}", name(sc), s.init, m)) };
    if s.kind.is_win() && s.init[0] > 1e6 { cx.n(K::probe_gigantic_window); }
    for (i, (_, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        if matches!(e, Ev::GrowNo(_) | Ev::Arm(_) | Ev::Mem(_)) { continue; }
        if let Ev::Blk { w, .. } = e { if w.kind == BITS { cx.n(K::probe_random_bits); } }
        let mut buf: Vec<T> = buffer(e);
        let skip = if let Ev::Nth(k) = e { (*k).min(us(s.init[0]) as u64) } else { 0 };
        // generous: no operation needs anywhere near this many arithmetic steps
        simf::fuel(20_000 + 2_000 * (buf.len() as u64 + skip) + 64 * (u.max_delay() as u64 + 1));
        cx.n(K::comparisons);
        match perform(&mut u, e, &mut buf, false) {
            Ok(()) => {}
            Err(Trip::Spent) => return cx.fail("unbounded-work", format!("{}: {} does not come to an end within {} arithmetic steps for each sample", name(sc), e.human(), 2000)),
            Err(t) => return cx.fail("panic", format!("{}: {} panics ({:?}) [{}]", name(sc), e.human(), t, crate::last_panic())),
        }
    }
    Ok(())
}
fn c20<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    use crate::alloc::live;
    let s = &sc.units[0];
    let size = std::mem::size_of::<T>() as i64;
    let limit = |max: usize| 4 * (max as i64 + 1) * size + 16384;
    let mut bufs: Vec<Vec<T>> = sc.evs.iter().map(|(_, e)| buffer(e)).collect();
    let fresh: Vec<Vec<T>> = bufs.clone();
    let b = live();
    let mut u = Unit::<T>::new(s);
    let mut held = live() - b;
    cx.n(K::comparisons);
    if held > limit(u.max_delay()) { return cx.fail("footprint", format!("{}: newly built with a maximum delay of {} it holds {} bytes", name(sc), u.max_delay(), held)); }
    let mut after = [0i64; 6];
    // the same calls again and again: what is needed is there after the first round at the latest
    for pass in 0..6 {
        let mut arm = None;
        for (i, (_, e)) in sc.evs.iter().enumerate() {
            cx.ev = i;
            match e { Ev::Arm(k) => { arm = Some(*k); continue } Ev::Mem(_) => continue, _ => {} }
            bufs[i].copy_from_slice(&fresh[i]);
            let refuse = matches!(e, Ev::GrowNo(_));
            if let Some(k) = arm.take() { simf::arm(k); }
            let b = live();
            let r = perform(&mut u, e, &mut bufs[i], refuse);
            held += live() - b;
            match r {
                Err(Trip::Crash) => { // give up this instance, start over with a new one
                    cx.n(K::crash_in_operation);
                    let b = live();
                    drop(std::mem::replace(&mut u, Unit::<T>::new(s)));
                    held += live() - b;
                }
                Err(Trip::Refused) => cx.n(K::allocation_refused),
                Err(Trip::Panic) if refuse => cx.n(K::growth_size_unrepresentable),
                Err(t) => return cx.fail("panic", format!("{}: {} panics ({:?}) [{}]", name(sc), e.human(), t, crate::last_panic())),
                Ok(()) => {}
            }
            cx.n(K::comparisons);
            if held > limit(u.max_delay()) { return cx.fail("footprint", format!("{}: holds {} bytes after {} in round {}, with a maximum delay of {}", name(sc), held, e.human(), pass + 1, u.max_delay())); }
        }
        after[pass] = held;
    }
    cx.n(K::probe_second_pass);
    if after[5] > after[1] + 64 { return cx.fail("accumulates", format!("{}: holds {} bytes after the calls were made twice and {} after six times", name(sc), after[1], after[5])); }
    let b = live();
    drop(u);
    held += live() - b;
    cx.n(K::comparisons);
    if held > 16384 { return cx.fail("not-returned", format!("{}: {} bytes are still held after it was dropped", name(sc), held)); }
    // many instances come and go
    let take = sc.evs.len().min(8);
    let mut kept = [0i64; 3];
    let mut held = 0i64;
    for round in 0..3 {
        for _ in 0..20 {
            let b = live();
            let mut u = Unit::<T>::new(s);
            held += live() - b;
            for i in 0..take {
                let e = &sc.evs[i].1;
                if matches!(e, Ev::Arm(_) | Ev::Mem(_) | Ev::GrowNo(_)) || bufs[i].len() > 300 { continue; }
                bufs[i].copy_from_slice(&fresh[i]);
                let b = live();
                let r = perform(&mut u, e, &mut bufs[i], false);
                held += live() - b;
                if r.is_err() { return cx.fail("panic", format!("{}: {} panics [{}]", name(sc), e.human(), crate::last_panic())); }
            }
            let b = live();
            drop(u);
            held += live() - b;
            cx.n(K::probe_churned_instances);
        }
        kept[round] = held;
    }
    cx.n(K::comparisons);
    if kept[2] > kept[0] + 64 { return cx.fail("not-returned", format!("{}: 20 instances built and dropped leave {} bytes behind, 60 leave {}", name(sc), kept[0], kept[2])); }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C21
fn c21<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let (mut a, mut b) = (Unit::<T>::new(s), Unit::<T>::new(s));
    let mut tol = Tol::new(s.kind);
    let mut latest: Option<Ev> = None;
    let mut age = String::from("new");
    for (i, (_, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        if let Ev::Age { what, n } = e {
            let max = a.max_delay();
            let quiet = max as u64 + 8;
            if *n > 1 << 16 { cx.n(K::probe_aged_beyond_2_16) }
            if *n > 1 << 24 { cx.n(K::probe_aged_beyond_2_24) }
            if *n > 1 << 32 { cx.n(K::probe_aged_beyond_2_32) }
            a.clear(); b.clear();
            tol.amp = 0.0; tol.odd = false;
            let r = crashed(|| match what {
                0 => a.idle(*n, true),
                1 => a.idle(*n, false),
                2 => for _ in 0..*n { a.clear() },
                3 => for k in 0..*n {
                    if s.kind.is_line() && latest.is_none() { let d = a.get_delay(); a.set(S_DELAY, &[if k & 1 == 0 { 0.0 } else { max as f64 }]); a.set(S_DELAY, &[d]); }
                    else if let Some(Ev::Set { which, a: v }) = &latest { a.set(*which, v) }
                },
                4 => { let mut sink = 0.0; for k in 0..*n { sink += a.last_out().f() + a.getters()[0]; if let Some(v) = a.next_out() { sink += v.f() + a.tap_out(k as usize % (max + 1)).f(); } } std::hint::black_box(sink); }
                5 => for _ in 0..*n { a.process_block(&mut []); },
                6 => for k in 0..*n { let p = k as usize % (max + 1); if k % 3 == 0 { a.tap_in(T::of(0.0), p) } else { a.add_to(T::of(0.0), p); } },
                _ => for k in 0..*n { a.grow(max as u64 - if k % 5 == 0 { max as u64 / 2 } else { 0 }) },
            });
            if let Err(m) = r { return cx.fail("worn-out", format!("{}: panics during {}: {}", name(sc), e.human(), m)); }
            if *what == 3 && *n > 0 { if let Some(Ev::Set { which, a: v }) = &latest { b.set(*which, v) } }
            a.idle(quiet, false); b.idle(quiet, false);
            age = format!("after {}", e.human());
            let (mut va, mut vb) = (vec![], vec![]);
            observe(&mut a, &mut va); observe(&mut b, &mut vb);
            cmp(cx, "aged-state", &format!("{}: what it shows {}, against an instance that was spared that", name(sc), age), &tol, &va, &vb)?;
            continue;
        }
        if matches!(e, Ev::Arm(_) | Ev::Mem(_) | Ev::GrowNo(_)) { continue; }
        if matches!(e, Ev::Set { .. }) { latest = Some(e.clone()); }
        tol.see_ev::<T>(e);
        let (mut va, mut vb) = (vec![], vec![]);
        if let Err(m) = crashed(|| apply(&mut a, e, &mut va)) { return cx.fail("worn-out", format!("{}: {} panics {}: {}", name(sc), e.human(), age, m)); }
        apply(&mut b, e, &mut vb);
        cmp(cx, "aged-output", &format!("{}: {} {}, against an instance that was spared that", name(sc), e.human(), age), &tol, &va, &vb)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C22
fn c22<T: Num>(sc: &Scenario, cx: &mut Ctx) -> R {
    let s = &sc.units[0];
    let (mut a, mut b) = (Unit::<T>::new(s), Unit::<T>::new(s));
    let k = (sc.aux % 41) as i32 - 20;
    let scale = 2f64.powi(k) * if sc.aux & 64 == 0 { 1.0 } else { -1.0 };
    let out = if matches!(s.kind, Kind::Peak | Kind::Rms) { scale.abs() } else { scale };
    // below this a product or square may have lost bits to underflow
    let floor = if T::EPS > 1e-10 { 1e-17 } else { 1e-140 } * scale.abs().max(1.0);
    let top = if s.kind == Kind::Rms { T::MAXV.sqrt() } else { T::MAXV } * 2f64.powi(-40);
    let tiny = if T::EPS > 1e-10 { if s.kind == Kind::Rms { 1e-12 } else { 1e-20 } } else { 1e-120 };
    let times = |v: T| T::of(v.f() * scale);
    for (i, (_, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        let (mut va, mut vb) = (vec![], vec![]);
        match e {
            Ev::Arm(_) | Ev::Mem(_) | Ev::GrowNo(_) | Ev::Probe { .. } | Ev::Poll | Ev::Len => {}
            Ev::Blk { n, w, bad, block } => {
                let mut xa: Vec<T> = fill(*n, w, bad);
                let mut xb: Vec<T> = xa.iter().map(|v| times(*v)).collect();
                if *block { va.push(a.process_block(&mut xa).f()); vb.push(b.process_block(&mut xb).f()); va.extend(xa.iter().map(|v| v.f())); vb.extend(xb.iter().map(|v| v.f())); }
                else { for j in 0..xa.len() { va.push(a.process(xa[j]).f()); vb.push(b.process(xb[j]).f()); } }
            }
            Ev::App { win, n, w } => {
                let mut xa: Vec<T> = fill(*n, w, &[]);
                let mut xb: Vec<T> = xa.iter().map(|v| times(*v)).collect();
                rasp::window::apply_window(&mut xa, window_kind(*win)); rasp::window::apply_window(&mut xb, window_kind(*win));
                for j in 0..xa.len() {
                    cx.n(K::comparisons);
                    let (p, q) = (xa[j].f() * scale, xb[j].f());
                    if !same(p, q) && !((p - q).abs() <= floor) { return cx.fail("window-level", format!("window {} over {} samples: sample {} of a frame is {:e}; scaled by {} beforehand it becomes {:e} and not {:e}", win, n, j, xa[j].f(), scale, q, p)); }
                }
            }
            Ev::TapIn(q, v) => { let p = tap_pos(*q, a.max_delay()); a.tap_in(T::of(*v), p); b.tap_in(times(T::of(*v)), p); }
            Ev::AddTo(q, v) => { let p = tap_pos(*q, a.max_delay()); va.push(a.add_to(T::of(*v), p).f()); vb.push(b.add_to(times(T::of(*v)), p).f()); }
            e => { apply(&mut a, e, &mut va); apply(&mut b, e, &mut vb); }
        }
        va.push(a.last_out().f()); vb.push(b.last_out().f());
        if let (Some(p), Some(q)) = (a.next_out(), b.next_out()) { va.push(p.f()); vb.push(q.f()); for j in [0, a.max_delay() / 2, a.max_delay()] { va.push(a.tap_out(j).f()); vb.push(b.tap_out(j).f()); } }
        for j in 0..va.len().max(vb.len()) {
            let (p, q) = (va[j] * out, vb[j]);
            if !p.is_finite() || !(va[j].abs() < top) || !(p.abs() < top) { return Ok(()); }
            // a recurrence about to underflow: from here on it may go either way
            if va[j] != 0.0 && va[j].abs() < tiny && !s.kind.is_line() { return Ok(()); }
            cx.n(K::comparisons);
            if p != q && !((p - q).abs() <= floor) { return cx.fail("level", format!("{}: {}: value {} is {:e}; with the stream scaled by {} it is {:e} and not {:e}", name(sc), e.human(), j, va[j], scale, q, p)); }
        }
    }
    Ok(())
}
