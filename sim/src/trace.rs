//! A scenario is one fully explicit simulated run: the instances, every delivered event in order,
//! every fault, and (for preemptive runs) the schedule. Executing it is a pure function of it and
//! the code under test, so the text form below is also the replay format.
use crate::rng::{hash2, mix};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Kind {
    Leaky, Peak, Rms, Delay, LinDelay, OnePole, OneZero, TwoPole, TwoZero, Biquad1, Biquad2,
    AllPass, BandPass1, BandPass2, BandStop, HighPass, HighShelf, LowPass, LowShelf, PeakEq,
    WTri, WBart, WHann, WHamm, WBlack, WBh,
}
use Kind::*;
pub const PROCS: [Kind; 20] = [Leaky, Peak, Rms, Delay, LinDelay, OnePole, OneZero, TwoPole, TwoZero, Biquad1, Biquad2,
    AllPass, BandPass1, BandPass2, BandStop, HighPass, HighShelf, LowPass, LowShelf, PeakEq];
pub const RBJ: [Kind; 9] = [AllPass, BandPass1, BandPass2, BandStop, HighPass, HighShelf, LowPass, LowShelf, PeakEq];
pub const BASIC: [Kind; 6] = [OnePole, OneZero, TwoPole, TwoZero, Biquad1, Biquad2];
pub const LINES: [Kind; 2] = [Delay, LinDelay];
pub const WINS: [Kind; 6] = [WTri, WBart, WHann, WHamm, WBlack, WBh];
impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Leaky => "leaky", Peak => "peak", Rms => "rms", Delay => "delay", LinDelay => "lindelay", OnePole => "onepole",
            OneZero => "onezero", TwoPole => "twopole", TwoZero => "twozero", Biquad1 => "biquad1", Biquad2 => "biquad2",
            AllPass => "allpass", BandPass1 => "bandpass1", BandPass2 => "bandpass2", BandStop => "bandstop",
            HighPass => "highpass", HighShelf => "highshelf", LowPass => "lowpass", LowShelf => "lowshelf", PeakEq => "peakeq",
            WTri => "w_triangular", WBart => "w_bartlett", WHann => "w_hann", WHamm => "w_hamming", WBlack => "w_blackman", WBh => "w_blackmanharris",
        }
    }
    pub fn parse(s: &str) -> Option<Kind> { PROCS.iter().chain(WINS.iter()).copied().find(|k| k.name() == s) }
    pub fn is_rbj(self) -> bool { RBJ.contains(&self) }
    pub fn is_basic(self) -> bool { BASIC.contains(&self) }
    pub fn is_line(self) -> bool { LINES.contains(&self) }
    pub fn is_win(self) -> bool { WINS.contains(&self) }
    pub fn is_env(self) -> bool { matches!(self, Peak | Rms) }
    /// number of arguments of set_coefficients
    pub fn ncoef(self) -> usize {
        match self { OnePole | OneZero => 2, TwoPole | TwoZero => 3, Biquad1 | Biquad2 => 5,
            HighShelf | LowShelf | PeakEq => 4, k if k.is_rbj() => 3, _ => 0 }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prec { F32, F64, Sim }

#[derive(Clone, Debug)]
pub struct Spec { pub kind: Kind, pub prec: Prec, pub init: [f64; 2] }

#[derive(Clone, Debug, PartialEq)]
pub struct Wave { pub kind: u8, pub amp: f64, pub seed: u64 }
pub const SILENCE: u8 = 0; pub const COUNTER: u8 = 1; pub const NOISE: u8 = 2; pub const DC: u8 = 3; pub const IMPULSE: u8 = 4;
pub const SINE: u8 = 5; pub const ALT: u8 = 6; pub const RAMP: u8 = 7; pub const SPARSE: u8 = 8; pub const EXOTIC: u8 = 9; pub const STEP: u8 = 10; pub const BITS: u8 = 11;
impl Wave {
    pub fn at(&self, i: usize) -> f64 {
        let h = |x: u64| (mix(x) >> 11) as f64 / (1u64 << 53) as f64;
        match self.kind {
            SILENCE => 0.0,
            COUNTER => ((self.seed + i as u64) % 8_000_000 + 1) as f64,
            NOISE => self.amp * (2.0 * h(hash2(self.seed, i as u64)) - 1.0),
            DC => self.amp,
            IMPULSE => if i == 0 { self.amp } else { 0.0 },
            SINE => self.amp * ((self.seed % 1000) as f64 * 0.0031 * i as f64).sin(),
            ALT => if i % 2 == 0 { self.amp } else { -self.amp },
            RAMP => self.amp * (i % 97) as f64 / 97.0,
            SPARSE => { let r = hash2(self.seed, i as u64); if r % 7 == 0 { self.amp * (2.0 * h(r) - 1.0) } else { 0.0 } }
            EXOTIC => { // log-uniform magnitude over amp decades either side of 1, random sign
                let r = hash2(self.seed, i as u64);
                let m = 10f64.powf(self.amp * (2.0 * h(r) - 1.0));
                if r & 1 == 0 { m } else { -m }
            }
            BITS => { // any bit pattern of an f32 (amp 32) or f64
                let r = hash2(self.seed, i as u64);
                if self.amp == 32.0 { f32::from_bits(r as u32) as f64 } else { f64::from_bits(r) }
            }
            STEP => { let r = hash2(self.seed, (i / 13) as u64); self.amp * (2.0 * h(r) - 1.0) }
            _ => 0.0,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// one audio callback: `n` samples, as a block or sample by sample, with corrupt samples at `bad`
    Blk { n: u32, w: Wave, bad: Vec<(u32, f64)>, block: bool },
    Set { which: u8, a: Vec<f64> },
    Grow(u64),
    /// growth while the allocator refuses memory
    GrowNo(u64),
    Clear,
    Poll,
    TapOut(i64), TapIn(i64, f64), AddTo(i64, f64),
    /// corrupt tap write and the value the uncorrupted stream would have written
    TapBad(i64, f64, f64),
    /// the next operation crashes at this arithmetic step
    Arm(u64),
    /// allocator refuses everything from here (true) / works again (false)
    Mem(bool),
    Nth(u64), Len,
    /// apply window `kind` to a frame of `n` samples
    App { win: u8, n: u32, w: Wave },
    /// a caller-supplied processor crashing at the given sample of a block of n
    Probe { n: u32, at: u32, w: Wave },
    /// long service: `n` times the same thing, while the instance holds nothing but silence
    Age { what: u8, n: u64 },
}
pub const AGE: [&str; 8] = ["silent samples in buffers", "silent samples one by one", "clears", "repetitions of the latest setting", "looks", "empty buffers", "silent tap writes", "growths to what it is"];
pub const S_COEF: u8 = 0; // whole set; 1..=5: single fields b0 b1 b2 a1 a2
pub const S_ALPHA: u8 = 10; pub const S_ATTACK: u8 = 11; pub const S_RELEASE: u8 = 12; pub const S_DELAY: u8 = 13;

#[derive(Clone, Debug)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub sr: f64,
    pub sim_ns: u64,
    pub aux: u64,
    pub units: Vec<Spec>,
    pub evs: Vec<(u8, Ev)>,
    /// preemptions: after `gap` further steps hand over to task `t`
    pub sched: Vec<(u32, u8)>,
    /// host-level fault counters (channel loss, stalls, ...), informational
    pub host: Vec<(String, u64)>,
}

fn fx(v: f64) -> String { format!("{:016x}", v.to_bits()) }
fn ux(s: &str) -> Option<f64> { u64::from_str_radix(s, 16).ok().map(f64::from_bits) }
fn wtxt(w: &Wave) -> String { format!("{} {} {}", w.kind, fx(w.amp), w.seed) }
impl Ev {
    pub fn text(&self) -> String {
        match self {
            Ev::Blk { n, w, bad, block } => {
                let mut s = format!("blk {} {} {} {}", n, *block as u8, wtxt(w), bad.len());
                for (i, v) in bad { s += &format!(" {} {}", i, fx(*v)); }
                s
            }
            Ev::Set { which, a } => {
                let mut s = format!("set {} {}", which, a.len());
                for v in a { s += &format!(" {}", fx(*v)); }
                s
            }
            Ev::Grow(n) => format!("grow {}", n),
            Ev::GrowNo(n) => format!("growno {}", n),
            Ev::Clear => "clear".into(), Ev::Poll => "poll".into(), Ev::Len => "len".into(),
            Ev::TapOut(k) => format!("tapout {}", k),
            Ev::TapIn(k, v) => format!("tapin {} {}", k, fx(*v)),
            Ev::AddTo(k, v) => format!("addto {} {}", k, fx(*v)),
            Ev::TapBad(k, b, c) => format!("tapbad {} {} {}", k, fx(*b), fx(*c)),
            Ev::Arm(k) => format!("arm {}", k),
            Ev::Mem(b) => format!("mem {}", *b as u8),
            Ev::Nth(k) => format!("nth {}", k),
            Ev::App { win, n, w } => format!("app {} {} {}", win, n, wtxt(w)),
            Ev::Probe { n, at, w } => format!("probe {} {} {}", n, at, wtxt(w)),
            Ev::Age { what, n } => format!("age {} {}", what, n),
        }
    }
    pub fn human(&self) -> String {
        match self {
            Ev::Blk { n, w, bad, block } => format!("{} of {} samples (wave {} amp {} seed {}), corrupt {:?}", if *block { "buffer" } else { "samples" }, n, w.kind, w.amp, w.seed, bad),
            Ev::Age { what, n } => format!("{} {}", n, AGE[*what as usize & 7]),
            e => format!("{:?}", e),
        }
    }
    fn parse(t: &[&str]) -> Option<Ev> {
        let w = |o: usize| -> Option<Wave> { Some(Wave { kind: t.get(o)?.parse().ok()?, amp: ux(t.get(o + 1)?)?, seed: t.get(o + 2)?.parse().ok()? }) };
        Some(match *t.first()? {
            "blk" => {
                let nb: usize = t.get(6)?.parse().ok()?;
                let mut bad = vec![];
                for j in 0..nb { bad.push((t.get(7 + 2 * j)?.parse().ok()?, ux(t.get(8 + 2 * j)?)?)); }
                Ev::Blk { n: t.get(1)?.parse().ok()?, block: *t.get(2)? == "1", w: w(3)?, bad }
            }
            "set" => {
                let k: usize = t.get(2)?.parse().ok()?;
                let mut a = vec![];
                for j in 0..k { a.push(ux(t.get(3 + j)?)?); }
                Ev::Set { which: t.get(1)?.parse().ok()?, a }
            }
            "grow" => Ev::Grow(t.get(1)?.parse().ok()?),
            "growno" => Ev::GrowNo(t.get(1)?.parse().ok()?),
            "clear" => Ev::Clear, "poll" => Ev::Poll, "len" => Ev::Len,
            "tapout" => Ev::TapOut(t.get(1)?.parse().ok()?),
            "tapin" => Ev::TapIn(t.get(1)?.parse().ok()?, ux(t.get(2)?)?),
            "addto" => Ev::AddTo(t.get(1)?.parse().ok()?, ux(t.get(2)?)?),
            "tapbad" => Ev::TapBad(t.get(1)?.parse().ok()?, ux(t.get(2)?)?, ux(t.get(3)?)?),
            "arm" => Ev::Arm(t.get(1)?.parse().ok()?),
            "mem" => Ev::Mem(*t.get(1)? == "1"),
            "nth" => Ev::Nth(t.get(1)?.parse().ok()?),
            "app" => Ev::App { win: t.get(1)?.parse().ok()?, n: t.get(2)?.parse().ok()?, w: w(3)? },
            "probe" => Ev::Probe { n: t.get(1)?.parse().ok()?, at: t.get(2)?.parse().ok()?, w: w(3)? },
            "age" => Ev::Age { what: t.get(1)?.parse().ok()?, n: t.get(2)?.parse().ok()? },
            _ => return None,
        })
    }
}
impl Scenario {
    pub fn text(&self) -> String {
        let mut s = format!("scenario {} seed {} sr {} aux {}\n", self.prop, self.seed, fx(self.sr), self.aux);
        for u in &self.units {
            let p = match u.prec { Prec::F32 => "f32", Prec::F64 => "f64", Prec::Sim => "sim" };
            s += &format!("unit {} {} {} {}\n", u.kind.name(), p, fx(u.init[0]), fx(u.init[1]));
        }
        for (u, e) in &self.evs { s += &format!("ev {} {}  # {}\n", u, e.text(), e.human()); }
        for (g, t) in &self.sched { s += &format!("sched {} {}\n", g, t); }
        s += "end\n";
        s
    }
    pub fn parse_all(txt: &str) -> Option<Vec<Scenario>> {
        let mut out = vec![];
        let mut cur: Option<Scenario> = None;
        for line in txt.lines() {
            let line = line.split('#').next().unwrap();
            let t: Vec<&str> = line.split_whitespace().collect();
            match t.first().copied() {
                Some("scenario") => cur = Some(Scenario { prop: t.get(1)?.to_string(), seed: t.get(3)?.parse().ok()?, sr: ux(t.get(5)?)?,
                    aux: t.get(7)?.parse().ok()?, sim_ns: 0, units: vec![], evs: vec![], sched: vec![], host: vec![] }),
                Some("unit") => {
                    let prec = match *t.get(2)? { "f32" => Prec::F32, "f64" => Prec::F64, _ => Prec::Sim };
                    cur.as_mut()?.units.push(Spec { kind: Kind::parse(t.get(1)?)?, prec, init: [ux(t.get(3)?)?, ux(t.get(4)?)?] });
                }
                Some("ev") => cur.as_mut()?.evs.push((t.get(1)?.parse().ok()?, Ev::parse(&t[2..])?)),
                Some("sched") => cur.as_mut()?.sched.push((t.get(1)?.parse().ok()?, t.get(2)?.parse().ok()?)),
                Some("end") => out.push(cur.take()?),
                _ => {}
            }
        }
        Some(out)
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0u64;
        let mut add = |b: &[u8]| for c in b { h = (h ^ *c as u64).wrapping_mul(0x100000001b3).rotate_left(5); };
        for u in &self.units { add(u.kind.name().as_bytes()); add(&[u.prec as u8]); for v in u.init { add(&v.to_bits().to_le_bytes()); } }
        for (u, e) in &self.evs { add(&[*u]); add(e.text().as_bytes()); }
        for (g, t) in &self.sched { add(&g.to_le_bytes()); add(&[*t]); }
        mix(h)
    }
}
