//! Batches of simulated runs: forking, watching, collecting, minimising, reporting.
use crate::oracle::{self, Ctx, K, NAMES};
use crate::rng::{hash2, mix};
use crate::sys::{self, End, Shared};
use crate::trace::*;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub const PROFILE: &str = if cfg!(debug_assertions) { "chk" } else { "release" };
const CHUNK: u64 = 200;
const VW: usize = 256; // words of one violation text

#[derive(Clone)]
pub struct Found { pub run: u64, pub chunk_start: u64, pub class: String, pub detail: String, pub ev: usize }
pub struct Batch {
    pub runs: u64, pub planned: u64, pub wall: f64, pub sim_ns: u64, pub counters: Vec<u64>,
    pub scenarios: u64, pub nontrivial: u64, pub shapes: u64, pub interleavings: u64, pub digest: u64, pub found: Option<Found>,
}

/// What a run looks like with the numbers taken out: kinds, precisions, order and rough size of events.
fn shape(sc: &Scenario) -> u64 {
    let mut h = 1u64;
    for u in &sc.units { h = hash2(h, (u.kind as u64) * 4 + u.prec as u64); if u.kind.is_line() { h = hash2(h, 64 - (u.init[1] as u64).leading_zeros() as u64); } }
    for (u, e) in &sc.evs {
        let l = |n: u64| 64 - n.leading_zeros() as u64;
        let d = match e {
            Ev::Blk { n, bad, block, .. } => 1 + 32 * (l(*n as u64) + 64 * (bad.len() as u64).min(2) + 256 * *block as u64),
            Ev::Set { which, .. } => 2 + 32 * *which as u64, Ev::Grow(n) => 3 + 32 * l(*n), Ev::GrowNo(n) => 4 + 32 * l(*n), Ev::Clear => 5, Ev::Poll => 6,
            Ev::TapOut(k) => 7 + 32 * l(*k as u64), Ev::TapIn(k, _) => 8 + 32 * l(*k as u64), Ev::AddTo(k, _) => 9 + 32 * l(*k as u64), Ev::TapBad(k, _, _) => 10 + 32 * l(*k as u64),
            Ev::Arm(k) => 11 + 32 * k.min(&400), Ev::Mem(b) => 12 + 32 * *b as u64, Ev::Nth(k) => 13 + 32 * l(*k as u64), Ev::Len => 14, Ev::App { win, n, .. } => 15 + 32 * (*win as u64 + 8 * l(*n as u64)), Ev::Probe { n, at, .. } => 16 + 32 * (*n as u64 * 64 + *at as u64),
            Ev::Age { what, n } => 17 + 32 * (*what as u64 + 8 * l(*n)),
        };
        h = hash2(h, d * 16 + *u as u64);
    }
    h
}
/// Execute one scenario in this process.
pub fn execute(sc: &Scenario, cx: &mut Ctx) -> Result<(), oracle::Violation> {
    let r = catch_unwind(AssertUnwindSafe(|| oracle::run(sc, cx)));
    crate::alloc::refuse(false);
    crate::simf::disarm();
    match r {
        Ok(r) => r,
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { "unknown payload".into() };
            let d = format!("an operation panicked: {} [{}]", m, crate::last_panic());
            Err(oracle::Violation { class: "panic".into(), detail: d, ev: cx.ev })
        }
    }
}
fn child(prop: &str, seed: u64, from: u64, to: u64, first: u64, sh: &Shared, lay: &Lay, slot: usize, vslot: usize) {
    sys::limit_memory(6 << 30);
    sys::beat_on(sh.at(lay.slots + 32 + slot));
    for run in from..to {
        sh.set(lay.slots + slot, run + 1);
        let sc = oracle::generate(prop, seed, run);
        let mut cx = Ctx::new();
        let h0 = sc.hash();
        let r = execute(&sc, &mut cx);
        let i = lay.runs + (run - first) as usize * 4;
        let nontrivial = cx.c[K::comparisons as usize] > 0 && (cx.c[K::runs_with_faults as usize] > 0 || sc.evs.iter().any(|(_, e)| !matches!(e, Ev::Blk { .. })));
        sh.set(i, h0 | 1);
        sh.set(i + 1, shape(&sc));
        sh.set(i + 2, hash2(mix(cx.sched), hash2(crate::unit::digest(), cx.c[K::comparisons as usize])));
        sh.set(i + 3, nontrivial as u64 | (cx.sched & !1));
        for (k, v) in cx.c.iter().enumerate() { if *v > 0 { sh.add(lay.counters + k, *v); } }
        sh.add(lay.misc, sc.sim_ns);
        sh.add(lay.misc + 1, 1);
        if let Err(v) = r {
            sh.set(vslot + 1, run);
            sh.set(vslot + 2, v.ev as u64);
            sh.put_str(vslot + 3, 8, &v.class);
            sh.put_str(vslot + 12, VW - 13, &v.detail);
            sh.set(vslot, 2);
            return;
        }
    }
    sh.set(vslot, 1);
}
struct Lay { slots: usize, counters: usize, misc: usize, runs: usize, viol: usize }

pub fn batch(prop: &str, seed: u64, first: u64, n: u64, jobs: usize, cap: f64) -> Batch {
    let chunk = if prop == "C17" { 40 } else { CHUNK };
    let chunks = (n + chunk - 1) / chunk;
    let lay = { let slots = 0; let counters = 64; let misc = counters + K::COUNT as usize; let runs = misc + 8; let viol = runs + 4 * n as usize; Lay { slots, counters, misc, runs, viol } };
    let sh = Shared::new(lay.viol + chunks as usize * VW + 8);
    let t0 = Instant::now();
    let mut live: Vec<(i32, u64, usize, u64, Instant)> = vec![]; // pid, chunk, slot, last progress, since
    let mut next = 0u64;
    let mut found: Option<Found> = None;
    let mut slots: Vec<usize> = (0..jobs).rev().collect();
    let mut done = 0u64;
    while next < chunks || !live.is_empty() {
        let open = found.is_none() && t0.elapsed().as_secs_f64() < cap;
        while open && next < chunks && !slots.is_empty() {
            let slot = slots.pop().unwrap();
            let (from, to) = (first + next * chunk, first + ((next + 1) * chunk).min(n));
            sh.set(lay.slots + slot, 0);
            let v = lay.viol + next as usize * VW;
            let pid = sys::spawn(|| child(prop, seed, from, to, first, &sh, &lay, slot, v));
            live.push((pid, next, slot, 0, Instant::now()));
            next += 1;
        }
        if !open && live.is_empty() { break; }
        let mut i = 0;
        let mut progress = false;
        while i < live.len() {
            let (pid, c, slot, ref mut seen, ref mut since) = live[i];
            let cur = sh.get(lay.slots + slot) + (sh.get(lay.slots + 32 + slot) << 40);
            if cur != *seen { *seen = cur; *since = Instant::now(); }
            let mut hang = false;
            if since.elapsed() > Duration::from_secs(25) { sys::kill9(pid); hang = true; }
            let end = if hang { Some(sys::wait(pid)) } else { sys::try_wait(pid) };
            if let Some(end) = end {
                progress = true;
                live.swap_remove(i);
                slots.push(slot);
                done += 1;
                let v = lay.viol + c as usize * VW;
                let start = first + c * chunk;
                let f = match (sh.get(v), end) {
                    (1, End::Code(0)) => None,
                    (2, _) => Some(Found { run: sh.get(v + 1), chunk_start: start, ev: sh.get(v + 2) as usize, class: sh.get_str(v + 3), detail: sh.get_str(v + 12) }),
                    (_, e) => Some(Found { run: sh.get(lay.slots + slot).max(start + 1) - 1, chunk_start: start, ev: 0, class: if hang { "hang".into() } else { "abort".into() },
                        detail: if hang { "an operation did not finish".into() } else { format!("the process was ended by {:?}", e) } }),
                };
                if let Some(f) = f { if found.as_ref().map_or(true, |g| f.run < g.run) { found = Some(f); } }
            } else { i += 1; }
        }
        if !progress { std::thread::sleep(Duration::from_millis(2)); }
    }
    let _ = done;
    let mut hs = HashSet::new();
    let mut nt = HashSet::new();
    let mut shp = HashSet::new();
    let mut inter = HashSet::new();
    let mut digest = 0u64;
    for r in 0..n as usize {
        let i = lay.runs + 4 * r;
        let h = sh.get(i);
        if h == 0 { continue; }
        hs.insert(h);
        shp.insert(sh.get(i + 1));
        if sh.get(i + 3) & 1 == 1 { nt.insert(h); }
        if sh.get(i + 3) > 1 { inter.insert(sh.get(i + 3) & !1); }
        digest = hash2(digest, hash2(h, sh.get(i + 2)));
    }
    Batch { runs: sh.get(lay.misc + 1), planned: n, wall: t0.elapsed().as_secs_f64(), sim_ns: sh.get(lay.misc), counters: (0..K::COUNT as usize).map(|k| sh.get(lay.counters + k)).collect(),
        scenarios: hs.len() as u64, nontrivial: nt.len() as u64, shapes: shp.len() as u64, interleavings: inter.len() as u64, digest, found }
}

/// Run scenarios in order in a fresh process; the outcome of the last one.
pub fn outcome(scs: &[Scenario]) -> Option<Found> {
    let sh = Shared::new(VW + 8);
    let pid = sys::spawn(|| {
        sys::limit_memory(6 << 30);
        sys::watchdog(30);
        for (i, sc) in scs.iter().enumerate() {
            let mut cx = Ctx::new();
            let r = execute(sc, &mut cx);
            if i + 1 == scs.len() {
                if let Err(v) = r { sh.set(2, v.ev as u64); sh.put_str(3, 8, &v.class); sh.put_str(12, VW - 13, &v.detail); sh.set(0, 2); } else { sh.set(0, 1); }
            }
        }
    });
    let end = sys::wait(pid);
    match (sh.get(0), end) {
        (1, End::Code(0)) => None,
        (2, _) => Some(Found { run: 0, chunk_start: 0, ev: sh.get(2) as usize, class: sh.get_str(3), detail: sh.get_str(12) }),
        (_, End::Signal(14)) => Some(Found { run: 0, chunk_start: 0, ev: 0, class: "hang".into(), detail: "an operation did not finish".into() }),
        (_, e) => Some(Found { run: 0, chunk_start: 0, ev: 0, class: "abort".into(), detail: format!("the process was ended by {:?}", e) }),
    }
}

struct Shrink<'a> { class: &'a str, until: Instant, tries: u64 }
impl<'a> Shrink<'a> {
    fn bad(&mut self, pre: &[Scenario], sc: &Scenario) -> bool {
        if Instant::now() > self.until { return false; }
        self.tries += 1;
        let mut v = pre.to_vec();
        v.push(sc.clone());
        outcome(&v).map_or(false, |f| f.class == self.class)
    }
    fn drop_list<X: Clone>(&mut self, len: usize, test: &mut dyn FnMut(&mut Self, &[usize]) -> bool, _p: std::marker::PhantomData<X>) -> Vec<usize> {
        let mut keep: Vec<usize> = (0..len).collect();
        let mut size = (len / 2).max(1);
        loop {
            let mut i = 0;
            let mut cut = false;
            while i < keep.len() {
                let j = (i + size).min(keep.len());
                let cand: Vec<usize> = keep[..i].iter().chain(keep[j..].iter()).copied().collect();
                if test(self, &cand) { keep = cand; cut = true; } else { i = j; }
                if Instant::now() > self.until { return keep; }
            }
            if size == 1 && !cut { break; }
            if !cut || size > 1 { size = (size / 2).max(1); }
        }
        keep
    }
    fn run(&mut self, pre: &[Scenario], start: &Scenario, ev: usize) -> Scenario {
        let mut sc = start.clone();
        // everything after the violating event is irrelevant unless preemption mixes the order
        if sc.sched.is_empty() && ev + 1 < sc.evs.len() { let mut c = sc.clone(); c.evs.truncate(ev + 1); if self.bad(pre, &c) { sc = c; } }
        for _round in 0..4 {
            let before = sc.text();
            let base = sc.clone();
            let keep = self.drop_list::<Ev>(base.evs.len(), &mut |s, k| { let mut c = base.clone(); c.evs = k.iter().map(|i| base.evs[*i].clone()).collect(); s.bad(pre, &c) }, Default::default());
            sc.evs = keep.iter().map(|i| base.evs[*i].clone()).collect();
            if !sc.sched.is_empty() {
                let base = sc.clone();
                let keep = self.drop_list::<u8>(base.sched.len(), &mut |s, k| { let mut c = base.clone(); c.sched = k.iter().map(|i| base.sched[*i]).collect(); s.bad(pre, &c) }, Default::default());
                sc.sched = keep.iter().map(|i| base.sched[*i]).collect();
            }
            while sc.units.len() > 1 && sc.evs.iter().all(|(u, _)| (*u as usize) < sc.units.len() - 1) && sc.sched.iter().all(|(_, t)| (*t as usize) < sc.units.len() - 1) {
                let mut c = sc.clone(); c.units.pop();
                if self.bad(pre, &c) { sc = c } else { break }
            }
            for u in 0..sc.units.len() {
                for f in 0..2 { loop {
                    let v = sc.units[u].init[f];
                    let mut hit = false;
                    for nv in [0.0, 1.0, 2.0, 3.0, (v / 2.0).floor(), v.floor(), v - 1.0] {
                        if nv >= v || nv < 0.0 { continue; }
                        let mut c = sc.clone(); c.units[u].init[f] = nv;
                        if self.bad(pre, &c) { sc = c; hit = true; break; }
                    }
                    if !hit { break; }
                } }
            }
            for i in 0..sc.evs.len() {
                let mut again = true;
                while again {
                    again = false;
                    for e in simpler(&sc.evs[i].1) {
                        let mut c = sc.clone();
                        c.evs[i].1 = e;
                        if self.bad(pre, &c) { sc = c; again = true; break; }
                    }
                }
            }
            if sc.text() == before || Instant::now() > self.until { break; }
        }
        sc
    }
}
fn simpler(e: &Ev) -> Vec<Ev> {
    let mut v = vec![];
    let ns = |n: u64| -> Vec<u64> { let mut o = vec![0, 1, 2, 3, n / 2, n.saturating_sub(n / 4), n.saturating_sub(1)]; o.retain(|x| *x < n); o.dedup(); o };
    let nums = |x: f64| -> Vec<f64> { let mut o = vec![]; if x.is_finite() { for c in [0.0, 1.0, 0.5, x.trunc(), (x * 8.0).round() / 8.0] { if c != x && format!("{}", c).len() < format!("{}", x).len() { o.push(c) } } } o };
    match e {
        Ev::Blk { n, w, bad, block } => {
            for m in ns(*n as u64) { v.push(Ev::Blk { n: m as u32, w: w.clone(), bad: bad.iter().filter(|b| (b.0 as u64) < m).cloned().collect(), block: *block }); }
            for q in 0..bad.len() { let mut b = bad.clone(); b.remove(q); v.push(Ev::Blk { n: *n, w: w.clone(), bad: b, block: *block }); }
            for q in 0..bad.len() { if bad[q].0 > 0 { let mut b = bad.clone(); b[q].0 = 0; if q == 0 { v.push(Ev::Blk { n: *n, w: w.clone(), bad: b, block: *block }); } } }
            let rank = |k: u8| match k { SILENCE => 0, DC => 1, IMPULSE => 2, COUNTER => 3, ALT => 4, _ => 9 };
            for k in [SILENCE, DC, IMPULSE, COUNTER, ALT] { if rank(k) < rank(w.kind) { v.push(Ev::Blk { n: *n, w: Wave { kind: k, amp: 1.0, seed: 0 }, bad: bad.clone(), block: *block }); } }
            if *block { v.push(Ev::Blk { n: *n, w: w.clone(), bad: bad.clone(), block: false }); }
        }
        Ev::Set { which, a } => for q in 0..a.len() { for c in nums(a[q]) { let mut b = a.clone(); b[q] = c; v.push(Ev::Set { which: *which, a: b }); } },
        Ev::Grow(n) => for m in ns(*n) { v.push(Ev::Grow(m)) },
        Ev::GrowNo(n) => for m in ns(*n) { v.push(Ev::GrowNo(m)) },
        Ev::Arm(n) => for m in ns(*n) { v.push(Ev::Arm(m)) },
        Ev::Nth(n) => for m in ns(*n as u64) { v.push(Ev::Nth(m)) },
        Ev::Age { what, n } => { for m in ns(*n) { v.push(Ev::Age { what: *what, n: m }) } if *what == 1 { v.push(Ev::Age { what: 0, n: *n }) } }
        Ev::TapOut(k) => if *k > 0 { for m in ns(*k as u64) { v.push(Ev::TapOut(m as i64)) } },
        Ev::TapIn(k, x) => { if *k > 0 { for m in ns(*k as u64) { v.push(Ev::TapIn(m as i64, *x)) } } for c in nums(*x) { v.push(Ev::TapIn(*k, c)) } }
        Ev::AddTo(k, x) => { if *k > 0 { for m in ns(*k as u64) { v.push(Ev::AddTo(m as i64, *x)) } } for c in nums(*x) { v.push(Ev::AddTo(*k, c)) } }
        Ev::App { win, n, w } => for m in ns(*n as u64) { v.push(Ev::App { win: *win, n: m as u32, w: w.clone() }) },
        Ev::Probe { n, at, w } => { for m in ns(*n as u64) { v.push(Ev::Probe { n: m as u32, at: *at, w: w.clone() }) } for m in ns(*at as u64) { v.push(Ev::Probe { n: *n, at: m as u32, w: w.clone() }) } }
        _ => {}
    }
    v
}

/// Reproduce, minimise, write the replay file, replay it in a fresh process. Returns the path.
pub fn report(prop: &str, seed: u64, f: &Found, dir: &str) -> Result<(String, String), String> {
    let sc = oracle::generate(prop, seed, f.run);
    let flaky = |why: &str| -> Result<(String, String), String> {
        // The simulator is deterministic, so a violation that comes and goes under one seed comes from
        // nondeterminism inside the code under test. It is still a violation: report the whole run.
        if f.class == "hang" || f.class == "abort" || f.class == "harness" { return Err(format!("run {} failed once ({}: {}) but {}", f.run, f.class, f.detail, why)); }
        let txt = format!("# rasp deterministic simulation: violation of {}\n# {}\n# found by VERIF_SEED={} run {}; not minimised: the same run sometimes passes ({})\nprofile {}\nclass {}\nflaky yes\nevent {}\n{}", prop, f.detail.replace('\n', " "), seed, f.run, why, PROFILE, f.class, f.ev, sc.text());
        let path = format!("{}/replays/{}-{}-{}-{}.txt", dir, prop, PROFILE, seed, f.run);
        std::fs::create_dir_all(format!("{}/replays", dir)).map_err(|e| e.to_string())?;
        std::fs::write(&path, &txt).map_err(|e| e.to_string())?;
        Ok((path, format!("{}: {} (the code under test is not deterministic: the same run sometimes passes)", f.class, f.detail)))
    };
    let first = outcome(&[sc.clone()]);
    let mut pre: Vec<Scenario> = vec![];
    let class;
    match first {
        Some(g) => class = g.class,
        None => {
            // only fails after earlier runs in the same process: state leaked between instances
            pre = (f.chunk_start..f.run).map(|r| oracle::generate(prop, seed, r)).collect();
            let mut all = pre.clone();
            all.push(sc.clone());
            match outcome(&all) { Some(g) => class = g.class, None => return flaky("it does not fail again") }
        }
    }
    let budget = if class == "hang" { 0 } else { 40 };
    let mut s = Shrink { class: &class, until: Instant::now() + Duration::from_secs(budget), tries: 0 };
    if !pre.is_empty() {
        let base = pre.clone();
        let keep = s.drop_list::<u8>(base.len(), &mut |s, k| { let p: Vec<Scenario> = k.iter().map(|i| base[*i].clone()).collect(); s.bad(&p, &sc) }, Default::default());
        pre = keep.iter().map(|i| base[*i].clone()).collect();
    }
    let ev = outcome(&pre.iter().cloned().chain(std::iter::once(sc.clone())).collect::<Vec<_>>()).map_or(0, |g| g.ev);
    let small = s.run(&pre, &sc, ev);
    let tries = s.tries;
    let mut all = pre.clone();
    all.push(small.clone());
    let last = match outcome(&all) { Some(l) => l, None => return flaky("its minimised form does not fail again") };
    let mut txt = format!("# rasp deterministic simulation: violation of {}\n# {}\n# found by VERIF_SEED={} run {}; minimised from {} to {} events in {} trial executions\n# replay: bash replay.sh <this file>   (exit 1 and the same class when it reproduces)\nprofile {}\nclass {}\nevent {}\n",
        prop, last.detail.replace('\n', " "), seed, f.run, sc.evs.len(), small.evs.len(), tries, PROFILE, last.class, last.ev);
    for x in &all { txt += &x.text(); }
    let path = format!("{}/replays/{}-{}-{}-{}.txt", dir, prop, PROFILE, seed, f.run);
    std::fs::create_dir_all(format!("{}/replays", dir)).map_err(|e| e.to_string())?;
    std::fs::write(&path, &txt).map_err(|e| e.to_string())?;
    // the file itself, in a fresh process image, must reproduce the violation
    let st = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).output().map_err(|e| e.to_string())?;
    if st.status.code() != Some(1) && last.class != "hang" && last.class != "abort" { return flaky("its minimised form does not fail again"); }
    if st.status.code() != Some(1) { return Err(format!("replay of {} exited {:?}: {}", path, st.status.code(), String::from_utf8_lossy(&st.stdout))); }
    Ok((path, format!("{}: {}", last.class, last.detail)))
}
pub fn replay(path: &str) -> i32 {
    let txt = match std::fs::read_to_string(path) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", path, e); return 2; } };
    let field = |k: &str| txt.lines().find_map(|l| l.strip_prefix(k).map(|v| v.trim().to_string())).unwrap_or_default();
    if field("profile ") != PROFILE { eprintln!("this file needs the {} build, this is {}", field("profile "), PROFILE); return 2; }
    let scs = match Scenario::parse_all(&txt) { Some(s) if !s.is_empty() => s, _ => { eprintln!("{}: cannot parse", path); return 2; } };
    let mut o = outcome(&scs);
    if field("flaky ") == "yes" { for _ in 0..500 { if o.as_ref().map_or(false, |f| f.class == field("class ")) { break; } o = outcome(&scs); } }
    match o {
        Some(f) => { println!("reproduced: class {} at event {}: {}", f.class, f.ev, f.detail); if f.class == field("class ") { 1 } else { println!("(recorded class: {})", field("class ")); 2 } }
        None => { println!("no violation"); 0 }
    }
}
pub fn stats_lines(b: &Batch) -> String {
    let mut s = format!("stat runs {}\nstat planned {}\nstat wall {}\nstat sim_ns {}\nstat scenarios {}\nstat nontrivial {}\nstat shapes {}\nstat interleavings {}\nstat digest {}\n", b.runs, b.planned, b.wall, b.sim_ns, b.scenarios, b.nontrivial, b.shapes, b.interleavings, b.digest);
    for (i, n) in NAMES.iter().enumerate() { s += &format!("count {} {}\n", n, b.counters[i]); }
    s
}
pub fn parse_stats(t: &str) -> BTreeMap<String, f64> {
    let mut m = BTreeMap::new();
    for l in t.lines() { let w: Vec<&str> = l.split_whitespace().collect(); if w.len() == 3 && (w[0] == "stat" || w[0] == "count") { m.insert(w[1].to_string(), w[2].parse().unwrap_or(0.0)); } }
    m
}
