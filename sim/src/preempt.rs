//! Preemptive runs (C17). Every instance is owned by one task; tasks run on real threads, but a
//! single baton decides who runs, and it only changes hands where the schedule says: at the n-th
//! arithmetic step inside an operation or between operations. Which thread runs an operation is
//! decided by the schedule too, so instances move between threads.
use crate::oracle::{fill, window_kind, AnyUnit, Ctx, Violation, K};
use crate::rng::{hash2, mix};
use crate::simf;
use crate::sys::{self, Shared};
use crate::trace::*;
use crate::unit::Num;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver, Sender};

static LEFT: AtomicI64 = AtomicI64::new(0);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
enum Cmd { Op { unit: usize, ev: Ev, arm: Option<u64> }, Resume, Stop }
enum Rep { Yield(usize), Done(usize, u64) }
struct Link { me: usize, tx: Sender<Rep>, rx: Receiver<Cmd> }
thread_local! { static LINK: RefCell<Option<Link>> = RefCell::new(None); }

/// Scheduling point: called at every arithmetic step of a task's operation.
pub fn point() {
    if LEFT.fetch_sub(1, SeqCst) > 1 { return; }
    SWITCHES.fetch_add(1, SeqCst);
    LINK.with(|l| {
        let l = l.borrow();
        let l = match l.as_ref() { Some(l) => l, None => return };
        let _ = l.tx.send(Rep::Yield(l.me));
        let _ = l.rx.recv(); // Resume
    });
}
fn hash_out(v: &[f64]) -> u64 {
    let mut h = v.len() as u64;
    for x in v { h = mix(h ^ if x.is_nan() { 0x7ff8 } else if *x == 0.0 { 0 } else { x.to_bits() }); }
    h | 1
}
fn window_frame<T: Num>(win: u8, n: u32, w: &Wave, out: &mut Vec<f64>) {
    let mut b: Vec<T> = fill(n, w, &[]);
    rasp::window::apply_window(&mut b, window_kind(win));
    out.extend(b.iter().map(|v| v.f()));
}
fn operate(u: &mut AnyUnit, e: &Ev, arm: Option<u64>, sched: bool) -> u64 {
    let mut out = vec![];
    if let Some(k) = arm { simf::arm(k); }
    simf::scheduling(sched);
    let r = catch_unwind(AssertUnwindSafe(|| match e {
        Ev::App { win, n, w } => match u { AnyUnit::S(_) => window_frame::<f32>(*win, *n, w, &mut out), AnyUnit::D(_) => window_frame::<f64>(*win, *n, w, &mut out), AnyUnit::M(_) => window_frame::<simf::SimF>(*win, *n, w, &mut out) },
        e => u.apply(e, &mut out),
    }));
    simf::scheduling(false);
    simf::disarm();
    match r { Ok(()) => hash_out(&out), Err(p) => if p.is::<simf::Crash>() { hash_out(&out) ^ 0xC0FFEE00 } else { 0xDEAD_0001 ^ hash_out(&out) } }
}
/// the operations of instance `u`: (event index, event, crash step)
fn plan(sc: &Scenario, u: usize) -> Vec<(usize, Ev, Option<u64>)> {
    let mut v = vec![];
    let mut arm = None;
    for (i, (w, e)) in sc.evs.iter().enumerate() {
        if *w as usize % sc.units.len() != u { continue; }
        if let Ev::Arm(k) = e { arm = Some(*k); continue; }
        v.push((i, e.clone(), arm.take()));
    }
    v
}
fn solo(sc: &Scenario, u: usize, res: &Shared, base: usize) {
    let mut unit = AnyUnit::new(&sc.units[u]);
    for (i, e, arm) in plan(sc, u) { res.set(base + i, operate(&mut unit, &e, arm, false)); }
}
/// Other instances that exist, with their own parameters and a little history, before and beside ours.
fn crowd(sc: &Scenario) -> Vec<AnyUnit> {
    let mut r = crate::rng::Rng::new(hash2(sc.aux, 0xC40));
    let n = match r.below(10) { 0..=4 => 0, 5..=7 => r.below(40), 8 => r.below(400), _ => r.below(3000) };
    let mut v = vec![];
    for _ in 0..n { let u = stranger(sc, &mut r); if r.chance(0.5) { v.push(u); } }
    v
}
fn stranger(sc: &Scenario, r: &mut crate::rng::Rng) -> AnyUnit {
        let twin = if r.chance(0.6) { Some(r.below(sc.units.len())) } else { None };
        let (kind, prec) = if let Some(i) = twin { (sc.units[i].kind, sc.units[i].prec) } else { (if r.chance(0.8) { r.pick(&PROCS) } else { r.pick(&WINS) }, r.pick(&[Prec::F32, Prec::F64, Prec::Sim])) };
        let max = r.below(70) as f64;
        let mut u = AnyUnit::new(&Spec { kind, prec, init: if twin.is_some() && r.chance(0.6) { sc.units[twin.unwrap()].init } else if kind.is_win() { [max, 0.0] } else { [max / 3.0, max] } });
        let mut o = vec![];
        if let (Some(i), true) = (twin, r.chance(0.5)) {
            // with one of the settings its twin will get, or nearly
            let sets: Vec<&Ev> = sc.evs.iter().filter(|(w, e)| *w as usize % sc.units.len() == i && matches!(e, Ev::Set { .. })).map(|(_, e)| e).collect();
            if !sets.is_empty() { let mut e = sets[r.below(sets.len())].clone(); if let Ev::Set { a, .. } = &mut e { if r.chance(0.5) { let q = r.below(a.len()); a[q] *= r.pick(&[1.0000001, 0.9999, 1.01, 2.0]); } } u.apply(&e, &mut o); }
        }
        else if kind.is_rbj() { u.apply(&Ev::Set { which: S_COEF, a: crate::host::rbj_params(r, kind, prec, false) }, &mut o); }
        if kind.is_env() { for w in [S_ALPHA, S_ATTACK, S_RELEASE] { u.apply(&Ev::Set { which: w, a: vec![if w == S_ALPHA { 0.3 } else { r.logu(1.0, 1000.0) }] }, &mut o); } }
        u.apply(&Ev::Blk { n: r.below(6) as u32, w: Wave { kind: NOISE, amp: 1.0, seed: r.next() >> 20 }, bad: vec![], block: r.chance(0.5) }, &mut o);
        u
}
fn interleaved(sc: &Scenario, res: &Shared, base: usize, stat: usize) {
    let n = sc.units.len();
    let mut others = crowd(sc);
    res.set(stat + 3, others.len() as u64);
    let mut churn = crate::rng::Rng::new(hash2(sc.aux, 0xC41));
    let churning = churn.chance(0.4);
    let (mut churned, mut moved) = (0u64, 0u64);
    let mut units: Vec<AnyUnit> = sc.units.iter().map(AnyUnit::new).collect();
    let mut ptr: Vec<usize> = units.iter_mut().map(|u| u as *mut AnyUnit as usize).collect();
    let plans: Vec<_> = (0..n).map(|u| plan(sc, u)).collect();
    let (tx, rx) = channel::<Rep>();
    let mut cmds = vec![];
    let mut threads = vec![];
    for me in 0..n + 1 {
        let (ctx, crx) = channel::<Cmd>();
        let tx = tx.clone();
        cmds.push(ctx);
        threads.push(std::thread::spawn(move || {
            LINK.with(|l| *l.borrow_mut() = Some(Link { me, tx: tx.clone(), rx: crx }));
            loop {
                let c = LINK.with(|l| l.borrow().as_ref().unwrap().rx.recv());
                match c {
                    Ok(Cmd::Op { unit, ev, arm }) => {
                        // SAFETY: only the thread holding the baton touches a unit
                        let u = unsafe { &mut *(unit as *mut AnyUnit) };
                        let h = operate(u, &ev, arm, true);
                        let _ = tx.send(Rep::Done(me, h));
                    }
                    Ok(Cmd::Resume) => {}
                    _ => return,
                }
            }
        }));
    }
    let mut next = vec![0usize; n];
    let mut on: Vec<Option<usize>> = vec![None; n]; // thread a suspended task is on
    let mut busy = vec![false; n + 1];
    let mut home = vec![usize::MAX; n];
    let mut turn = 0usize;
    let mut calm = false;
    let (mut migrations, mut trail) = (0u64, 0u64);
    let mut sched = sc.sched.iter();
    let finished = |t: usize, next: &Vec<usize>, on: &Vec<Option<usize>>| next[t] >= plans[t].len() && on[t].is_none();
    while (0..n).any(|t| !finished(t, &next, &on)) {
        let (gap, want) = match sched.next() { Some((g, t)) => (*g as i64, *t as usize % n), None => (i64::MAX / 2, turn) };
        let mut t = want;
        while finished(t, &next, &on) { t = (t + 1) % n; }
        turn = t;
        LEFT.store(if calm { i64::MAX / 2 } else { gap.max(1) }, SeqCst);
        loop {
            let th = match on[t] {
                Some(th) => { let _ = cmds[th].send(Cmd::Resume); th }
                None => {
                    if next[t] >= plans[t].len() { break; }
                    let (i, e, arm) = plans[t][next[t]].clone();
                    let idle: Vec<usize> = (0..=n).filter(|w| !busy[*w]).collect();
                    let th = idle[hash2(sc.aux, i as u64) as usize % idle.len()];
                    if home[t] != usize::MAX && home[t] != th { migrations += 1; }
                    home[t] = th;
                    busy[th] = true;
                    on[t] = Some(th);
                    let _ = cmds[th].send(Cmd::Op { unit: ptr[t], ev: e, arm });
                    th
                }
            };
            // A worker that is silent this long waits for something a suspended one holds (a lock in rasp):
            // let the suspended ones finish. They are then no longer scheduled, only awaited.
            let rep = match rx.recv_timeout(std::time::Duration::from_millis(400)) {
                Ok(r) => r,
                Err(_) => {
                    calm = true;
                    let mut waiting = 1;
                    LEFT.store(i64::MAX / 2, SeqCst);
                    let held: Vec<usize> = (0..n).filter(|x| *x != t && on[*x].is_some()).collect();
                    for x in held { let _ = cmds[on[x].unwrap()].send(Cmd::Resume); waiting += 1; }
                    while waiting > 0 {
                        match rx.recv().expect("worker") {
                            Rep::Done(w, h) => { let x = (0..n).find(|x| on[*x] == Some(w)).unwrap(); res.set(base + plans[x][next[x]].0, h); busy[w] = false; on[x] = None; next[x] += 1; waiting -= 1; }
                            Rep::Yield(w) => { let _ = cmds[w].send(Cmd::Resume); }
                        }
                    }
                    break;
                }
            };
            match rep {
                Rep::Yield(w) => { debug_assert_eq!(w, th); trail = hash2(trail, (t * 1000 + next[t]) as u64 * 2); break; }
                Rep::Done(w, h) => {
                    debug_assert_eq!(w, th);
                    res.set(base + plans[t][next[t]].0, h);
                    busy[w] = false;
                    on[t] = None;
                    next[t] += 1;
                    trail = hash2(trail, (t * 1000 + next[t]) as u64 * 2 + 1);
                    // other instances come and go meanwhile, but only while none of ours is suspended inside an
                    // operation: this thread must never wait for a lock that a suspended worker might hold
                    if churning && on.iter().all(|x| x.is_none()) && churn.chance(0.4) {
                        churned += 1;
                        if others.is_empty() || churn.chance(0.5) { let u = stranger(sc, &mut churn); if others.len() < 4000 { others.push(u) } } else { let i = churn.below(others.len()); others.swap_remove(i); }
                    }
                    // objects are moved about in memory, into each other's places
                    if n > 1 && churn.chance(0.15) {
                        let (a, b) = (churn.below(n), churn.below(n));
                        if a != b && on[a].is_none() && on[b].is_none() {
                            // SAFETY: neither is inside an operation, and these are different places
                            unsafe { std::ptr::swap(ptr[a] as *mut AnyUnit, ptr[b] as *mut AnyUnit) };
                            ptr.swap(a, b);
                            moved += 1;
                        }
                    }
                    if LEFT.fetch_sub(1, SeqCst) <= 1 { break; }
                }
            }
        }
    }
    for c in &cmds { let _ = c.send(Cmd::Stop); }
    for t in threads { let _ = t.join(); }
    res.set(stat + 4, churned);
    res.set(stat + 5, moved);
    res.set(stat, SWITCHES.load(SeqCst));
    res.set(stat + 1, migrations);
    res.set(stat + 2, trail);
}
pub fn c17(sc: &Scenario, cx: &mut Ctx) -> Result<(), Violation> {
    let ne = sc.evs.len().max(1);
    let n = sc.units.len();
    let res = Shared::new(3 * ne + 16);
    let (b1, b2, st) = (ne, 2 * ne, 3 * ne);
    let guard = |what: &str, end: sys::End| -> Result<(), Violation> {
        match end { sys::End::Code(0) => Ok(()), e => Err(Violation { class: "abort".into(), detail: format!("{} ended with {:?}", what, e), ev: 0 }) }
    };
    for u in 0..n {
        let p = sys::spawn(|| { sys::watchdog(20); solo(sc, u, &res, 0) });
        guard(&format!("instance {} ({}) running alone", u, sc.units[u].kind.name()), sys::wait(p))?;
    }
    for (k, base) in [(0, b1), (1, b2)] {
        let p = sys::spawn(|| { sys::watchdog(30); crate::oracle::SHIFT.store(1 + (sc.aux >> 7) as usize % 7 + 8 * k, SeqCst); interleaved(sc, &res, base, st + 6 * k) });
        guard("interleaved execution", sys::wait(p))?;
    }
    cx.add(K::preemption_mid_operation, res.get(st));
    cx.add(K::thread_migration, res.get(st + 1));
    cx.sched = res.get(st + 2);
    if res.get(st + 3) > 0 { cx.n(K::probe_crowd_of_other_instances); }
    cx.add(K::instance_churn, res.get(st + 4));
    cx.add(K::instance_moved, res.get(st + 5));
    let mut seen: Vec<(Kind, Vec<u64>)> = vec![];
    for (i, (w, e)) in sc.evs.iter().enumerate() {
        cx.ev = i;
        if let Ev::Arm(_) = e { continue; }
        let u = *w as usize % n;
        if let Ev::Set { which: S_COEF, a } = e { let key = (sc.units[u].kind, a.iter().map(|v| v.to_bits()).collect()); if seen.contains(&key) { cx.n(K::probe_same_tuning_shared) } else { seen.push(key) } }
        let (s, x, y) = (res.get(i), res.get(b1 + i), res.get(b2 + i));
        cx.add(K::comparisons, 2);
        let nm = format!("instance {} ({}, {:?}): {}", u, sc.units[u].kind.name(), sc.units[u].prec, e.human());
        if x != y { return cx.fail("not-repeatable", format!("{}: two executions of the same schedule gave different results", nm)); }
        if s != x { return cx.fail("depends-on-others", format!("{}: result with {} other instances and this interleaving differs from the result of the same calls made alone", nm, n - 1)); }
    }
    Ok(())
}
