#![feature(alloc_error_hook)]
//! raspsim: deterministic simulation with fault injection for rasp.
mod alloc; mod driver; mod host; mod model; mod oracle; mod preempt; mod rng; mod simf; mod sys; mod trace; mod unit;
use std::collections::BTreeMap;
use std::sync::Mutex;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;
static LAST: Mutex<String> = Mutex::new(String::new());
pub fn last_panic() -> String { LAST.lock().map(|s| s.clone()).unwrap_or_default() }

/// (runs in the checked build, runs in the release build) of a quick check; thorough multiplies
fn budget(p: &str) -> (u64, u64) {
    match p {
        "C17" => (60_000, 12_000),
        "C21" => (160_000, 60_000),
        "C01" | "C08" | "C09" | "C20" => (600_000, 120_000),
        _ => (1_000_000, 200_000),
    }
}
fn faults() -> &'static [&'static str] {
    &["corrupt_sample", "corrupt_tap_write", "crash_in_operation", "crash_armed_not_reached", "allocation_refused", "growth_size_unrepresentable", "build_refused", "operation_under_memory_exhaustion", "garbage_parameter",
      "control_lost", "control_duplicated", "stall", "buffer_dropped", "buffer_repeated", "preemption_mid_operation", "thread_migration", "instance_churn", "instance_moved"]
}
fn esc(s: &str) -> String { s.chars().flat_map(|c| match c { '"' => vec!['\\', '"'], '\\' => vec!['\\', '\\'], '\n' => vec!['\\', 'n'], c if (c as u32) < 32 => vec![' '], c => vec![c] }).collect() }
fn obj(m: &[(String, String)]) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect::<Vec<_>>().join(", ")) }

fn main() {
    alloc::install();
    LAST.lock().unwrap().reserve(4096); // so that noting a panic needs no memory
    std::panic::set_hook(Box::new(|i| {
        alloc::refuse(false);
        use std::fmt::Write;
        if let Ok(mut l) = LAST.lock() { l.clear(); if let Some(x) = i.location() { let _ = write!(l, "{}:{}", x.file(), x.line()); } }
    }));
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed: u64 = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let jobs: usize = opt("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() > 3 => std::process::exit(check(&a[2], &a[3], seed, jobs, &dir, &opt)),
        Some("batch") if a.len() > 2 => {
            let (from, n) = (opt("--from").and_then(|s| s.parse().ok()).unwrap_or(0), opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(1000));
            let cap = opt("--cap").and_then(|s| s.parse().ok()).unwrap_or(600.0);
            let b = driver::batch(&a[2], seed, from, n, jobs, cap);
            print!("{}", driver::stats_lines(&b));
            if let Some(f) = &b.found {
                println!("found run {} event {} class {}: {}", f.run, f.ev, f.class, f.detail);
                if opt("--noreport").is_none() { match driver::report(&a[2], seed, f, &dir) { Ok((p, d)) => { println!("replay {} {}", p, d); std::process::exit(1) } Err(e) => { println!("unconfirmed {}", e); std::process::exit(4) } } }
                std::process::exit(1);
            }
        }
        Some("replay") if a.len() > 2 => std::process::exit(driver::replay(&a[2])),
        Some("show") if a.len() > 3 => print!("{}", oracle::generate(&a[2], seed, a[3].parse().unwrap_or(0)).text()),
        _ => { eprintln!("usage: raspsim check ID quick|thorough | batch ID --from N --runs N | replay FILE | show ID RUN"); std::process::exit(2) }
    }
}

fn check(prop: &str, tier: &str, seed: u64, jobs: usize, dir: &str, opt: &dyn Fn(&str) -> Option<String>) -> i32 {
    if !oracle::PROPS.contains(&prop) { eprintln!("unknown property {}", prop); return 2; }
    let t0 = std::time::Instant::now();
    let (mut n, mut m) = budget(prop);
    let mut cap = 150.0;
    if tier == "thorough" { n *= 20; m *= 20; cap = 400.0; }
    if let Some(x) = opt("--runs").and_then(|s| s.parse().ok()) { n = x; m = x / 5; }
    println!("raspsim {} {}: VERIF_SEED={} runs {} (checked build) + {} (release build)", prop, tier, seed, n, m);
    let b = driver::batch(prop, seed, 0, n, jobs, cap);
    let mut total: BTreeMap<String, f64> = driver::parse_stats(&driver::stats_lines(&b));
    let mut violation: Option<String> = None;
    let mut rc = 0;
    if let Some(f) = &b.found {
        println!("violation in run {}: {}: {}", f.run, f.class, f.detail);
        match driver::report(prop, seed, f, dir) {
            Ok((p, d)) => { println!("minimised: {}", d); violation = Some(p); }
            Err(e) => { println!("ERROR not reproducible: {}", e); rc = 4; }
        }
    }
    let mut rel: BTreeMap<String, f64> = BTreeMap::new();
    if violation.is_none() && rc == 0 && m > 0 {
        let bin = opt("--release-bin").unwrap_or_else(|| format!("{}/sim/target/release/raspsim", dir));
        let out = std::process::Command::new(&bin).args(["batch", prop, "--seed", &seed.to_string(), "--from", &n.to_string(), "--runs", &m.to_string(), "--jobs", &jobs.to_string(), "--cap", &cap.to_string()]).output();
        match out {
            Ok(o) => {
                let t = String::from_utf8_lossy(&o.stdout).into_owned();
                rel = driver::parse_stats(&t);
                for (k, v) in &rel { if k != "digest" { *total.entry(k.clone()).or_insert(0.0) += v; } }
                match o.status.code() {
                    Some(0) => {}
                    Some(1) => { for l in t.lines() { if l.starts_with("found") { println!("release build: {}", l) } if let Some(r) = l.strip_prefix("replay ") { violation = Some(r.split(' ').next().unwrap().to_string()); println!("minimised: {}", r) } } if violation.is_none() { rc = 4 } }
                    c => { println!("ERROR release batch ended with {:?}: {}{}", c, t.lines().last().unwrap_or(""), String::from_utf8_lossy(&o.stderr)); rc = 4; }
                }
            }
            Err(e) => { println!("ERROR cannot run {}: {}", bin, e); rc = 4; }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let g = |k: &str| total.get(k).copied().unwrap_or(0.0);
    let int = |v: f64| format!("{}", v as u64);
    let samples: Vec<String> = (0..3u64).map(|r| { let s = oracle::generate(prop, seed, r); format!("\"{}\"", esc(&format!("run {}: {} | {}", r, s.units.iter().map(|u| format!("{} {:?} {:?}", u.kind.name(), u.prec, u.init)).collect::<Vec<_>>().join(", "),
        s.evs.iter().take(14).map(|(u, e)| format!("[{}] {}", u, e.human())).collect::<Vec<_>>().join("; ") + if s.evs.len() > 14 { " ..." } else { "" }))) }).collect();
    let mut cov: Vec<(String, String)> = vec![];
    let mut put = |k: &str, v: String| cov.push((k.to_string(), v));
    put("evaluations", int(g("runs")));
    put("distinct_nontrivial", int(g("nontrivial")));
    put("rule", "\"one evaluation is one simulated run: a seeded discrete-event host (audio callbacks, control channel, observers, taps, resets, growth, memory pressure, crashes) drives real rasp objects and the property's oracle judges every step; distinct = different complete event traces (64-bit hash); non-trivial = the oracle compared at least one value and the run contained at least one fault or non-audio event\"".into());
    put("samples", format!("[{}]", samples.join(", ")));
    if g("runs") < g("planned") { put("runs_not_done_within_the_time_limit", int(g("planned") - g("runs"))); }
    put("runs_per_hour_one_seed_each", int(g("runs") / (g("wall")).max(1e-9) * 3600.0));
    put("simulated_seconds", format!("{:.3}", g("sim_ns") / 1e9));
    put("samples_processed", int(g("samples")));
    put("oracle_comparisons", int(g("comparisons")));
    put("runs_with_faults", int(g("runs_with_faults")));
    put("faults_injected", obj(&faults().iter().filter(|k| g(k) > 0.0).map(|k| (k.to_string(), int(g(k)))).collect::<Vec<_>>()));
    put("events_delivered", obj(&["blocks", "empty_buffers", "parameter_changes", "growths", "clears", "polls", "tap_ops", "window_steps", "window_frames", "control_sent"].iter().filter(|k| g(k) > 0.0).map(|k| (k.to_string(), int(g(k)))).collect::<Vec<_>>()));
    put("reach_probes", obj(&oracle::NAMES.iter().filter(|k| k.starts_with("probe_") && g(k) > 0.0).map(|k| (k[6..].to_string(), int(g(k)))).collect::<Vec<_>>()));
    put("distinct_traces", int(g("scenarios")));
    put("distinct_event_shapes", int(g("shapes")));
    put("distinct_event_shapes_measure", "\"different (type, precision, size class) sequences of delivered events, numbers and waveforms ignored\"".into());
    if prop == "C17" { put("distinct_interleavings", int(g("interleavings"))); put("distinct_interleavings_measure", "\"different sequences of (task, operation, preempted or completed) as executed\"".into()); }
    put("determinism_digest", format!("\"{:016x}\"", b.digest));
    put("release_build_runs", int(rel.get("runs").copied().unwrap_or(0.0)));
    put("real_components", "[\"every rasp type and function called (compiled from /repo's working tree)\", \"operating-system threads (C17), parked and released one at a time\"]".into());
    put("stub_components", "[\"audio host, control surfaces and channel, clock (discrete-event)\", \"global allocator (can refuse)\", \"sample type SimF (crash and scheduling points) where used; f32 and f64 elsewhere\"]".into());
    if cfg!(feature = "plain") { put("seam_left_out", "\"sample type SimF: this tree's generics do not take it, so crashes inside arithmetic and preemption at it were not simulated\"".into()); println!("note: built without the sample type SimF"); }
    if cfg!(feature = "closed") { put("seam_left_out_2", "\"caller's own processor: this tree's Processor trait does not take it\"".into()); println!("note: built without a caller's own processor"); }
    let ev = obj(&[("property".into(), format!("\"{}\"", prop)), ("tier".into(), format!("\"{}\"", if tier == "thorough" { "thorough" } else { "quick" })), ("seed".into(), seed.to_string()), ("level".into(), "\"exploration\"".into()),
        ("coverage".into(), obj(&cov)), ("assumptions".into(), "[\"runs sampled, not enumerated\", \"faults limited to those listed\"]".into()), ("wall_s".into(), format!("{:.3}", wall)), ("violations".into(), (violation.is_some() as u8).to_string())]);
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", dir, prop), ev + "\n") { println!("ERROR evidence: {}", e); return 5; }
    if let Some(p) = violation { println!("VIOLATION property={} replay={}", prop, p); return 1; }
    if rc == 0 {
        if g("runs") < g("planned") { println!("note: {} of {} runs done within the time limit", g("runs"), g("planned")); }
        if g("comparisons") == 0.0 { println!("ERROR nothing was compared"); return 4; }
        println!("OK {}: {} runs, {} comparisons, {:.1} s", prop, g("runs"), g("comparisons"), wall);
    }
    rc
}
