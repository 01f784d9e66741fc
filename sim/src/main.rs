#[macro_use]
mod cluster;
mod core;
mod forkrun;
mod hist;
mod interpose;
mod logs;
mod sc;
mod shrink;

use crate::core::{Outcome, Plan};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::os::fd::FromRawFd;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    core::install_panic_hook();
    logs::init();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args),
        Some("replay") => replay(&args),
        Some("one") => one(&args),
        Some("determinism") => determinism(&args),
        _ => {
            eprintln!("usage: coerce-sim check --property ID [--tier quick|thorough] [--seed N] [--runs N] [--secs N] [--evidence F] [--replays DIR] [--known F]\n       coerce-sim replay FILE\n       coerce-sim one --property ID --seed N\n       coerce-sim determinism --runs N");
            std::process::exit(2);
        }
    }
}

/// seed of the i-th run
fn run_seed(base: u64, i: u64) -> u64 {
    (base << 32) | i
}

/// debug: one run with its trace
fn one(args: &[String]) {
    let prop = arg(args, "--property").unwrap();
    let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
    let base: u64 = arg(args, "--base").map_or(1, |s| s.parse().unwrap());
    let plan = sc::gen(&prop, run_seed(base, seed), arg(args, "--tier").as_deref() == Some("thorough"));
    if args.iter().any(|a| a == "--plan") {
        println!("{}", serde_json::to_string_pretty(&plan).unwrap());
    }
    let o = forkrun::run_forked(&plan, true, 120);
    for l in &o.log {
        println!("{l}");
    }
    println!("steps={} multi={} sim_ms={} hash={:x} err={:?}", o.steps, o.multi, o.sim_ms, o.hash, o.error);
    println!("counters={:?}", o.counters);
    for p in &o.panics {
        println!("PANIC {p}");
    }
    for v in &o.violations {
        println!("VIOLATED {} {}", v.0, v.1);
    }
}

#[derive(Default)]
struct Agg {
    runs: u64,
    steps: u64,
    multi: u64,
    sim_ms: u64,
    counters: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
    fps: BTreeSet<u64>,
    errors: Vec<String>,
    error_count: u64,
    bad: Vec<(u64, Vec<(String, String)>)>,
    policies: BTreeMap<String, u64>,
    scenarios: BTreeMap<String, u64>,
    panics: BTreeMap<String, u64>,
    nontrivial: u64,
}

/// findings recorded in the known-findings file: (match prefix, description)
fn known(args: &[String], prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Some(t) = arg(args, "--known").and_then(|f| std::fs::read_to_string(f).ok()) {
        for l in t.lines() {
            let Some(l) = l.strip_prefix("finding: property=") else { continue };
            let Some((id, rest)) = l.split_once(' ') else { continue };
            let Some((m, what)) = rest.trim().strip_prefix("match=\"").and_then(|r| r.split_once('"')) else { continue };
            if id == prop {
                v.push((m.to_string(), what.trim().to_string()));
            }
        }
    }
    v
}

/// removes violations that are listed findings
fn sift(o: &mut Outcome, prop: &str, kn: &[(String, String)]) {
    let mut n = 0;
    o.violations.retain(|v| {
        let k = v.0 == prop && kn.iter().any(|k| v.1.starts_with(&k.0));
        n += k as u64;
        !k
    });
    if n > 0 {
        *o.counters.entry("known_finding_occurrences".into()).or_default() += n;
    }
}

fn sweep(prop: &str, kn: &[(String, String)], base: u64, runs: u64, secs: f64, workers: u64, thorough: bool) -> Agg {
    let start = interpose::real_now();
    let (r, w) = forkrun::pipe();
    let mut pids = vec![];
    for k in 0..workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::close(r) };
            let mut i = k;
            while i < runs {
                if interpose::real_now() - start > secs {
                    break;
                }
                let plan = sc::gen(prop, run_seed(base, i), thorough);
                let mut o = forkrun::run_forked(&plan, false, 60);
                o.recorded.clear();
                sift(&mut o, prop, kn);
                let line = serde_json::to_string(&json!({"i": i, "o": o, "p": plan.sched.policy, "s": plan.scenario})).unwrap() + "\n";
                // atomic up to PIPE_BUF is not guaranteed for long lines: lock
                unsafe { libc::flock(w, libc::LOCK_EX) };
                let hdr = format!("{:010}", line.len());
                let mut buf = hdr.into_bytes();
                buf.extend_from_slice(line.as_bytes());
                lock_write(w, &buf, k);
                let bad = o.violations.iter().any(|v| v.0 == prop);
                if bad {
                    // smaller seeds first: the others finish their current run
                    break;
                }
                i += workers;
            }
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    unsafe { libc::close(w) };
    let mut a = Agg::default();
    let mut f = unsafe { std::fs::File::from_raw_fd(r) };
    let mut stop = false;
    loop {
        let mut hdr = [0u8; 10];
        if f.read_exact(&mut hdr).is_err() {
            break;
        }
        let n: usize = std::str::from_utf8(&hdr).unwrap().parse().unwrap();
        let mut body = vec![0u8; n];
        if f.read_exact(&mut body).is_err() {
            break;
        }
        let v: Value = serde_json::from_slice(&body).unwrap();
        let o: Outcome = serde_json::from_value(v["o"].clone()).unwrap();
        let i = v["i"].as_u64().unwrap();
        a.runs += 1;
        a.steps += o.steps;
        a.multi += o.multi;
        a.sim_ms += o.sim_ms;
        a.hashes.insert(o.hash);
        a.fps.insert(o.fp);
        if o.multi > 0 {
            a.nontrivial += 1;
        }
        *a.policies.entry(format!("policy{}", v["p"])).or_default() += 1;
        *a.scenarios.entry(v["s"].as_str().unwrap_or("").to_string()).or_default() += 1;
        for (k, c) in o.counters {
            *a.counters.entry(k).or_default() += c;
        }
        for p in &o.panics {
            let key = p.split_whitespace().next().unwrap_or("").to_string();
            *a.panics.entry(key).or_default() += 1;
        }
        if let Some(e) = o.error {
            a.error_count += 1;
            if a.errors.len() < 5 {
                a.errors.push(format!("run {i}: {e}"));
            }
        }
        if !o.violations.is_empty() {
            let mine = o.violations.iter().any(|x| x.0 == prop);
            a.bad.push((i, o.violations));
            if mine && !stop {
                stop = true;
                for p in &pids {
                    unsafe { libc::kill(*p, libc::SIGTERM) };
                }
            }
        }
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
    }
    a.bad.sort_by_key(|b| b.0);
    a
}

/// all workers share one pipe; an advisory lock file serialises the writes
fn lock_write(w: i32, buf: &[u8], _k: u64) {
    static mut LOCK: i32 = -1;
    unsafe {
        if LOCK < 0 {
            let name = format!("/tmp/coerce-sim-lock-{}\0", libc::getppid());
            LOCK = libc::open(name.as_ptr() as *const _, libc::O_CREAT | libc::O_RDWR, 0o600);
        }
        libc::flock(LOCK, libc::LOCK_EX);
        forkrun::write_all(w, buf);
        libc::flock(LOCK, libc::LOCK_UN);
    }
}

fn determinism(args: &[String]) {
    let runs: u64 = arg(args, "--runs").map_or(20, |s| s.parse().unwrap());
    let base: u64 = arg(args, "--seed").map_or(1, |s| s.parse().unwrap());
    let only = arg(args, "--property");
    let mut bad = 0;
    for p in sc::PROPS {
        if only.as_deref().map_or(false, |o| o != p.0) {
            continue;
        }
        for i in 0..runs {
            let plan = sc::gen(p.0, run_seed(base, i), false);
            let a = forkrun::run_forked(&plan, true, 120);
            let b = forkrun::run_forked(&plan, true, 120);
            if a.hash != b.hash || a.log != b.log || a.steps != b.steps || a.violations != b.violations {
                bad += 1;
                let d = a.log.iter().zip(b.log.iter()).position(|(x, y)| x != y);
                println!("NONDETERMINISTIC {} run {} first diff {:?}", p.0, i, d.map(|d| (&a.log[d], &b.log[d])));
            }
        }
        println!("{} {} runs x2 compared", p.0, runs);
    }
    std::process::exit(if bad > 0 { 1 } else { 0 });
}

fn check(args: &[String]) {
    let prop = arg(args, "--property").expect("--property");
    let info = match sc::PROPS.iter().find(|p| p.0 == prop) {
        Some(i) => i,
        None => {
            eprintln!("unknown property {prop}");
            std::process::exit(2)
        }
    };
    let tier = arg(args, "--tier").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let base: u64 = arg(args, "--seed").map_or(1, |s| s.parse().unwrap_or(1));
    let runs: u64 = arg(args, "--runs").map_or(if thorough { info.2 * 20 } else { info.2 }, |s| s.parse().unwrap());
    let secs: f64 = arg(args, "--secs").map_or(if thorough { 1800.0 } else { 240.0 }, |s| s.parse().unwrap());
    let replays = arg(args, "--replays").unwrap_or("/verif/replays".into());
    let t0 = interpose::real_now();
    let cpus = unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN) }.max(1) as u64;
    let kn = known(args, &prop);
    let a = sweep(&prop, &kn, base, runs, secs, cpus.min(16), thorough);
    let sweep_s = interpose::real_now() - t0;
    let _ = std::fs::remove_file(format!("/tmp/coerce-sim-lock-{}", std::process::id()));

    // determinism self-check on a few of the runs of this very check
    let mut det = 0;
    let mut nondet = vec![];
    for i in 0..4u64.min(runs) {
        let plan = sc::gen(&prop, run_seed(base, i), thorough);
        let x = forkrun::run_forked(&plan, true, 60);
        let y = forkrun::run_forked(&plan, true, 60);
        det += 1;
        if x.hash != y.hash || x.log != y.log {
            nondet.push(i);
        }
    }

    let mine: Vec<&(u64, Vec<(String, String)>)> =
        a.bad.iter().filter(|b| b.1.iter().any(|v| v.0 == prop)).collect();
    let mut violation_out = vec![];
    let mut code = 0;
    for b in mine.iter().take(3) {
        // confirm before shrinking
        let plan = sc::gen(&prop, run_seed(base, b.0), thorough);
        let mut again = forkrun::run_forked(&plan, false, 120);
        sift(&mut again, &prop, &kn);
        let msg = match again.violations.iter().find(|v| v.0 == prop) {
            Some(v) => v.1.clone(),
            None => {
                nondet.push(b.0);
                continue;
            }
        };
        let (small, out) = shrink::shrink(&plan, &prop, &msg, 60.0);
        let _ = std::fs::create_dir_all(&replays);
        let path = format!("{}/{}-{}-{}.json", replays, prop, base, b.0);
        let msg = out.violations.iter().find(|v| v.0 == prop).map(|v| v.1.clone()).unwrap_or(msg);
        let doc = json!({
            "property": prop, "violation": msg, "seed": run_seed(base, b.0), "hash": format!("{:016x}", out.hash),
            "original_ops": plan.ops.len(), "original_faults": plan.faults.len(),
            "ops": small.ops.len(), "faults": small.faults.len(), "schedule_deviations": small.sched.deviations.len(),
            "plan": small, "trace": out.log, "panics": out.panics,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        // replay in a fresh process
        let ok = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", &path, "--quiet"]).status().map(|s| s.code() == Some(1)).unwrap_or(false);
        println!("property {prop}: {msg}");
        println!("  run {} seed {:#x}; minimised to {} ops, {} faults, {} schedule deviations; replay in a fresh process {}",
            b.0, run_seed(base, b.0), small.ops.len(), small.faults.len(), small.sched.deviations.len(), if ok { "reproduces" } else { "DOES NOT reproduce" });
        println!("VIOLATION property={prop} replay={path}");
        violation_out.push(json!({"run": b.0, "message": msg, "replay": path, "replay_reproduces": ok}));
        code = 1;
        break;
    }

    for k in &kn {
        println!("KNOWN-FINDING: property={prop} {}", k.1);
    }
    let wall = interpose::real_now() - t0;
    let faults: BTreeMap<&String, &u64> = a.counters.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let samples: Vec<Value> = (0..3u64.min(runs)).map(|i| {
        let p = sc::gen(&prop, run_seed(base, i), thorough);
        json!({"run": i, "seed": run_seed(base, i), "scenario": p.scenario, "ops": p.ops.len(), "faults": p.faults.len(), "policy": p.sched.policy, "cfg": p.cfg})
    }).collect();
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": info.3,
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.hashes.len().min(a.nontrivial as usize),
            "rule": "one evaluation = one simulated run of a generated plan; distinct = distinct hash over the full sequence of scheduling decisions and observable events; nontrivial = at least one step at which several tasks were runnable",
            "samples": samples,
            "distinct_abstract_histories": a.fps.len(),
            "runs_planned": runs,
            "runs_per_hour": if sweep_s > 0.0 { (a.runs as f64 / sweep_s * 3600.0) as u64 } else { 0 },
            "scheduling_steps": a.steps, "steps_with_choice": a.multi,
            "simulated_seconds": a.sim_ms as f64 / 1000.0,
            "faults_injected": faults,
            "counters": a.counters,
            "schedule_policies": a.policies,
            "scenarios": a.scenarios,
            "determinism_rechecks": det, "determinism_mismatches": nondet.len(),
            "harness_errors": a.error_count, "harness_error_samples": a.errors,
            "panics_in_code_under_test": a.panics,
            "components_real": info.4, "components_stubbed": sc::STUBS,
        },
        "assumptions": sc::ASSUMPTIONS,
        "wall_s": wall,
        "violations": violation_out,
    });
    if let Some(f) = arg(args, "--evidence") {
        if let Some(d) = std::path::Path::new(&f).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&f, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    println!("{prop} {tier}: {} runs, {} distinct schedules, {} steps, {:.0} simulated s, {:.1} s wall, {} harness errors, {} determinism mismatches{}",
        a.runs, a.hashes.len(), a.steps, a.sim_ms as f64 / 1000.0, wall, a.error_count, nondet.len(),
        if code == 0 { ", no violation" } else { "" });
    for e in &a.errors {
        println!("  harness error: {e}");
    }
    if std::env::var("SIM_OTHERS").is_ok() {
        for b in a.bad.iter().take(10) {
            println!("  other: run {} {:?}", b.0, b.1);
        }
    }
    std::process::exit(code);
}

fn replay(args: &[String]) {
    let quiet = args.iter().any(|a| a == "--quiet");
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).unwrap();
    let plan: Plan = serde_json::from_value(doc["plan"].clone()).unwrap();
    let prop = doc["property"].as_str().unwrap();
    let o = forkrun::run_forked(&plan, true, 120);
    let same = format!("{:016x}", o.hash) == doc["hash"].as_str().unwrap_or("");
    let v = o.violations.iter().find(|v| v.0 == prop);
    if !quiet {
        for l in &o.log {
            println!("{l}");
        }
        println!("hash {:016x} ({})", o.hash, if same { "identical to the recorded execution" } else { "differs from the recorded execution" });
    }
    match v {
        Some(v) => {
            if !quiet {
                println!("{} {}", v.0, v.1);
                println!("VIOLATION property={prop} replay={}", args[2]);
            }
            std::process::exit(1)
        }
        None => {
            if !quiet {
                println!("not reproduced on this tree");
            }
            std::process::exit(0)
        }
    }
}
