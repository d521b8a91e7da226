//! Deterministic simulation of nd with fault injection: `ndsim check --prop C01 --tier quick`
mod alloc;
mod expr;
mod gen;
mod judge;
mod mem;
mod minim;
mod model;
mod opts;
mod props;
mod runner;

use gen::*;
use judge::*;
use runner::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    detail: String,
    command: Vec<String>,
    seed: u64,
    index: u64,
    original_seed_state: u64,
    event_hash: String,
    case: Case,
    trace: Vec<String>,
}

fn root() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()))
}
fn avx2() -> bool {
    #[cfg(target_arch = "x86_64")]
    {
        return std::env::var_os("NDSIM_NO_AVX2").is_none()
            && is_x86_feature_detected!("avx2")
            && is_x86_feature_detected!("bmi1")
            && is_x86_feature_detected!("bmi2")
            && is_x86_feature_detected!("fma")
            && is_x86_feature_detected!("lzcnt")
            && is_x86_feature_detected!("movbe");
    }
    #[allow(unreachable_code)]
    false
}

struct Args(BTreeMap<String, String>, Vec<String>);
impl Args {
    fn get() -> Self {
        let mut m = BTreeMap::new();
        let mut v = vec![];
        let mut it = std::env::args().skip(1).peekable();
        while let Some(a) = it.next() {
            match a.strip_prefix("--") {
                Some(k) => {
                    let val = if it.peek().is_some_and(|x| !x.starts_with("--")) { it.next().unwrap() } else { "1".into() };
                    m.insert(k.to_string(), val);
                }
                None => v.push(a),
            }
        }
        Args(m, v)
    }
    fn s(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or(d.to_string())
    }
    fn n(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|x| x.parse().ok()).unwrap_or(d)
    }
}

/// listed findings: (property, expression over "class | detail | arguments", text)
fn findings() -> Vec<(String, regex::Regex, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default().lines() {
        if let Some(x) = l.strip_prefix("finding: property=") {
            let mut it = x.splitn(3, '\t');
            if let (Some(p), Some(m), Some(t)) = (it.next(), it.next(), it.next()) {
                if let Ok(r) = regex::Regex::new(m) {
                    v.push((p.to_string(), r, t.to_string()));
                }
            }
        }
    }
    v
}

/// (cases, seconds) per property and tier
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let quick = match prop {
        "C24" => 5000,
        _ => 32000,
    };
    if tier == "thorough" {
        (u64::MAX, 600)
    } else {
        (quick, 240)
    }
}

fn replay_command(c: &Case) -> Vec<String> {
    c.opts.args()
}

fn write_replay(prop: &str, seed: u64, index: u64, c: &Case, r: &Report) -> std::path::PathBuf {
    let dir = root().join("out/replay");
    let _ = std::fs::create_dir_all(&dir);
    let class = r.class.clone().unwrap_or_default();
    let path = dir.join(format!("{prop}-{class}-{seed}-{index}.json"));
    let rp = Replay {
        property: prop.into(),
        class,
        detail: r.detail.clone(),
        command: replay_command(c),
        seed,
        index,
        original_seed_state: case_seed(seed, prop, index),
        event_hash: format!("{:016x}", r.stats.event_hash),
        case: c.clone(),
        trace: r.trace.iter().take(600).cloned().collect(),
    };
    std::fs::write(&path, serde_json::to_vec_pretty(&rp).unwrap()).unwrap();
    path
}

fn sample(prop: &str, seed: u64, i: u64) -> Value {
    let (c, _) = make(prop, seed, i, avx2());
    let r = exec(&c, true);
    json!({
        "index": i,
        "kind": c.kind,
        "build": LIBS[c.lib],
        "command": c.opts.args(),
        "input_bytes": c.cfg.files.iter().map(|f| f.data.len()).collect::<Vec<_>>(),
        "deliveries": c.cfg.deliveries.iter().map(|d| format!("{}: {:?} eintr {}% delay {}%", d.0, d.1.split, d.1.eintr, d.1.delay)).collect::<Vec<_>>(),
        "faults": c.cfg.faults,
        "crash_at": c.cfg.crash_at,
        "race": c.cfg.race,
        "schedule": format!("{:?}", c.cfg.sched).chars().take(80).collect::<String>(),
        "end": r.end,
        "verdict": r.class.clone().unwrap_or("held".into()),
        "event_hash": format!("{:016x}", r.stats.event_hash),
        "steps": r.stats.steps,
        "trace_head": r.trace.iter().take(8).collect::<Vec<_>>(),
    })
}

fn check(a: &Args) -> i32 {
    let prop = a.s("prop", "C25");
    let tier = a.s("tier", &std::env::var("VERIF_TIER").unwrap_or("quick".into()));
    let seed = a.n("seed", std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1));
    let (n, secs) = budget(&prop, &tier);
    let n = a.n("count", n);
    let secs = a.n("seconds", secs);
    let workers = a.n("workers", 8) as usize;
    let start = Instant::now();
    let fs = findings();
    let known = |c: &Case, r: &Report| -> Option<String> {
        let s = format!("{} | {} | {:?}", r.class.as_deref().unwrap_or(""), r.detail, c.opts.args());
        fs.iter().find(|f| f.0 == c.prop && f.1.is_match(&s)).map(|f| f.2.clone())
    };
    let s = Search { prop: prop.clone(), seed, count: n, budget: Duration::from_secs(secs), workers, avx2: avx2(), keep_going: a.0.contains_key("keep-going") };
    let (t, kf) = search(&s, &known);
    let search_s = start.elapsed().as_secs_f64();

    let mut code = 0;
    let mut violation = Value::Null;
    if let Some((i, c, r)) = &t.violation {
        let b = std::env::var("NDSIM_MIN").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 120 } else { 45 });
        let (mc, mr) = minim::minimise(c, r, Duration::from_secs(b));
        let path = write_replay(&prop, seed, *i, &mc, &mr);
        println!("property {prop} is broken: {} (case {i} of seed {seed})", mr.class.as_deref().unwrap_or(""));
        println!("  {}", mr.detail);
        println!("  {}", LIBS[mc.lib]);
        println!("  {:?}", mc.opts.args());
        println!("VIOLATION property={prop} replay={}", path.display());
        violation = json!({"index": i, "class": mr.class, "detail": mr.detail, "replay": path.to_string_lossy(), "command": mc.opts.args()});
        code = 1;
    } else if t.violations > 0 {
        code = 1;
    }
    for f in fs.iter().filter(|f| f.0 == prop) {
        println!("KNOWN-FINDING: property={prop} {} ({} times in this run)", f.2, kf.get(&f.2).unwrap_or(&0));
    }

    let samples: Vec<Value> = if code == 0 { (0..2).map(|i| sample(&prop, seed, i)).collect() } else { vec![violation.clone()] };
    let wall = start.elapsed().as_secs_f64();
    let per_hour = (t.runs as f64 / search_s * 3600.0) as u64;
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": code,
        "coverage": {
            "evaluations": t.cases,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": "case i is drawn from (VERIF_SEED, property, i): command line, file contents, deliveries (short, interrupted, delayed reads and writes), schedule policy, child programs and, for fault kinds, one concrete fault or kill chosen among the calls of a probing run. A run counts as non-trivial if the simulator injected at least one short, interrupted, delayed or failing call, a kill, a closed or full sink, or a scheduling switch, and the case was not set aside (C28, whose runs end before there is any traffic to disturb: if its command line holds a contradiction; distinct by command line and event sequence); two runs are distinct if the hashes of their complete event sequences (task, operation, target, amount, result) differ.",
            "samples": samples,
            "simulated_runs": t.runs,
            "runs_per_hour": per_hour,
            "seeds_per_hour": per_hour,
            "simulated_seconds": t.clock_ns as f64 / 1e9,
            "simulated_steps": t.steps,
            "intercepted_calls": t.ops,
            "scheduling_decisions": t.decisions,
            "context_switches": t.switches,
            "distinct_event_sequences": t.events.len(),
            "distinct_interleavings": t.schedules.len(),
            "interleaving_measure": "hash of the sequence of (task, operation) pairs of runs with at least one context switch",
            "faults_injected": t.faults,
            "kinds": t.kinds,
            "builds": t.libs,
            "stages": t.stages,
            "schedule_policies": t.scheds,
            "ends": t.ends,
            "runs_where_failure_is_required": t.expected_failures,
            "runs_killed": t.crashed,
            "threads_started": t.threads,
            "child_programs_started": t.children,
            "measures": t.measure,
            "measure_sums": t.sums,
            "set_aside": t.skips,
            "known_findings_seen": kf,
            "real_components": "all of nd's own code (src/**, compiled from /repo with --cfg nd_sim; five builds differing in block size, vector instructions and overflow checks), clap, regex, memchr, num-runtime-fmt",
            "stubbed_components": "std::{fs,io,process,thread,sync,time,env} as nd sees them (simstd), tempfile (simtempfile), the shell and its commands and the pager (virtual programs)",
            "violation": violation,
        }
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{prop} {tier} seed {seed}: {} cases, {} runs, {} distinct non-trivial, {} interleavings, {} set aside, {:.1} s",
        t.cases,
        t.runs,
        t.nontrivial.len(),
        t.schedules.len(),
        t.skipped,
        wall
    );
    if a.0.contains_key("verbose") {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]).unwrap());
    }
    code
}

fn replay(path: &str) -> i32 {
    let rp: Replay = serde_json::from_slice(&std::fs::read(path).expect("cannot read the replay file")).expect("not a replay file");
    let r = exec(&rp.case, true);
    let h = format!("{:016x}", r.stats.event_hash);
    println!("{:?}", rp.case.opts.args());
    println!("{}", LIBS[rp.case.lib]);
    for l in &r.trace {
        println!("{l}");
    }
    println!("end {} stderr {}", r.end, r.stderr);
    match &r.class {
        Some(c) => {
            println!("{c}: {}", r.detail);
            println!("recorded: {} events {}; now: {} events {}", rp.class, rp.event_hash, c, h);
            println!("VIOLATION property={} replay={}", rp.property, path);
            1
        }
        None => {
            println!("the violation does not occur any more (recorded: {})", rp.class);
            0
        }
    }
}

fn show(a: &Args) -> i32 {
    let prop = a.s("prop", "C25");
    let (c, p) = make(&prop, a.n("seed", 1), a.n("index", 0), avx2());
    println!("{}", serde_json::to_string_pretty(&c).unwrap().chars().take(6000).collect::<String>());
    if let Some(p) = p {
        println!("probe: {:?} {}", p.class, p.detail);
    }
    let r = exec(&c, true);
    if let Some(out) = a.0.get("out") {
        // the case as a replay file, to experiment with
        let mut r = exec(&c, true);
        r.class.get_or_insert("none".into());
        let path = write_replay(&prop, a.n("seed", 1), a.n("index", 0), &c, &r);
        std::fs::rename(path, out).unwrap();
    }
    for l in r.trace.iter().take(a.n("lines", 80) as usize) {
        println!("{l}");
    }
    println!("{:?}\nclass {:?} {}\nskip {:?}\nend {}\nstderr {}\n{:?}", c.opts.args(), r.class, r.detail, r.skip, r.end, r.stderr, r.measure);
    0
}

/// the same seeds give the same executions, in whatever process and order
fn determinism(a: &Args) -> i32 {
    let n = a.n("count", 200);
    let seed = a.n("seed", 1);
    let mut bad = 0;
    let mut runs = 0;
    for p in props::ALL {
        for i in 0..n {
            let h = |_: u32| {
                let (c, pr) = make(p, seed, i, avx2());
                let r = pr.unwrap_or_else(|| exec(&c, false));
                (c, r.stats.event_hash, r.stats.sched_hash, r.end, r.class)
            };
            let x = h(0);
            let y = h(1);
            runs += 2;
            if x != y {
                bad += 1;
                println!("{p} {i}: {:?} {:?}", (x.1, x.2, &x.3, &x.4), (y.1, y.2, &y.3, &y.4));
            }
        }
    }
    println!("{runs} runs, {bad} differences");
    (bad > 0) as i32
}

fn main() {
    simstd::hooks::install();
    std::panic::set_hook(Box::new(simstd::rt::panic_hook));
    let a = Args::get();
    let code = match a.1.first().map(|x| x.as_str()) {
        Some("check") => check(&a),
        Some("replay") => replay(&a.1[1]),
        Some("show") => show(&a),
        Some("determinism") => determinism(&a),
        _ => {
            eprintln!("usage: ndsim check --prop ID [--tier quick|thorough] [--seed N] [--count N] [--keep-going] | replay FILE | show --prop ID --index N | determinism");
            2
        }
    };
    std::process::exit(code);
}
