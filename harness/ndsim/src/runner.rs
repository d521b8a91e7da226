//! Every simulated run happens in a process of its own.
use crate::gen::*;
use crate::judge::*;
use serde::{Deserialize, Serialize};
use simstd::rt::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// runs `f` in a forked child and returns what it wrote; Err(how it died)
pub fn forked(cpu_s: u64, wall_s: u64, f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            let lim = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            if std::env::var_os("NDSIM_STDERR").is_none() {
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(n, 2);
            }
            let out = f();
            let mut file = std::fs::File::from_raw_fd(fds[1]);
            let _ = file.write_all(&out);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut file = std::fs::File::from_raw_fd(fds[0]);
        let start = Instant::now();
        let mut out = vec![];
        let mut buf = vec![0u8; 65536];
        let mut hung = false;
        loop {
            let left = Duration::from_secs(wall_s).saturating_sub(start.elapsed());
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, left.as_millis() as i32);
            if r == 0 {
                hung = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            if r < 0 {
                continue;
            }
            match file.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => out.extend_from_slice(&buf[..n]),
                Err(_) => break,
            }
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if hung {
            return Err("hang".into());
        }
        if libc::WIFSIGNALED(st) {
            return Err(match libc::WTERMSIG(st) {
                libc::SIGXCPU | libc::SIGKILL => "runs away".to_string(),
                libc::SIGABRT => "aborts (SIGABRT)".to_string(),
                libc::SIGSEGV => "crashes (SIGSEGV)".to_string(),
                s => format!("dies from signal {s}"),
            });
        }
        Ok(out)
    }
}

/// the case asks for more output than the simulator's memory and time are meant for
fn too_large(c: &Case) -> bool {
    let r = forked(40, 100, || {
        let (files, _) = env_files(c);
        let skip = expectation(c, &c.opts, &files).skip.is_some_and(|s| s.contains("too large"));
        vec![skip as u8]
    });
    matches!(r.as_deref(), Ok([1]))
}

/// one simulated run (two for round trips and memory), judged
pub fn exec(c: &Case, trace: bool) -> Report {
    let r = attempt(c, trace, false);
    if r.class.as_deref() == Some("does-not-end") && r.end.starts_with("Died") {
        // out of the time allotted; a slow machine is no reason to complain
        return attempt(c, trace, true);
    }
    r
}

/// the same, patiently or not
pub fn attempt(c: &Case, trace: bool, patient: bool) -> Report {
    let bytes: usize = c.cfg.files.iter().map(|f| f.data.len()).sum::<usize>() + c.cfg.stdin.as_ref().map_or(0, |f| f.data.len());
    let (cpu, wall) = if patient { (150, 300) } else if bytes > 200_000 { (90, 300) } else { (40, 200) };
    let r = forked(cpu, wall, || serde_json::to_vec(&run_case(c, trace)).unwrap());
    match r {
        Ok(v) => match serde_json::from_slice(&v) {
            Ok(r) => r,
            Err(_) => Report { class: Some("died".into()), detail: "the simulated process ended without a verdict".into(), end: "Died".into(), runs: 1, ..Default::default() },
        },
        Err(_) if too_large(c) => Report { skip: Some("output too large to simulate".into()), end: "Died".into(), runs: 1, ..Default::default() },
        Err(how) => Report {
            class: Some(if how == "hang" || how == "runs away" { "does-not-end" } else { "died" }.into()),
            detail: format!("the program {how}"),
            end: format!("Died({how})"),
            runs: 1,
            ..Default::default()
        },
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.rotate_left(32));
    r.next()
}
pub fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(mix(seed, simstd::rt::hash_str(prop)), i)
}

/// the case with index i: generated, and for fault kinds made concrete after a probing run
pub fn make(prop: &str, seed: u64, i: u64, avx2: bool) -> (Case, Option<Report>) {
    let s = case_seed(seed, prop, i);
    let c = crate::props::gen_case(prop, s, avx2);
    if !wants_probe(&c.kind) {
        return (c, None);
    }
    let p = exec(&c, false);
    if p.class.is_some() {
        return (c, Some(p));
    }
    match inject(&c, &p, mix(s, 77)) {
        Some(c2) => (c2, None),
        None => (c, Some(p)),
    }
}

#[derive(Default, Serialize, Deserialize)]
pub struct Tally {
    pub cases: u64,
    pub runs: u64,
    pub skipped: u64,
    pub nontrivial: BTreeSet<u64>,
    pub schedules: BTreeSet<u64>,
    pub events: BTreeSet<u64>,
    pub faults: BTreeMap<String, u64>,
    pub kinds: BTreeMap<String, u64>,
    pub libs: BTreeMap<String, u64>,
    pub stages: BTreeMap<String, u64>,
    pub ends: BTreeMap<String, u64>,
    pub skips: BTreeMap<String, u64>,
    pub scheds: BTreeMap<String, u64>,
    pub expected_failures: u64,
    pub crashed: u64,
    pub clock_ns: u64,
    pub steps: u64,
    pub ops: u64,
    pub decisions: u64,
    pub switches: u64,
    pub threads: u64,
    pub children: u64,
    pub measure: BTreeMap<String, i64>,
    pub sums: BTreeMap<String, i64>,
    pub violation: Option<(u64, Case, Report)>,
    pub violations: u64,
}
impl Tally {
    pub fn add(&mut self, c: &Case, r: &Report) {
        self.cases += 1;
        self.runs += r.runs as u64;
        *self.kinds.entry(c.kind.clone()).or_default() += 1;
        *self.libs.entry(LIBS[c.lib].to_string()).or_default() += 1;
        for s in c.opts.stages() {
            *self.stages.entry(s.to_string()).or_default() += 1;
        }
        let sched = format!("{:?}", c.cfg.sched);
        let sched = sched.split('(').next().unwrap().to_string();
        *self.scheds.entry(sched).or_default() += 1;
        if let Some(s) = &r.skip {
            self.skipped += 1;
            let k: String = s.chars().take(60).collect();
            *self.skips.entry(k).or_default() += 1;
        }
        *self.ends.entry(r.end.split('(').next().unwrap_or("").to_string()).or_default() += 1;
        self.expected_failures += r.expected_failure as u64;
        self.crashed += r.crashed as u64;
        let s = &r.stats;
        for (k, n) in [
            ("interrupted reads and writes (EINTR)", s.eintr),
            ("short reads and writes", s.shorts),
            ("delayed calls", s.delays),
            ("spurious wake-ups", s.spurious),
            ("full pipes", s.pipe_full),
            ("kills at a chosen call", r.crashed as u64),
            ("reader closing the output", c.cfg.stdout_close_after.is_some_and(|l| l <= r.stdout_len) as u64),
            ("full disks", c.cfg.disk_free.is_some() as u64),
        ] {
            if n > 0 {
                *self.faults.entry(k.to_string()).or_default() += n;
            }
        }
        for (t, op, e) in &s.faults_fired {
            let t = if t.starts_with("pipe:") || matches!(t.as_str(), "stdin" | "stdout" | "spool" | "proc" | "thread") { t.as_str() } else { "file" };
            *self.faults.entry(format!("{op:?} on {t} fails with errno {e}")).or_default() += 1;
        }
        let n = s.eintr + s.shorts + s.delays + s.spurious + s.faults_fired.len() as u64 + s.switches as u64;
        if r.skip.is_none() && (n > 0 || r.crashed || c.cfg.stdout_close_after.is_some() || c.cfg.disk_free.is_some()) {
            self.nontrivial.insert(s.event_hash);
        } else if c.kind == "contradiction" && r.skip.is_none() {
            self.nontrivial.insert(s.event_hash ^ simstd::rt::hash_str(&c.opts.args().join("\0")));
        }
        self.events.insert(s.event_hash);
        if s.switches > 0 {
            self.schedules.insert(s.sched_hash);
        }
        self.clock_ns += s.clock_ns;
        self.steps += s.steps;
        self.ops += s.ops;
        self.decisions += s.decisions as u64;
        self.switches += s.switches as u64;
        self.threads += s.threads as u64;
        self.children += s.children as u64;
        for (k, v) in &r.measure {
            let e = self.measure.entry(format!("max {k}")).or_insert(i64::MIN);
            *e = std::cmp::max(*e, *v);
            *self.sums.entry(k.clone()).or_default() += v;
        }
    }
    pub fn join(&mut self, o: Tally) {
        let m = |a: &mut BTreeMap<String, u64>, b: BTreeMap<String, u64>| {
            for (k, v) in b {
                *a.entry(k).or_default() += v;
            }
        };
        self.cases += o.cases;
        self.runs += o.runs;
        self.skipped += o.skipped;
        self.nontrivial.extend(o.nontrivial);
        self.schedules.extend(o.schedules);
        self.events.extend(o.events);
        m(&mut self.faults, o.faults);
        m(&mut self.kinds, o.kinds);
        m(&mut self.libs, o.libs);
        m(&mut self.stages, o.stages);
        m(&mut self.ends, o.ends);
        m(&mut self.skips, o.skips);
        m(&mut self.scheds, o.scheds);
        self.expected_failures += o.expected_failures;
        self.crashed += o.crashed;
        self.clock_ns += o.clock_ns;
        self.steps += o.steps;
        self.ops += o.ops;
        self.decisions += o.decisions;
        self.switches += o.switches;
        self.threads += o.threads;
        self.children += o.children;
        for (k, v) in o.measure {
            let e = self.measure.entry(k).or_insert(i64::MIN);
            *e = std::cmp::max(*e, v);
        }
        for (k, v) in o.sums {
            *self.sums.entry(k).or_default() += v;
        }
        self.violations += o.violations;
        if let Some(v) = o.violation {
            if self.violation.as_ref().is_none_or(|w| v.0 < w.0) {
                self.violation = Some(v);
            }
        }
    }
}

pub struct Search {
    pub prop: String,
    pub seed: u64,
    pub count: u64,
    pub budget: Duration,
    pub workers: usize,
    pub avx2: bool,
    pub keep_going: bool,
}

struct Shared {
    next: AtomicU64,
    /// no case after this one needs to be looked at
    limit: AtomicU64,
}

pub fn search(s: &Search, known: &dyn Fn(&Case, &Report) -> Option<String>) -> (Tally, BTreeMap<String, u64>) {
    let shared: &Shared = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert_ne!(p, libc::MAP_FAILED);
        let sh = p as *mut Shared;
        sh.write(Shared { next: AtomicU64::new(0), limit: AtomicU64::new(u64::MAX) });
        &*sh
    };
    let start = Instant::now();
    let slow: Option<u64> = std::env::var("NDSIM_SLOW").ok().and_then(|x| x.parse().ok());
    let mut pids = vec![];
    for _ in 0..s.workers {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let mut t = Tally::default();
                let mut kf: BTreeMap<String, u64> = BTreeMap::new();
                loop {
                    let i = shared.next.fetch_add(1, SeqCst);
                    if i >= s.count || i > shared.limit.load(SeqCst) || start.elapsed() > s.budget {
                        break;
                    }
                    let began = Instant::now();
                    let (c, probe) = make(&s.prop, s.seed, i, s.avx2);
                    let r = probe.unwrap_or_else(|| exec(&c, false));
                    if slow.is_some_and(|x| began.elapsed() > Duration::from_secs(x)) {
                        eprintln!("{} case {i} took {:.1} s, {} steps: {:?}", s.prop, began.elapsed().as_secs_f64(), r.stats.steps, c.opts.args());
                    }
                    t.add(&c, &r);
                    if r.class.is_some() {
                        if let Some(k) = known(&c, &r) {
                            *kf.entry(k).or_default() += 1;
                            continue;
                        }
                        t.violations += 1;
                        if s.keep_going {
                            println!("case {i} lib {} kind {} {}: {}\n    {:?}", c.lib, c.kind, r.class.as_ref().unwrap(), r.detail, c.opts.args());
                            continue;
                        }
                        shared.limit.fetch_min(i, SeqCst);
                        if t.violation.as_ref().is_none_or(|v| i < v.0) {
                            t.violation = Some((i, c, r));
                        }
                    }
                }
                let v = serde_json::to_vec(&(t, kf)).unwrap();
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(&v);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pids.push((pid, std::fs::File::from_raw_fd(fds[0])));
        }
    }
    let mut t = Tally::default();
    let mut kf = BTreeMap::new();
    let mut lost = 0;
    for (pid, mut f) in pids {
        let mut v = vec![];
        let _ = f.read_to_end(&mut v);
        unsafe {
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
        match serde_json::from_slice::<(Tally, BTreeMap<String, u64>)>(&v) {
            Ok((x, k)) => {
                t.join(x);
                for (a, b) in k {
                    *kf.entry(a).or_default() += b;
                }
            }
            Err(_) => lost += 1,
        }
    }
    if lost > 0 {
        eprintln!("{lost} workers were lost");
        std::process::exit(3);
    }
    (t, kf)
}
