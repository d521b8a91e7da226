//! The simulator: one world per process, one running task at a time, every intercepted call a scheduling point.
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub const EINTR: i32 = libc::EINTR;
pub const EIO: i32 = libc::EIO;
pub const ENOSPC: i32 = libc::ENOSPC;
pub const EPIPE: i32 = libc::EPIPE;
pub const ENOENT: i32 = libc::ENOENT;

/// splitmix64
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}

/// how many bytes one read or write call moves
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Split {
    Full,
    One,
    /// 1..=n
    Upto(usize),
    /// multiples of n, off by at most one
    Near(usize),
    /// a mixture of tiny, small, medium and full
    Mixed,
}
impl Split {
    pub fn next(&self, rng: &mut Rng, req: usize) -> usize {
        if req <= 1 {
            return req;
        }
        let n = match self {
            Split::Full => req,
            Split::One => 1,
            Split::Upto(n) => 1 + rng.below(*n as u64) as usize,
            Split::Near(n) => {
                let d = rng.below(3) as usize;
                (n * (1 + rng.below(2) as usize) + d).saturating_sub(1)
            }
            Split::Mixed => match rng.below(4) {
                0 => 1,
                1 => 1 + rng.below(16) as usize,
                2 => 1 + rng.below(300) as usize,
                _ => req,
            },
        };
        n.clamp(1, req)
    }
}

/// benign environment behaviour of one byte source or sink
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Delivery {
    pub split: Split,
    /// percentage of calls that are interrupted by a signal
    pub eintr: u8,
    /// percentage of calls that first wait
    pub delay: u8,
    pub seed: u64,
}
impl Delivery {
    pub fn plain() -> Self {
        Delivery { split: Split::Full, eintr: 0, delay: 0, seed: 0 }
    }
    pub fn is_plain(&self) -> bool {
        self.split == Split::Full && self.eintr == 0 && self.delay == 0
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Op {
    Open,
    Create,
    Read,
    Write,
    Flush,
    Seek,
    Sync,
    SetLen,
    Rename,
    Remove,
    Mkdir,
    Stat,
    Chmod,
    Spawn,
    Wait,
    ThreadSpawn,
    /// another process created a file
    Race,
    Lock,
    Sleep,
    Exit,
    Close,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub target: String,
    pub op: Op,
    /// the n-th such call fails (0-based) ...
    pub nth: u32,
    /// ... and so do all later ones
    pub sticky: bool,
    pub errno: i32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sched {
    /// run the current entity as long as it can run, except at the listed decisions
    Explicit(Vec<(u32, u16)>),
    Uniform(u64),
    /// keep the current entity with the given percentage
    Sticky(u64, u8),
    /// random priorities with n change points
    Pct(u64, u8),
    /// entity k only runs when nothing else can, until the n-th decision
    Starve(u64, u16, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FileSpec {
    pub name: String,
    #[serde(with = "crate::bytes_serde")]
    pub data: Vec<u8>,
    /// a FIFO that repeats its data forever
    #[serde(default)]
    pub endless: bool,
    #[serde(default)]
    pub mode: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Config {
    pub args: Vec<String>,
    pub env: Vec<(String, String)>,
    /// stdin, stdout, stderr are terminals
    pub tty: [bool; 3],
    pub files: Vec<FileSpec>,
    pub dirs: Vec<String>,
    pub stdin: Option<FileSpec>,
    pub deliveries: Vec<(String, Delivery)>,
    pub faults: Vec<Fault>,
    pub programs: Vec<crate::prog::ProgSpec>,
    /// further names under which a program can be started
    #[serde(default)]
    pub aliases: Vec<(String, usize)>,
    pub pipe_cap: usize,
    pub sched: Sched,
    /// the process is killed instead of performing this call
    pub crash_at: Option<u64>,
    /// another process creates the file right before this call, unless the name is taken
    #[serde(default)]
    pub race: Vec<(u64, FileSpec)>,
    pub stdout_close_after: Option<u64>,
    pub disk_free: Option<u64>,
    pub step_limit: u64,
    #[serde(default)]
    pub misc_seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Exit(i32),
    /// simulated kill at the crash point
    Crashed,
    Deadlock(String),
    StepLimit,
    Abort,
    /// the simulated process died from a real signal or ran away (reported by the parent)
    Died(String),
}

#[derive(Clone, Debug, Default)]
pub struct Inode {
    pub data: Vec<u8>,
    pub endless: bool,
    pub mode: u32,
    pub synced: Option<Vec<u8>>, // None: never synced (created in this run)
    pub log: Vec<(u64, Vec<u8>)>,  // writes since the last sync; (u64::MAX, len) = set_len
    pub nlink: i32,
}

#[derive(Clone, Debug)]
pub enum DirOp {
    Link(String, usize),
    Unlink(String),
    Rename(String, String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum FdKind {
    Inode(usize),
    Null,
    Full,
    Stdin,
    Stdout,
    Stderr,
    Dir(String),
}
#[derive(Debug)]
pub struct OpenFile {
    pub kind: FdKind,
    pub name: String,
    pub pos: Arc<Mutex<u64>>,
    pub read: bool,
    pub write: bool,
    pub append: bool,
}

#[derive(Debug, Default)]
pub struct Pipe {
    pub name: String,
    pub buf: VecDeque<u8>,
    pub cap: usize,
    pub readers: usize,
    pub writers: usize,
    pub total: u64,
    pub writes: u64,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct ChildRec {
    pub argv: Vec<String>,
    pub prog: Option<usize>,
    #[serde(with = "crate::bytes_serde")]
    pub got: Vec<u8>,
    pub saw_eof: bool,
    #[serde(with = "crate::bytes_serde")]
    pub emitted: Vec<u8>,
    /// wait status once it has ended
    pub status: Option<i32>,
    pub reaped: bool,
    pub got_epipe: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Key {
    PipeR(usize),
    PipeW(usize),
    Lock(usize),
    Cond(usize),
    Chan(usize),
    Join(usize),
    Child(usize),
    Timer,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Ready,
    Blocked(Key),
    Done,
}
pub struct Baton {
    pub go: AtomicBool,
    pub thread: Mutex<Option<std::thread::Thread>>,
}
pub enum EntKind {
    Thread(Arc<Baton>),
    Prog(Option<Box<crate::prog::Prog>>),
}
pub struct Ent {
    pub kind: EntKind,
    pub st: St,
    pub deadline: Option<u64>,
    pub timed_out: bool,
    pub prio: u64,
    pub panicked: bool,
    pub name: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub steps: u64,
    pub ops: u64,
    pub clock_ns: u64,
    pub decisions: u32,
    pub switches: u32,
    pub sched_hash: u64,
    pub event_hash: u64,
    pub eintr: u64,
    pub shorts: u64,
    pub delays: u64,
    pub spurious: u64,
    pub faults_fired: Vec<(String, Op, i32)>,
    pub op_counts: BTreeMap<String, u32>,
    pub deviations: Vec<(u32, u16)>,
    pub threads: u32,
    pub children: u32,
    pub in_total: u64,
    pub out_total: u64,
    pub max_lag: u64,
    pub io_log: Vec<(u64, u64)>,
    pub pipe_full: u64,
}

pub struct World {
    pub cfg: Config,
    pub ents: Vec<Ent>,
    pub last: usize,
    pub end: Option<End>,
    pub stats: Stats,
    pub rng: Rng,
    pub misc: Rng,
    pub change_points: Vec<u32>,
    pub devmap: BTreeMap<u32, u16>,
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, usize>,
    pub dirs: BTreeSet<String>,
    pub dirlog: Vec<DirOp>,
    pub dirlog_synced: usize,
    pub initial: BTreeMap<String, usize>,
    pub fds: Vec<Option<OpenFile>>,
    pub pipes: Vec<Pipe>,
    pub children: Vec<ChildRec>,
    pub deliv: BTreeMap<String, (Delivery, Rng, u32)>,
    pub counts: BTreeMap<(String, Op), u32>,
    pub stdout: Vec<u8>,
    pub stdout_closed: bool,
    pub stderr: Vec<u8>,
    pub stdin_pos: u64,
    pub disk_free: Option<u64>,
    pub next_obj: usize,
    pub trace: Option<Vec<String>>,
    pub watch: Vec<String>,
    pub keep_io_log: bool,
}

static WORLD: Mutex<Option<Box<World>>> = Mutex::new(None);
static DONE: Condvar = Condvar::new();

thread_local! {
    static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
pub fn me() -> usize {
    ME.with(|x| x.get())
}
pub fn in_task() -> bool {
    ME.try_with(|x| x.get()).unwrap_or(usize::MAX) != usize::MAX
}

thread_local! {
    static IN_SIM: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// true while this thread runs simulator code (so that its allocations are not charged to the program)
pub fn in_sim() -> bool {
    IN_SIM.try_with(|x| x.get()).unwrap_or(0) > 0
}
/// the world, locked; allocations made while it is held belong to the simulator
pub struct Guard(Option<MutexGuard<'static, Option<Box<World>>>>);
impl std::ops::Deref for Guard {
    type Target = Option<Box<World>>;
    fn deref(&self) -> &Self::Target {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for Guard {
    fn deref_mut(&mut self) -> &mut Self::Target {
        self.0.as_mut().unwrap()
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        self.0.take();
        IN_SIM.with(|x| x.set(x.get() - 1));
    }
}
pub fn lock() -> Guard {
    IN_SIM.with(|x| x.set(x.get() + 1));
    Guard(Some(WORLD.lock().unwrap_or_else(|e| e.into_inner())))
}

pub enum Step<R> {
    Done(R),
    Block(Key),
    BlockUntil(Key, u64),
}

fn park_forever() -> ! {
    loop {
        std::thread::park();
    }
}

impl World {
    pub fn new(cfg: Config, trace: bool) -> Self {
        let (seed, change) = match &cfg.sched {
            Sched::Uniform(s) | Sched::Sticky(s, _) | Sched::Starve(s, _, _) => (*s, 0),
            Sched::Pct(s, n) => (*s, *n),
            Sched::Explicit(_) => (0, 0),
        };
        let mut rng = Rng::new(seed);
        // change points: spread over a log-uniform horizon so that short and long runs both get some
        let change_points = (0..change)
            .map(|_| {
                let bits = 3 + rng.below(9);
                rng.below(1 << bits) as u32
            })
            .collect();
        let devmap = match &cfg.sched {
            Sched::Explicit(v) => v.iter().cloned().collect(),
            _ => BTreeMap::new(),
        };
        let mut w = World {
            ents: Vec::new(),
            last: 0,
            end: None,
            stats: Stats::default(),
            rng,
            misc: Rng::new(cfg.misc_seed),
            change_points,
            devmap,
            inodes: Vec::new(),
            names: BTreeMap::new(),
            dirs: cfg.dirs.iter().map(|x| norm(x)).collect(),
            dirlog: Vec::new(),
            dirlog_synced: 0,
            initial: BTreeMap::new(),
            fds: Vec::new(),
            pipes: Vec::new(),
            children: Vec::new(),
            deliv: BTreeMap::new(),
            counts: BTreeMap::new(),
            stdout: Vec::new(),
            stdout_closed: false,
            stderr: Vec::new(),
            stdin_pos: 0,
            disk_free: cfg.disk_free,
            next_obj: 1,
            trace: if trace { Some(Vec::new()) } else { None },
            watch: Vec::new(),
            keep_io_log: false,
            cfg,
        };
        w.dirs.insert(String::new());
        w.dirs.insert("/".to_string());
        w.dirs.insert("/tmp".to_string());
        for f in w.cfg.files.clone() {
            w.inodes.push(Inode {
                synced: Some(f.data.clone()),
                data: f.data,
                endless: f.endless,
                mode: if f.mode == 0 { 0o644 } else { f.mode },
                log: Vec::new(),
                nlink: 1,
            });
            w.names.insert(norm(&f.name), w.inodes.len() - 1);
        }
        w.initial = w.names.clone();
        for (name, d) in w.cfg.deliveries.clone() {
            let r = Rng::new(d.seed ^ hash_str(&name));
            w.deliv.insert(name, (d, r, 0));
        }
        if w.cfg.stdout_close_after == Some(0) {
            w.stdout_closed = true;
        }
        w
    }

    pub fn event(&mut self, op: Op, target: &str, a: u64, b: i64) {
        let me = self.last as u64;
        let h = &mut self.stats.event_hash;
        for x in [me, op as u64, hash_str(target), a, b as u64] {
            *h = (*h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
        }
        let s = &mut self.stats.sched_hash;
        *s = (*s ^ (me * 64 + op as u64)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31);
        if let Some(t) = &mut self.trace {
            let who = self.ents.get(self.last).map_or("?", |e| e.name.as_str());
            if t.len() < 20000 {
                t.push(format!("{:6} {:8} {:?} {} {} -> {}", self.stats.ops, who, op, target, a, b));
            }
        }
    }

    /// another process creates a file
    fn intrude(&mut self, f: FileSpec) {
        let name = norm(&f.name);
        if self.names.contains_key(&name) || self.dirs.contains(&name) {
            return;
        }
        self.inodes.push(Inode { synced: Some(f.data.clone()), data: f.data, mode: 0o644, nlink: 1, ..Default::default() });
        self.names.insert(name.clone(), self.inodes.len() - 1);
        self.dirlog.push(DirOp::Link(name.clone(), self.inodes.len() - 1));
        self.event(Op::Race, &name, 0, 0);
        self.stats.faults_fired.push((name, Op::Race, 0));
    }

    /// counts the call and returns the errno of a fault to inject, if any. the crash point is handled by `op`.
    pub fn fault(&mut self, op: Op, target: &str) -> Option<i32> {
        let c = self.counts.entry((target.to_string(), op)).or_insert(0);
        let n = *c;
        *c += 1;
        let hit = self
            .cfg
            .faults
            .iter()
            .find(|f| f.op == op && f.target == target && (f.nth == n || (f.sticky && n > f.nth)))
            .map(|f| f.errno);
        if let Some(e) = hit {
            if self.stats.faults_fired.len() < 64 {
                self.stats.faults_fired.push((target.to_string(), op, e));
            }
            self.event(op, target, n as u64, -(e as i64));
        }
        hit
    }

    /// delivery decision for a read or write: Err(EINTR), or the number of bytes to move
    pub fn deliver(&mut self, name: &str, req: usize) -> Result<usize, i32> {
        let any = if name.starts_with("w:") && self.deliv.contains_key("w:*") { "w:*" } else { "*" };
        let key = if self.deliv.contains_key(name) { name } else { any };
        if let Some((d, rng, calls)) = self.deliv.get_mut(key) {
            if d.eintr > 0 && rng.pct(d.eintr as u64) {
                self.stats.eintr += 1;
                return Err(EINTR);
            }
            // long transfers get larger pieces, so that their number stays bounded
            *calls += 1;
            let n = d.split.next(rng, req).saturating_mul(1 << (*calls / 10_000).min(24)).min(req);
            if n < req {
                self.stats.shorts += 1;
            }
            return Ok(n);
        }
        Ok(req)
    }
    pub fn delay(&mut self, name: &str) -> Option<u64> {
        let key = if self.deliv.contains_key(name) { name } else { "*" };
        if let Some((d, rng, _)) = self.deliv.get_mut(key) {
            if d.delay > 0 && rng.pct(d.delay as u64) {
                self.stats.delays += 1;
                return Some(1000 + rng.below(1_000_000));
            }
        }
        None
    }

    pub fn wake(&mut self, key: Key) {
        for e in &mut self.ents {
            if e.st == St::Blocked(key) {
                e.st = St::Ready;
                e.deadline = None;
            }
        }
    }
    pub fn wake_one(&mut self, key: Key) {
        let v: Vec<usize> = (0..self.ents.len()).filter(|&i| self.ents[i].st == St::Blocked(key)).collect();
        if !v.is_empty() {
            let i = v[self.misc.below(v.len() as u64) as usize];
            self.ents[i].st = St::Ready;
            self.ents[i].deadline = None;
        }
    }
    pub fn obj(&mut self) -> usize {
        self.next_obj += 1;
        self.next_obj
    }

    fn add_ent(&mut self, kind: EntKind, name: String) -> usize {
        let prio = self.rng.next() | (1 << 63);
        self.ents.push(Ent { kind, st: St::Ready, deadline: None, timed_out: false, prio, panicked: false, name });
        self.ents.len() - 1
    }
    pub fn add_prog(&mut self, p: crate::prog::Prog) -> usize {
        let name = format!("child{}", p.child);
        self.stats.children += 1;
        self.add_ent(EntKind::Prog(Some(Box::new(p))), name)
    }

    pub fn finish(&mut self, end: End) {
        if self.end.is_none() {
            self.end = Some(end);
            let c: BTreeMap<String, u32> = self.counts.iter().map(|((t, o), n)| (format!("{o:?}:{t}"), *n)).collect();
            self.stats.op_counts = c;
            DONE.notify_all();
        }
    }

    fn pick(&mut self, runnable: &[usize]) -> usize {
        let last = self.last;
        let default = if runnable.contains(&last) { last } else { runnable[0] };
        if runnable.len() == 1 {
            return runnable[0];
        }
        let idx = self.stats.decisions;
        self.stats.decisions += 1;
        let c = match &self.cfg.sched {
            Sched::Explicit(_) => match self.devmap.get(&idx) {
                Some(c) if runnable.contains(&(*c as usize)) => *c as usize,
                _ => default,
            },
            Sched::Uniform(_) => runnable[self.rng.below(runnable.len() as u64) as usize],
            Sched::Sticky(_, p) => {
                let p = *p as u64;
                if runnable.contains(&last) && self.rng.pct(p) {
                    last
                } else {
                    runnable[self.rng.below(runnable.len() as u64) as usize]
                }
            }
            Sched::Pct(_, _) => {
                if self.change_points.contains(&idx) {
                    let top = *runnable.iter().max_by_key(|&&i| self.ents[i].prio).unwrap();
                    self.ents[top].prio = self.rng.next() >> 2;
                }
                let top = *runnable.iter().max_by_key(|&&i| self.ents[i].prio).unwrap();
                // strict priorities let a polling entity livelock the rest: decay
                if top == last && self.rng.pct(2) {
                    self.ents[top].prio = self.rng.next() >> 2;
                }
                top
            }
            Sched::Starve(_, k, until) => {
                let k = *k as usize;
                let until = *until;
                let v: Vec<usize> = if idx < until { runnable.iter().cloned().filter(|&i| i != k).collect() } else { runnable.to_vec() };
                v[self.rng.below(v.len() as u64) as usize]
            }
        };
        if c != default && self.stats.deviations.len() < 100_000 {
            self.stats.deviations.push((idx, c as u16));
        }
        c
    }
}

/// normalises a path: no "./", no duplicate slashes, ".." resolved lexically
pub fn norm(p: &str) -> String {
    let abs = p.starts_with('/');
    let mut v: Vec<&str> = Vec::new();
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            x => v.push(x),
        }
    }
    let s = v.join("/");
    if !abs {
        return s;
    }
    // a name in the directory the program runs in
    let cwd = &crate::fs::CWD[1..];
    match s.strip_prefix(cwd) {
        Some("") => String::new(),
        Some(t) if t.starts_with('/') => t[1..].to_string(),
        _ => format!("/{s}"),
    }
}

/// gives up the processor; returns when the caller is scheduled again (it must be Ready for that)
fn reschedule(mut g: Guard, me: usize, exiting: bool) {
    loop {
        let w = g.as_mut().unwrap();
        if w.end.is_some() {
            drop(g);
            park_forever();
        }
        w.stats.steps += 1;
        w.stats.clock_ns += 1000;
        if w.stats.steps > w.cfg.step_limit {
            w.finish(End::StepLimit);
            continue;
        }
        // fast path
        if w.ents.len() == 1 && w.ents[0].st == St::Ready && !exiting {
            return;
        }
        let now = w.stats.clock_ns;
        for e in &mut w.ents {
            if let (St::Blocked(_), Some(d)) = (e.st, e.deadline) {
                if d <= now {
                    e.st = St::Ready;
                    e.deadline = None;
                    e.timed_out = true;
                }
            }
        }
        let runnable: Vec<usize> = (0..w.ents.len()).filter(|&i| w.ents[i].st == St::Ready).collect();
        if runnable.is_empty() {
            let next = w.ents.iter().filter(|e| matches!(e.st, St::Blocked(_))).filter_map(|e| e.deadline).min();
            match next {
                Some(t) => {
                    w.stats.clock_ns = std::cmp::max(w.stats.clock_ns, t);
                }
                None => {
                    let s: Vec<String> =
                        w.ents.iter().filter(|e| e.st != St::Done).map(|e| format!("{}:{:?}", e.name, e.st)).collect();
                    w.finish(End::Deadlock(s.join(" ")));
                }
            }
            continue;
        }
        let c = w.pick(&runnable);
        if c != w.last {
            w.stats.switches += 1;
            let h = &mut w.stats.sched_hash;
            *h = (*h ^ (c as u64 + 1000)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17);
        }
        w.last = c;
        if c == me && !exiting {
            return;
        }
        match &mut w.ents[c].kind {
            EntKind::Prog(p) => {
                let mut p = p.take().unwrap();
                p.step(w, c);
                if let EntKind::Prog(slot) = &mut w.ents[c].kind {
                    *slot = Some(p);
                }
                continue;
            }
            EntKind::Thread(b) => {
                let b = Arc::clone(b);
                let mine = match &w.ents[me].kind {
                    EntKind::Thread(b) => Arc::clone(b),
                    _ => unreachable!(),
                };
                drop(g);
                b.go.store(true, Ordering::SeqCst);
                if let Some(t) = b.thread.lock().unwrap().as_ref() {
                    t.unpark();
                }
                if exiting {
                    return;
                }
                wait_baton(&mine);
                return;
            }
        }
    }
}

fn wait_baton(b: &Baton) {
    while !b.go.swap(false, Ordering::SeqCst) {
        std::thread::park();
    }
}

/// one intercepted call: a scheduling point, then `f` until it is done
pub fn op<R>(mut f: impl FnMut(&mut World) -> Step<R>) -> R {
    let me = me();
    assert!(me != usize::MAX, "simulated call outside the simulation");
    let mut g = lock();
    {
        let w = g.as_mut().unwrap();
        let n = w.stats.ops;
        w.stats.ops += 1;
        if w.cfg.crash_at == Some(n) {
            w.finish(End::Crashed);
        }
        if let Some((_, f)) = w.cfg.race.iter().find(|x| x.0 == n).cloned() {
            w.intrude(f);
        }
    }
    reschedule(g, me, false);
    loop {
        let mut g = lock();
        let w = g.as_mut().unwrap();
        if w.end.is_some() {
            drop(g);
            park_forever();
        }
        match f(w) {
            Step::Done(r) => return r,
            Step::Block(k) => {
                w.ents[me].st = St::Blocked(k);
                w.ents[me].deadline = None;
            }
            Step::BlockUntil(k, t) => {
                w.ents[me].st = St::Blocked(k);
                w.ents[me].deadline = Some(t);
            }
        }
        reschedule(g, me, false);
    }
}

/// an intercepted call that never blocks
pub fn call<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let mut f = Some(f);
    op(|w| Step::Done((f.take().unwrap())(w)))
}

/// state access that is not a scheduling point
pub fn peek<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let mut g = lock();
    let w = g.as_mut().unwrap();
    if w.end.is_some() && in_task() {
        drop(g);
        park_forever();
    }
    f(w)
}

pub fn yield_now() {
    call(|_| ())
}

pub fn sleep_ns(ns: u64) {
    let me = me();
    let mut until = None;
    op(|w| {
        let t = *until.get_or_insert(w.stats.clock_ns + ns);
        if w.stats.clock_ns >= t {
            w.ents[me].timed_out = false;
            Step::Done(())
        } else {
            Step::BlockUntil(Key::Timer, t)
        }
    })
}

/// starts a thread task; the caller keeps running
pub fn spawn_task(name: String, stack: usize, f: Box<dyn FnOnce() -> bool + Send>) -> std::io::Result<usize> {
    let first = !in_task();
    let baton = Arc::new(Baton { go: AtomicBool::new(false), thread: Mutex::new(None) });
    let id = if first {
        let mut g = lock();
        let w = g.as_mut().unwrap();
        w.add_ent(EntKind::Thread(Arc::clone(&baton)), name.clone())
    } else {
        let r = call(|w| {
            if let Some(e) = w.fault(Op::ThreadSpawn, "thread") {
                return Err(std::io::Error::from_raw_os_error(e));
            }
            w.stats.threads += 1;
            let n = format!("t{}", w.stats.threads);
            let _ = &name;
            let id = w.add_ent(EntKind::Thread(Arc::clone(&baton)), n);
            w.event(Op::ThreadSpawn, "thread", id as u64, 0);
            Ok(id)
        });
        r?
    };
    let b = Arc::clone(&baton);
    let h = std::thread::Builder::new().name(name).stack_size(stack).spawn(move || {
        wait_baton(&b);
        ME.with(|x| x.set(id));
        let panicked = f();
        let mut g = lock();
        let w = g.as_mut().unwrap();
        w.ents[id].st = St::Done;
        w.ents[id].panicked = panicked;
        w.wake(Key::Join(id));
        w.event(Op::Exit, "thread", id as u64, panicked as i64);
        ME.with(|x| x.set(usize::MAX));
        reschedule(g, id, true);
    })?;
    *baton.thread.lock().unwrap() = Some(h.thread().clone());
    Ok(id)
}

pub fn end_process(end: End) -> ! {
    {
        let mut g = lock();
        let w = g.as_mut().unwrap();
        w.event(Op::Exit, "process", 0, 0);
        w.finish(end);
    }
    park_forever()
}

/// runs one simulated process to its end and returns the world
pub fn run(world: World, main: Box<dyn FnOnce() + Send>) -> World {
    crate::io::reset();
    *lock() = Some(Box::new(world));
    spawn_task(
        "main".to_string(),
        8 << 20,
        Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(main));
            crate::io::cleanup_stdout();
            end_process(End::Exit(if r.is_ok() { 0 } else { 101 }));
        }),
    )
    .unwrap();
    let mut g = lock();
    {
        let w = g.as_mut().unwrap();
        if let EntKind::Thread(b) = &w.ents[0].kind {
            b.go.store(true, Ordering::SeqCst);
            if let Some(t) = b.thread.lock().unwrap().as_ref() {
                t.unpark();
            }
        }
    }
    while g.as_ref().unwrap().end.is_none() {
        g.0 = Some(DONE.wait(g.0.take().unwrap()).unwrap());
    }
    *g.take().unwrap()
}

/// records a panic message on the simulated stderr
pub fn panic_hook(info: &std::panic::PanicHookInfo<'_>) {
    if in_task() {
        let s = format!("thread panicked: {info}\n");
        if let Ok(mut g) = WORLD.try_lock() {
            if let Some(w) = g.as_mut() {
                if w.stderr.len() < 1 << 20 {
                    w.stderr.extend_from_slice(s.as_bytes());
                }
            }
        }
    } else {
        eprintln!("[harness] {info}");
    }
}
