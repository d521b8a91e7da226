//! Building blocks for random cases. Everything is drawn from one generator seeded by VERIF_SEED, property and index.
use crate::expr::{rand_expr, worth, E};
use crate::model::Rec;
use crate::opts::*;
use serde::{Deserialize, Serialize};
use simstd::prog::{LineFn, ProgEnd, ProgSpec};
use simstd::rt::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub prop: String,
    /// which judge looks at it
    pub kind: String,
    /// build variant
    pub lib: usize,
    pub opts: Opts,
    pub cfg: Config,
    /// extra numbers for the judge
    #[serde(default)]
    pub aux: Vec<i64>,
}

pub const BLOCK: [usize; 5] = [145, 1024, 2 << 20, 4096, 2 << 20];
pub const LIBS: [&str; 5] = [
    "block 145, scalar, checked",
    "block 1024, AVX2, checked",
    "block 2 MiB, AVX2, checked",
    "block 4096, scalar, release",
    "block 2 MiB, scalar, checked",
];

pub fn plain_cfg() -> Config {
    Config {
        args: vec![],
        env: vec![],
        tty: [false; 3],
        files: vec![],
        dirs: vec![],
        stdin: None,
        deliveries: vec![],
        faults: vec![],
        programs: vec![],
        aliases: vec![],
        pipe_cap: 65536,
        sched: Sched::Explicit(vec![]),
        crash_at: None,
        race: vec![],
        stdout_close_after: None,
        disk_free: None,
        step_limit: 0,
        misc_seed: 1,
    }
}

pub struct G {
    pub r: Rng,
    pub lib: usize,
    pub bs: usize,
    pub big: bool,
    pub o: Opts,
    pub cfg: Config,
    pub names: u32,
}

impl G {
    pub fn new(seed: u64, avx2: bool) -> Self {
        let mut r = Rng::new(seed);
        let lib = loop {
            let l = match r.below(100) {
                0..=44 => 0,
                45..=64 => 1,
                65..=72 => 2,
                73..=92 => 3,
                _ => 4,
            };
            if avx2 || (l != 1 && l != 2) {
                break l;
            }
        };
        let big = BLOCK[lib] > 100_000 && r.pct(12);
        let mut g = G { r, lib, bs: BLOCK[lib], big, o: Opts::default(), cfg: plain_cfg(), names: 0 };
        g.cfg.misc_seed = g.r.next();
        g.cfg.dirs = ["d", "/data", "o"].map(|x| x.to_string()).to_vec();
        if g.r.pct(85) {
            g.o.style = g.r.next() | 1;
        }
        g
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.r.pct(p)
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.r.below(n as u64) as usize
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    /// the block size that matters at this data volume
    pub fn unit(&mut self) -> usize {
        if self.big || self.bs < 100_000 { self.bs } else { self.pick(&[145, 256, 1024]) }
    }

    pub fn len(&mut self) -> usize {
        if self.big {
            let k = 1 + self.below(2);
            return (k * self.bs + self.below(601)).saturating_sub(300);
        }
        let u = self.unit();
        match self.below(20) {
            0 => 0,
            1..=5 => self.below(40),
            6..=9 => self.below(u),
            10..=14 => {
                let k = 1 + self.below(4);
                (k * u + self.below(7)).saturating_sub(3)
            }
            15 => {
                let k = 1 + self.below(3);
                (k * 256 + self.below(7)).saturating_sub(3)
            }
            _ => self.below(5 * u),
        }
    }
    /// a small count, mostly tiny
    pub fn small(&mut self, max: usize) -> usize {
        match self.below(4) {
            0 => self.below(3.min(max + 1)),
            1 => self.below(9.min(max + 1)),
            _ => self.below(max + 1),
        }
    }
    pub fn data(&mut self, n: usize) -> Vec<u8> {
        let flavour = self.below(7);
        let seed = self.r.next();
        let mut r = Rng::new(seed);
        let mut v = Vec::with_capacity(n);
        match flavour {
            0 => {
                while v.len() < n {
                    v.extend_from_slice(&r.next().to_le_bytes());
                }
            }
            1 => {
                while v.len() < n {
                    v.push(b'a' + r.below(2) as u8);
                }
            }
            2 => {
                while v.len() < n {
                    let b = r.below(4) as u8 * 0x41;
                    for _ in 0..1 + r.below(200) {
                        v.push(b);
                    }
                }
            }
            3 => {
                let words: [&[u8]; 6] = [b"foo ", b"bar\n", b"hello, world\n", b"x", b"0123456789 ", b"\xff\x00"];
                while v.len() < n {
                    v.extend_from_slice(words[r.below(6) as usize]);
                }
            }
            4 => {
                let s = r.below(256) as usize;
                v.extend((0..n).map(|i| (i + s + i / 256) as u8));
            }
            5 => {
                while v.len() < n {
                    v.push(1 + r.below(9) as u8);
                }
            }
            _ => {
                while v.len() < n {
                    v.push(r.next() as u8);
                }
            }
        }
        v.truncate(n);
        v
    }

    // ---- where bytes come from ----
    pub fn delivery(&mut self, len: usize) -> Delivery {
        let u = self.unit();
        let split = if len > 200_000 {
            match self.below(4) {
                0 => Split::Near(self.bs),
                1 => Split::Upto(200_000),
                2 => Split::Upto(70_000),
                _ => Split::Full,
            }
        } else {
            match self.below(10) {
                0 | 1 => Split::Full,
                2 if len < 4000 => Split::One,
                3 => Split::Upto(2 + self.below(20)),
                4 => Split::Upto(1 + self.below(300)),
                5 | 6 => Split::Near(u),
                7 => Split::Near(1 + self.below(260)),
                _ => Split::Mixed,
            }
        };
        let eintr = self.pick(&[0, 0, 0, 5, 10, 40]);
        let delay = self.pick(&[0, 0, 0, 0, 5, 30]);
        Delivery { split, eintr, delay, seed: self.r.next() }
    }
    pub fn add_delivery(&mut self, name: &str, len: usize) {
        if self.pct(70) {
            let d = self.delivery(len);
            self.cfg.deliveries.push((simstd::rt::norm(name), d));
        }
    }
    pub fn name(&mut self) -> String {
        self.names += 1;
        let n = self.names;
        match self.below(6) {
            0 => format!("in{n}.bin"),
            1 => format!("d/in{n}"),
            2 => format!("./f{n}.dat"),
            3 => format!("/data/x{n}"),
            4 => format!("sp ace {n}"),
            _ => format!("f{n}"),
        }
    }
    pub fn add_file(&mut self, name: &str, data: Vec<u8>) {
        self.cfg.files.push(FileSpec { name: name.to_string(), data, endless: false, mode: 0 });
    }
    /// registers bytes as a file or as standard input; returns the operand
    pub fn source(&mut self, data: Vec<u8>, stdin_ok: bool) -> String {
        let len = data.len();
        if stdin_ok && self.cfg.stdin.is_none() && self.pct(25) {
            self.cfg.stdin = Some(FileSpec { name: "stdin".into(), data, endless: false, mode: 0 });
            self.add_delivery("stdin", len);
            return "-".into();
        }
        let n = self.name();
        self.add_file(&n, data);
        self.add_delivery(&n, len);
        n
    }
    pub fn input(&mut self, data: Vec<u8>) {
        let n = self.source(data, true);
        if n == "-" && self.o.inputs.is_empty() && self.pct(50) {
            return; // no operand at all means standard input
        }
        self.o.inputs.push(n);
    }
    pub fn out_delivery(&mut self) {
        if self.pct(30) {
            let d = self.delivery(1000);
            self.cfg.deliveries.push(("w:stdout".into(), d));
        }
    }

    // ---- option values ----
    pub fn anchor(&mut self, len: usize, near: usize, end_ok: bool, neg_ok: bool) -> A {
        let end = end_ok && self.pct(40);
        let off = match self.below(6) {
            0 => 0,
            1 | 2 => self.below(near + 1) as i64,
            3 => {
                let u = self.unit();
                (u * (self.below(3)) + self.below(5)) as i64
            }
            _ => self.below(len + len / 4 + 3) as i64,
        };
        if end {
            A { end, off: if neg_ok && self.pct(15) { off } else { -off } }
        } else {
            A { end, off: if neg_ok && self.pct(20) { -off } else { off } }
        }
    }
    pub fn range(&mut self, len: usize, near: usize, end_ok: bool, neg_ok: bool) -> R {
        let mut s = self.anchor(len, near, end_ok, neg_ok);
        let mut e = self.anchor(len, near, end_ok, neg_ok);
        // mostly proper ranges
        if s.end == e.end && s.off > e.off && self.pct(85) {
            std::mem::swap(&mut s, &mut e);
        }
        let none_s = self.pct(12);
        let none_e = end_ok && self.pct(12);
        R { s: if none_s { None } else { Some(s) }, e: if none_e { None } else { Some(e) } }
    }
    pub fn ranges(&mut self, len: usize, near: usize, max: usize, end_ok: bool) -> Vec<R> {
        let n = 1 + self.below(max);
        let neg = self.pct(20);
        (0..n).map(|_| self.range(len, near, end_ok, neg)).collect()
    }
    /// S..E for --invert and --extend: relative to a slice
    pub fn mapping(&mut self, near: usize) -> R {
        let a = |g: &mut G, end: bool| -> A {
            let off = match g.below(5) {
                0 | 1 => 0,
                2 | 3 => g.below(near + 1) as i64,
                _ => {
                    let u = g.unit();
                    g.below(u + 20) as i64
                }
            };
            let off = if g.pct(45) { -off } else { off };
            A { end, off }
        };
        let (se, ee) = match self.below(8) {
            0..=4 => (false, true),
            5 => (true, true),
            6 => (false, false),
            _ => (true, false),
        };
        let s = a(self, se);
        let e = a(self, ee);
        R { s: if self.pct(15) { None } else { Some(s) }, e: if self.pct(15) { None } else { Some(e) } }
    }
    pub fn mappings(&mut self, near: usize) -> Vec<R> {
        let n = if self.pct(60) { 1 } else { 1 + self.below(3) };
        (0..n).map(|_| self.mapping(near)).collect()
    }

    pub fn width(&mut self, len: usize) -> Slicer {
        let n = match self.below(6) {
            0 => 1,
            1 | 2 => 1 + self.below(16),
            3 => self.pick(&[16, 29, 32, 64, 100]),
            4 => {
                let u = self.unit();
                (u + self.below(5)).saturating_sub(2).max(1)
            }
            _ => 1 + self.below(len.max(1) + 10),
        };
        let n = if len / n > 3000 { len / 3000 + 1 } else { n };
        if self.pct(35) {
            return Slicer::Width(n as u64, None);
        }
        for _ in 0..20 {
            let m = self.mapping(n + n / 2 + 2);
            if crate::model::width_span(n as u64, &Some(m)).is_some_and(|(s, e)| e - s < 100_000) {
                return Slicer::Width(n as u64, Some(m));
            }
        }
        Slicer::Width(n as u64, None)
    }
    pub fn find(&mut self, data: &[u8]) -> Slicer {
        let mut p = match self.below(5) {
            0 | 1 if !data.is_empty() => {
                let n = 1 + self.below(6);
                let s = self.below(data.len());
                data[s..std::cmp::min(s + n, data.len())].to_vec()
            }
            2 if !data.is_empty() => {
                let n = 1 + self.below(60);
                let s = self.below(data.len());
                data[s..std::cmp::min(s + n, data.len())].to_vec()
            }
            3 => {
                let b = self.pick(&[b'a', 0, b'A', 0x82, 1]);
                vec![b; 1 + self.below(8)]
            }
            _ => {
                let n = 1 + self.below(5);
                (0..n).map(|_| b'a' + self.below(2) as u8).collect()
            }
        };
        p.truncate(60);
        Slicer::Find(p)
    }
    /// walk expressions of any shape
    pub fn walk_exprs(&mut self) -> Slicer {
        let mut v = vec![];
        for _ in 0..1 + self.below(3) {
            let far = self.pick(&[4, 4, 30, 300, 5000]);
            let mut leaf = |r: &mut Rng| {
                let ty = ['b', 'b', 'h', 'i', 'l'][r.below(5) as usize];
                let at = |r: &mut Rng| {
                    let n = if r.pct(15) { r.below(far) as i64 } else { r.below(4) as i64 };
                    if r.pct(20) {
                        let d = 1 + r.below(2) as u32;
                        worth(r, n, d)
                    } else {
                        E::C(n, 0)
                    }
                };
                let i = match r.below(6) {
                    0 => {
                        // where to look depends on what is read
                        let t2 = ['b', 'h', 'i'][r.below(3) as usize];
                        let m = E::b("&", E::A(t2, Box::new(at(r))), E::c([1, 3, 7, 31][r.below(4) as usize]));
                        if r.pct(30) { E::b("+", E::c(r.below(3) as i64), m) } else { m }
                    }
                    _ => at(r),
                };
                let a = E::A(ty, Box::new(i));
                if ty == 'l' || (ty == 'i' && r.pct(50)) {
                    return E::b("&", a, E::c([255, 0xffff, 0xfff_ffff][r.below(3) as usize]));
                }
                a
            };
            let r = &mut self.r;
            let d = 1 + r.below(4) as u32;
            let e = rand_expr(r, d, &mut leaf);
            let m = (1i64 << r.below(9)) - 1;
            let k = 1 + r.below(300) as i64;
            let e = match r.below(12) {
                0..=2 => E::b("+", E::b("&", e, E::c(m)), E::c(1 + r.below(40) as i64)),
                3 | 4 => E::b("+", E::c(k), E::b("%", e, E::c(k))),
                5 => E::b("+", E::b("*", E::b(["<", "<=", ">", ">="][r.below(4) as usize], e, E::c(r.below(200) as i64)), E::c(k)), E::c(1)),
                6 => E::b("|", E::b("&", e, E::c(m)), E::c(1)),
                7 => E::b("-", E::c(k + m), E::b("&", E::c(m), e)),
                8 | 9 => E::b("+", E::c(1 + r.below(20) as i64), E::b("&", E::c(m), E::b("^", e, leaf(r)))),
                10 if r.pct(40) => match r.below(4) {
                    0 => E::b("/", E::c(1000 + k), leaf(r)),
                    1 => E::A('b', Box::new(E::b("-", leaf(r), E::c(r.below(40) as i64)))),
                    2 => E::A(['b', 'h', 'i'][r.below(3) as usize], Box::new(E::C(1 << (20 + r.below(20)), 0))),
                    _ => e,
                },
                _ => E::b("+", E::b(">>", E::b("*", e.clone(), e), E::c(8 + r.below(20) as i64)), E::c(k)),
            };
            v.push(W::Expr(e));
        }
        Slicer::Walk(v)
    }

    /// walk expressions together with data they make sense on
    pub fn walk(&mut self, len: usize) -> (Slicer, Vec<u8>) {
        let k = 1 + self.below(3);
        let u = self.unit();
        let mut ws = vec![];
        for _ in 0..k {
            if self.pct(35) {
                let n = match self.below(3) {
                    0 => 1 + self.below(20),
                    1 => 1 + self.below(400),
                    _ => (u + self.below(5)).saturating_sub(2).max(1),
                };
                ws.push(W::Const(n as i64));
            } else {
                let ty = self.pick(&['b', 'h', 'i', 'l']);
                let idx = self.below(4) as u64;
                let mul = self.pick(&[1, 1, 1, 2, 3]);
                let add = self.pick(&[0, 0, 1, 5, 16, -1]);
                ws.push(W::Field { ty, idx, mul, add });
            }
        }
        // build the data round by round so that every length is positive (unless we want it otherwise)
        let bad = self.pct(10);
        let mut d: Vec<u8> = vec![];
        while d.len() < len {
            let at = d.len();
            let mut round = 0i64;
            for w in &ws {
                if let W::Field { ty, idx, .. } = w {
                    let n = match ty {
                        'b' => 1,
                        'h' => 2,
                        'i' => 4,
                        _ => 8,
                    };
                    let o = at + *idx as usize * n;
                    if d.len() < o + n {
                        d.resize(o + n, 0);
                    }
                    let x: u64 = match self.below(4) {
                        0 => 2 + self.r.below(10),
                        1 => 2 + self.r.below(100),
                        2 if n > 1 => 2 + self.r.below(3 * u as u64).min(30_000),
                        _ => 2 + self.r.below(30),
                    };
                    d[o..o + n].copy_from_slice(&x.to_le_bytes()[..n]);
                }
            }
            for w in &ws {
                round += match w {
                    W::Const(n) => *n,
                    W::Expr(_) => 0,
                    W::Field { ty, idx, mul, add } => {
                        let n = match ty {
                            'b' => 1,
                            'h' => 2,
                            'i' => 4,
                            _ => 8,
                        };
                        let o = at + *idx as usize * n;
                        let mut b = [0u8; 8];
                        b[..n].copy_from_slice(&d[o..o + n]);
                        i64::from_le_bytes(b) * mul + add
                    }
                };
            }
            // (a field may read over the bytes of another one)
            let next = at + round.clamp(1, 200_000) as usize;
            if next > d.len() {
                let fill = self.below(256) as u8;
                d.resize(next, fill);
            } else if self.pct(50) {
                // the fields of this round overlap the next one: stop here and leave a tail
                break;
            } else {
                // overlapping fields; lengths are whatever they are
                let x = next.max(at + 1);
                if x < d.len() {
                    d.truncate(x.max(at + 1));
                }
                if d.len() > len {
                    break;
                }
            }
        }
        if self.pct(60) && !d.is_empty() {
            let n = self.below(d.len() + 1);
            if self.pct(50) {
                d.truncate(n);
            }
        }
        if bad && !d.is_empty() {
            let i = self.below(d.len());
            d[i] = 0;
        }
        (Slicer::Walk(ws), d)
    }

    pub fn regex(&mut self) -> String {
        if self.pct(6) && self.cfg.files.iter().chain(&self.cfg.stdin).map(|f| f.data.len()).sum::<usize>() < 1500 {
            // these match the empty string
            return self.pick(&["a*", "", "^", "$", "b?", "(?-u:[\\x00-\\x08]*)", "(?-u:\\b)", "(?:ab)*?", "a|", "(?m)^", "(?s-u:.{0,2})"]).to_string();
        }
        if self.pct(35) {
            // something from a small grammar
            let k = 1 + self.below(3);
            let mut s = String::new();
            for i in 0..k {
                let a = self.pick(&[
                    "a", "b", "A", "[ab]", "[^a]", "(?s-u:.)", ".", "(?:ab|ba)", "(?:a|bb)", "(?-u:\\x00)", "(?-u:[\\x00-\\x09])", "(?-u:[^\\x00-\\x7f])", "o", "\\n",
                    " ",
                ]);
                s.push_str(a);
                let q: &[&str] = if i == 0 { &["", "", "+", "+?", "{2}", "{1,3}"] } else { &["", "", "+", "*", "?", "*?", "{2}", "{1,3}"] };
                s.push_str(self.pick(q));
            }
            return s;
        }
        self.pick(&[
            "a", "ab", "a+", "[ab]+b", "(ab)+", "(?-u:\\xff)", "foo|bar", "(?s-u:.)", "(?s-u:.{3})", "(?s-u:..)", "b.*a", "[0-9]+", "a{2,5}",
            "(?s-u:a.)", "o,? ?w", "(?-u:[\\x00-\\x10]+)", "aba", "(?s-u:.+)", "\\n", "hello", "(?i)A", "^a", "a$", "(?s-u:^.{1,4})",
        ])
        .to_string()
    }

    // ---- record files ----
    /// sorted, non-overlapping records within (and sometimes beyond) n bytes
    pub fn recs(&mut self, n: usize, max: usize, equal_body: u64) -> Vec<Rec> {
        let cnt = self.small(max);
        let mut v = vec![];
        let mut pos = 0usize;
        let room = (n / (cnt + 1)).max(1);
        for _ in 0..cnt {
            let gap = match self.below(5) {
                0 | 1 => 0,
                2 => self.below(4),
                3 => {
                    let u = self.unit();
                    if n > u { self.below(u + 3) } else { self.below(room + 1) }
                }
                _ => self.below(2 * room),
            };
            let span = match self.below(6) {
                0 => 0,
                1 | 2 => self.below(17),
                3 => self.below(room + 2),
                4 => self.below(5),
                _ => self.below(200),
            };
            let blen = if self.pct(equal_body) {
                span
            } else {
                match self.below(4) {
                    0 => 0,
                    1 => self.below(20),
                    2 => self.below(400),
                    _ => span.saturating_sub(self.below(4)),
                }
            };
            let body = self.data(blen.min(4000));
            v.push(Rec { offset: pos + gap, span, body });
            pos += gap + span;
        }
        v
    }
    /// guide records: sorted by offset, overlaps allowed
    pub fn guide_recs(&mut self, n: usize, max: usize) -> Vec<Rec> {
        let cnt = self.small(max);
        let mut offs: Vec<usize> = (0..cnt)
            .map(|_| match self.below(5) {
                0 => self.below(n + n / 4 + 2),
                1 => {
                    let u = self.unit();
                    u * self.below(4) + self.below(5)
                }
                _ => self.below(n + 1),
            })
            .collect();
        offs.sort();
        offs.into_iter()
            .map(|o| {
                let span = match self.below(6) {
                    0 => self.below(n + 10),
                    1 => {
                        let u = self.unit();
                        self.below(2 * u)
                    }
                    _ => 1 + self.below(40),
                };
                let body = if self.pct(20) { self.data(span.min(50)) } else { vec![] };
                Rec { offset: o, span, body }
            })
            .collect()
    }
    pub fn render_rec(&mut self, r: &Rec, dec: bool, plain: bool) -> String {
        let mut s = String::new();
        let num = |g: &mut G, x: usize| -> String {
            if dec {
                return x.to_string();
            }
            let w = if plain { 4 } else { g.below(13) };
            let t = format!("{x:0w$x}");
            if !plain && g.pct(20) { t.to_uppercase() } else { t }
        };
        s.push_str(&num(self, r.offset));
        s.push(' ');
        s.push_str(&num(self, r.span));
        if r.body.is_empty() && !dec && !plain && self.pct(40) {
            s.push('\n');
            return s;
        }
        s.push_str(" | ");
        let up = !plain && self.pct(15);
        let body: Vec<String> = r.body.iter().map(|b| if up { format!("{b:02X}") } else { format!("{b:02x}") }).collect();
        s.push_str(&body.join(" "));
        let style = if plain { 0 } else { self.below(5) };
        match style {
            0 => {}
            1 => {
                if !body.is_empty() {
                    s.push(' ');
                }
            }
            2 => {
                for _ in 0..self.below(40) {
                    s.push(' ');
                }
            }
            _ => {
                // mosaic; blanks before it are what the formatter itself prints
                if !body.is_empty() {
                    s.push(' ');
                }
                if style == 3 {
                    for _ in r.body.len()..self.below(20) {
                        s.push_str("   ");
                    }
                }
                s.push_str("| ");
                for b in &r.body {
                    s.push(if (0x20..0x7f).contains(b) { *b as char } else { '.' });
                }
            }
        }
        s.push('\n');
        s
    }
    pub fn render_recs(&mut self, v: &[Rec], dec: bool) -> Vec<u8> {
        let plain = self.pct(30);
        let mut s = String::new();
        for r in v {
            s.push_str(&self.render_rec(r, dec, plain));
        }
        if self.pct(30) && s.ends_with('\n') {
            s.pop();
            // a header alone or a body needs no newline at the end of the file
        }
        s.into_bytes()
    }

    // ---- programs and schedules ----
    pub fn sched(&mut self) -> Sched {
        let s = self.r.next();
        match self.below(8) {
            0 | 1 => Sched::Uniform(s),
            2 | 3 => Sched::Sticky(s, self.pick(&[30, 60, 80, 95])),
            4 | 5 => Sched::Pct(s, 1 + self.below(5) as u8),
            6 => Sched::Starve(s, self.below(4) as u16, 1 << (3 + self.below(9))),
            _ => Sched::Explicit(vec![]),
        }
    }
    pub fn split(&mut self) -> Split {
        match self.below(6) {
            0 => Split::Upto(3),
            1 => Split::Upto(1 + self.below(100)),
            2 => Split::Mixed,
            3 => Split::Near(60),
            _ => Split::Full,
        }
    }
    pub fn pipe_cap(&mut self) -> usize {
        match self.below(6) {
            0 => 1 + self.below(20),
            1 => 1 + self.below(300),
            2 => 512,
            3 => 4096,
            _ => 65536,
        }
    }
    /// a command that answers with valid records and exits 0
    pub fn good_prog(&mut self) -> ProgSpec {
        let mut p = ProgSpec::cat();
        let k = self.below(4);
        for _ in 0..k {
            let m = 1 + self.below(5) as u32;
            let r = self.below(m as usize) as u32;
            let f = match self.below(11) {
                0 => LineFn::Drop(m + 1, r),
                1 | 2 => LineFn::Only(m, r),
                3 => LineFn::Xor(self.below(256) as u8),
                4 => LineFn::Clear,
                5 => LineFn::Insert,
                6 => LineFn::Grow(self.below(4) as u8),
                7 => LineFn::Shrink(self.below(20) as u8),
                8 => LineFn::SpanMinus(self.below(5) as u8),
                9 => LineFn::Restyle(0),
                _ => LineFn::Head(self.below(20) as u32),
            };
            p.f.push(f);
        }
        if self.pct(10) {
            p.f.push(LineFn::NoMosaic);
        }
        p.collect = self.pct(25);
        p.read = self.split();
        p.write = self.split();
        p.start_delay = self.pick(&[0, 0, 0, 50, 5000]);
        p.think = self.pick(&[0, 0, 0, 20, 500]);
        p.linger = self.pick(&[0, 0, 0, 50, 5000]);
        p.seed = self.r.next();
        if self.pct(8) {
            p.ignore_stdin = true;
            p.prefix = if self.pct(50) { b"0003 0002 | 41 42 43\n".to_vec() } else { vec![] };
        } else if self.pct(8) {
            // like head -c: stops reading early but still exits 0 with complete records
            p.f = vec![LineFn::Head(self.below(8) as u32)];
            p.collect = false;
        }
        p
    }
    pub fn fail_end(&mut self) -> ProgEnd {
        match self.below(4) {
            0 => ProgEnd::Signal(self.pick(&[9, 15, 11, 13])),
            1 => ProgEnd::Exit(1),
            2 => ProgEnd::Exit(2 + self.below(253) as i32),
            _ => ProgEnd::Exit(255),
        }
    }

    /// makes the command answer in the format it's fed
    fn adapt_progs(&mut self) {
        if !matches!(self.o.out, Out::PatchBack(_)) || self.cfg.programs.is_empty() {
            return;
        }
        match self.o.out_fmt.clone() {
            Some(f) if f.starts_with('d') => self.cfg.programs[0].dec = self.pct(95),
            Some(f) if f == "b" && self.pct(90) && self.cfg.programs[0].prefix.is_empty() => {
                // it sees bytes, and answers with something of its own
                let n = self.cfg.files.first().map_or(0, |f| f.data.len());
                let r = self.recs(n, 6, 40);
                let text = self.render_recs(&r, false);
                let p = &mut self.cfg.programs[0];
                p.prefix = text;
                p.ignore_stdin = true;
            }
            _ => {}
        }
    }

    pub fn bystanders(&mut self) {
        let mut names: Vec<String> = vec!["bystander".into(), "d/other".into(), "o/old".into()];
        for i in self.o.inputs.clone() {
            if i != "-" {
                names.push(format!("{i}.tmp"));
                names.push(format!("{i}~"));
                names.push(format!("{i}.bak"));
            }
        }
        for n in names {
            if self.pct(35) && !self.cfg.files.iter().any(|f| norm(&f.name) == norm(&n)) {
                let l = self.below(50);
                let d = self.data(l);
                self.add_file(&n, d);
            }
        }
    }

    /// keeps the number of transfers through pipes and the spool within reason for long inputs
    fn coarsen(&mut self, unit: usize) {
        let fix = |x: &mut Split| match x {
            Split::One if unit > 10 => *x = Split::Upto(2 * unit),
            Split::Mixed if unit > 100 => *x = Split::Upto(2 * unit),
            Split::Upto(n) => *n = std::cmp::max(*n, 2 * unit),
            Split::Near(n) if *n < unit => *n *= unit.div_ceil(*n),
            _ => {}
        };
        self.cfg.pipe_cap = std::cmp::max(self.cfg.pipe_cap, unit);
        for p in &mut self.cfg.programs {
            fix(&mut p.read);
            fix(&mut p.write);
        }
        for (n, d) in &mut self.cfg.deliveries {
            if n.contains("pipe:") || n == "spool" {
                fix(&mut d.split);
            }
        }
    }

    /// files that the output takes the place of
    fn stale(&mut self) {
        let Out::Name(t) = self.o.out.clone() else { return };
        if !self.pct(40) {
            return;
        }
        for _ in 0..1 + self.below(5) {
            let n = self.below(30);
            let l = self.below(6);
            let name = crate::model::render_name(&t, n, l);
            if name.is_empty() || name == "-" || name.starts_with("/dev") || self.cfg.files.iter().any(|f| norm(&f.name) == norm(&name)) {
                continue;
            }
            let l = 1 + self.small(600);
            let d = self.data(l);
            self.add_file(&name, d);
        }
    }

    pub fn finish(mut self, prop: &str, kind: &str) -> Case {
        self.adapt_progs();
        self.out_delivery();
        self.stale();
        let bytes: usize = self.cfg.files.iter().map(|f| f.data.len()).sum::<usize>()
            + self.cfg.stdin.as_ref().map_or(0, |f| f.data.len())
            + self.o.pad.map_or(0, |p| (p.0 + p.1) as usize);
        if !self.cfg.programs.is_empty() {
            self.coarsen(bytes / 300);
        }
        let per = if bytes > 200_000 { 1 } else { 200 };
        self.cfg.step_limit = 600_000 + per * bytes as u64;
        Case { prop: prop.to_string(), kind: kind.to_string(), lib: self.lib, opts: self.o, cfg: self.cfg, aux: vec![] }
    }
}
