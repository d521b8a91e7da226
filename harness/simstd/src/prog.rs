//! Virtual child programs: the commands of --patch-back and the pager.
use crate::rt::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum LineFn {
    Keep,
    /// drop lines whose index is r modulo m
    Drop(u32, u32),
    /// keep only such lines
    Only(u32, u32),
    /// xor every body byte
    Xor(u8),
    /// empty the body (deletes the span)
    Clear,
    /// span 0: insert before
    Insert,
    /// repeat the body n times
    Grow(u8),
    /// truncate the body to n bytes
    Shrink(u8),
    /// span one shorter than it was
    SpanMinus(u8),
    /// upper-case digits, no mosaic, extra blanks
    Restyle(u8),
    /// remove "|" and the mosaic
    NoMosaic,
    /// the n-th line is replaced by text that cannot be parsed
    Garbage(u32),
    /// only the first n lines
    Head(u32),
    /// only lines that begin where the one before has ended, or later
    Disjoint,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ProgEnd {
    Exit(i32),
    Signal(i32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ProgSpec {
    pub f: Vec<LineFn>,
    /// written before anything is read
    #[serde(with = "crate::bytes_serde")]
    pub prefix: Vec<u8>,
    /// reads its whole input before it writes
    pub collect: bool,
    /// does not read at all
    pub ignore_stdin: bool,
    /// closes its stdin after that many bytes
    pub read_limit: Option<u64>,
    /// closes its stdout after that many bytes
    pub out_limit: Option<u64>,
    /// ends at once when the output limit is reached (otherwise goes on reading)
    pub die_at_limit: bool,
    /// closes stdout when its output is complete, then lingers
    pub read: Split,
    pub write: Split,
    pub start_delay: u32,
    pub think: u32,
    pub linger: u32,
    pub end: ProgEnd,
    pub seed: u64,
    /// takes the records for decimal ones
    #[serde(default)]
    pub dec: bool,
}

impl ProgSpec {
    pub fn cat() -> Self {
        ProgSpec {
            f: vec![],
            prefix: vec![],
            collect: false,
            ignore_stdin: false,
            read_limit: None,
            out_limit: None,
            die_at_limit: false,
            read: Split::Full,
            write: Split::Full,
            start_delay: 0,
            think: 0,
            linger: 0,
            end: ProgEnd::Exit(0),
            seed: 0,
            dec: false,
        }
    }
    pub fn status(&self) -> i32 {
        match self.end {
            ProgEnd::Exit(c) => (c & 0xff) << 8,
            ProgEnd::Signal(s) => s,
        }
    }
    /// what the program prints for a complete input
    pub fn output(&self, input: &[u8]) -> Vec<u8> {
        let mut out = self.prefix.clone();
        if !self.ignore_stdin {
            let input = match self.read_limit {
                Some(l) => &input[..std::cmp::min(l as usize, input.len())],
                None => input,
            };
            let mut st = LineState { dec: self.dec, ..Default::default() };
            let mut rest = input;
            while !rest.is_empty() {
                let n = rest.iter().position(|&b| b == b'\n').map_or(rest.len(), |p| p + 1);
                st.line(&self.f, &rest[..n], &mut out);
                rest = &rest[n..];
            }
        }
        if let Some(l) = self.out_limit {
            out.truncate(l as usize);
        }
        out
    }
}

#[derive(Default, Debug)]
pub struct LineState {
    idx: u32,
    end: u64,
    dec: bool,
}
impl LineState {
    pub fn line(&mut self, fs: &[LineFn], line: &[u8], out: &mut Vec<u8>) {
        let idx = self.idx;
        self.idx += 1;
        if fs.is_empty() {
            out.extend_from_slice(line);
            return;
        }
        // offset, span, body, mosaic
        let text = String::from_utf8_lossy(line).to_string();
        let mut parts = text.trim_end_matches('\n').splitn(3, '|');
        let head: Vec<&str> = parts.next().unwrap_or("").split_whitespace().collect();
        let mut body: Vec<u8> =
            parts.next().unwrap_or("").split_whitespace().filter_map(|x| u8::from_str_radix(x, 16).ok()).collect();
        let mosaic = parts.next().unwrap_or("").to_string();
        if head.len() != 2 {
            out.extend_from_slice(line);
            return;
        }
        let offset = head[0].to_string();
        let radix = if self.dec { 10 } else { 16 };
        let mut span = u64::from_str_radix(head[1], radix).unwrap_or(0);
        let (mut upper, mut show_mosaic, mut blanks, mut keep) = (false, true, 0usize, true);
        for f in fs {
            match f {
                LineFn::Keep => {}
                LineFn::Drop(m, r) => keep &= idx % m != *r,
                LineFn::Only(m, r) => keep &= idx % m == *r,
                LineFn::Xor(k) => body.iter_mut().for_each(|b| *b ^= k),
                LineFn::Clear => body.clear(),
                LineFn::Insert => span = 0,
                LineFn::Grow(n) => body = body.repeat(*n as usize),
                LineFn::Shrink(n) => body.truncate(*n as usize),
                LineFn::SpanMinus(n) => span = span.saturating_sub(*n as u64),
                LineFn::Restyle(n) => {
                    upper = true;
                    blanks = *n as usize;
                }
                LineFn::NoMosaic => show_mosaic = false,
                LineFn::Garbage(n) => {
                    if idx == *n {
                        out.extend_from_slice(b"this is not a record\n");
                        return;
                    }
                }
                LineFn::Head(n) => keep &= idx < *n,
                LineFn::Disjoint => {
                    let o = u64::from_str_radix(&offset, radix).unwrap_or(0);
                    keep &= o >= self.end;
                    if keep {
                        self.end = o.saturating_add(span);
                    }
                }
            }
        }
        if !keep {
            return;
        }
        let sp = " ".repeat(blanks);
        let mut s = if self.dec { format!("{offset} {sp}{span} {sp}|") } else { format!("{offset} {sp}{span:x} {sp}|") };
        for b in &body {
            if upper {
                s.push_str(&format!(" {b:02X}"));
            } else {
                s.push_str(&format!(" {b:02x}"));
            }
        }
        if show_mosaic && blanks == 0 {
            s.push_str(" |");
            s.push_str(&mosaic);
        }
        s.push('\n');
        out.extend_from_slice(s.as_bytes());
    }
}

#[derive(Debug, PartialEq)]
enum Phase {
    Start,
    Run,
    Linger,
}

pub struct Prog {
    pub spec: ProgSpec,
    pub child: usize,
    pub stdin: Option<usize>,
    pub stdout: Option<usize>,
    /// stdout is the terminal (pager): writes go nowhere
    pub stdout_open: bool,
    rng: Rng,
    phase: Phase,
    inbuf: Vec<u8>,
    scanned: usize,
    outbuf: Vec<u8>,
    outpos: usize,
    got: u64,
    emitted: u64,
    eof: bool,
    lines: LineState,
    pub killed: bool,
}

impl Prog {
    pub fn new(spec: ProgSpec, child: usize, stdin: Option<usize>, stdout: Option<usize>) -> Self {
        let rng = Rng::new(spec.seed);
        let outbuf = spec.prefix.clone();
        let eof = spec.ignore_stdin;
        let lines = LineState { dec: spec.dec, ..Default::default() };
        Prog {
            spec,
            child,
            stdin,
            stdout,
            stdout_open: true,
            rng,
            phase: Phase::Start,
            inbuf: Vec::new(),
            scanned: 0,
            outbuf,
            outpos: 0,
            got: 0,
            emitted: 0,
            eof,
            lines,
            killed: false,
        }
    }

    fn close_in(&mut self, w: &mut World) {
        if let Some(p) = self.stdin.take() {
            w.pipe_close_read(p);
        }
        self.eof = true;
    }
    fn close_out(&mut self, w: &mut World) {
        if let Some(p) = self.stdout.take() {
            w.pipe_close_write(p);
        }
        self.stdout_open = false;
    }
    fn sleep(&mut self, w: &mut World, ent: usize, us: u32) -> bool {
        if us == 0 {
            return false;
        }
        let t = w.stats.clock_ns + 1000 * (1 + self.rng.below(us as u64));
        w.ents[ent].st = St::Blocked(Key::Timer);
        w.ents[ent].deadline = Some(t);
        true
    }
    fn exit(&mut self, w: &mut World, ent: usize, status: i32) {
        self.close_in(w);
        self.close_out(w);
        w.ents[ent].st = St::Done;
        w.children[self.child].status = Some(status);
        w.event(Op::Exit, "child", self.child as u64, status as i64);
        w.wake(Key::Child(self.child));
    }

    fn written(&mut self, n: usize) {
        self.outpos += n;
        if self.outpos >= 65536 && self.outpos * 2 >= self.outbuf.len() || self.outpos == self.outbuf.len() {
            self.outbuf.drain(..self.outpos);
            self.outpos = 0;
        }
    }

    fn absorb(&mut self) {
        // complete lines, or everything at end of input
        if self.spec.collect && !self.eof {
            return;
        }
        let mut pos = 0;
        if self.spec.f.is_empty() {
            pos = self.inbuf.len();
            self.outbuf.extend_from_slice(&self.inbuf);
        } else {
            while pos < self.inbuf.len() {
                let rest = &self.inbuf[pos..];
                let from = ::std::mem::replace(&mut self.scanned, 0);
                let n = match rest[from..].iter().position(|&b| b == b'\n') {
                    Some(p) => from + p + 1,
                    None if self.eof => rest.len(),
                    None => {
                        self.scanned = rest.len();
                        break;
                    }
                };
                let line = rest[..n].to_vec();
                self.lines.line(&self.spec.f, &line, &mut self.outbuf);
                pos += n;
            }
        }
        self.inbuf.drain(..pos);
    }

    /// one step of the program
    pub fn step(&mut self, w: &mut World, ent: usize) {
        if self.killed {
            return self.exit(w, ent, 9);
        }
        if self.phase == Phase::Start {
            self.phase = Phase::Run;
            let d = self.spec.start_delay;
            if self.sleep(w, ent, d) {
                return;
            }
        }
        if self.phase == Phase::Linger {
            let s = self.spec.status();
            return self.exit(w, ent, s);
        }
        // output first, as a sequential program would
        if self.stdout_open && self.spec.out_limit.is_some_and(|l| self.emitted >= l) {
            self.close_out(w);
            self.outbuf.clear();
            self.outpos = 0;
            if self.spec.die_at_limit {
                let s = self.spec.status();
                return self.exit(w, ent, s);
            }
        }
        if self.outpos < self.outbuf.len() {
            if !self.stdout_open {
                self.outbuf.clear();
                self.outpos = 0;
                return;
            }
            let mut n = self.spec.write.next(&mut self.rng, self.outbuf.len() - self.outpos);
            if let Some(l) = self.spec.out_limit {
                n = std::cmp::min(n as u64, l - self.emitted) as usize;
            }
            match self.stdout {
                None => {
                    w.children[self.child].emitted.extend_from_slice(&self.outbuf[self.outpos..self.outpos + n]);
                    self.written(n);
                    self.emitted += n as u64;
                }
                Some(p) => match w.pipe_write(p, &self.outbuf[self.outpos..self.outpos + n]) {
                    PipeRes::N(n) => {
                        w.children[self.child].emitted.extend_from_slice(&self.outbuf[self.outpos..self.outpos + n]);
                        self.written(n);
                        self.emitted += n as u64;
                        w.event(Op::Write, "child", self.emitted, n as i64);
                    }
                    PipeRes::Block => {
                        w.ents[ent].st = St::Blocked(Key::PipeW(p));
                        w.stats.pipe_full += 1;
                    }
                    PipeRes::Closed => {
                        // SIGPIPE
                        w.children[self.child].got_epipe = true;
                        return self.exit(w, ent, libc::SIGPIPE);
                    }
                },
            }
            return;
        }
        if !self.eof {
            let limit = self.spec.read_limit.unwrap_or(u64::MAX);
            if self.got >= limit {
                self.close_in(w);
                self.absorb();
                return;
            }
            let p = match self.stdin {
                None => {
                    self.eof = true;
                    self.absorb();
                    return;
                }
                Some(p) => p,
            };
            let want = std::cmp::min(self.spec.read.next(&mut self.rng, 65536) as u64, limit - self.got) as usize;
            let mut buf = vec![0; want];
            match w.pipe_read(p, &mut buf) {
                PipeRes::N(n) => {
                    w.event(Op::Read, "child", self.got, n as i64);
                    if n == 0 {
                        w.children[self.child].saw_eof = true;
                        self.close_in(w);
                    } else {
                        w.children[self.child].got.extend_from_slice(&buf[..n]);
                        self.inbuf.extend_from_slice(&buf[..n]);
                        self.got += n as u64;
                    }
                    self.absorb();
                    let t = self.spec.think;
                    if t > 0 && self.rng.pct(30) {
                        self.sleep(w, ent, t);
                    }
                }
                PipeRes::Block => w.ents[ent].st = St::Blocked(Key::PipeR(p)),
                PipeRes::Closed => unreachable!(),
            }
            return;
        }
        // all done
        self.close_in(w);
        if self.spec.linger > 0 {
            // with an odd seed the output is closed first, so that end of file and exit are seen apart
            if self.spec.seed & 1 == 1 {
                self.close_out(w);
            }
            self.phase = Phase::Linger;
            let l = self.spec.linger;
            if self.sleep(w, ent, l) {
                return;
            }
        }
        let s = self.spec.status();
        self.exit(w, ent, s)
    }
}

pub enum PipeRes {
    N(usize),
    Block,
    Closed,
}

impl World {
    pub fn new_pipe(&mut self, name: String) -> usize {
        let cap = std::cmp::max(1, self.cfg.pipe_cap);
        self.pipes.push(Pipe { name, cap, readers: 1, writers: 1, ..Default::default() });
        self.pipes.len() - 1
    }
    pub fn pipe_read(&mut self, p: usize, buf: &mut [u8]) -> PipeRes {
        let pipe = &mut self.pipes[p];
        if pipe.buf.is_empty() {
            return if pipe.writers == 0 { PipeRes::N(0) } else { PipeRes::Block };
        }
        let n = std::cmp::min(buf.len(), pipe.buf.len());
        for b in &mut buf[..n] {
            *b = pipe.buf.pop_front().unwrap();
        }
        self.wake(Key::PipeW(p));
        PipeRes::N(n)
    }
    pub fn pipe_write(&mut self, p: usize, buf: &[u8]) -> PipeRes {
        let pipe = &mut self.pipes[p];
        if pipe.readers == 0 {
            return PipeRes::Closed;
        }
        let room = pipe.cap - std::cmp::min(pipe.cap, pipe.buf.len());
        if room == 0 {
            return PipeRes::Block;
        }
        let n = std::cmp::min(room, buf.len());
        pipe.buf.extend(&buf[..n]);
        pipe.total += n as u64;
        pipe.writes += 1;
        if pipe.writes % 4_000 == 0 {
            // as with long transfers elsewhere: their number stays bounded
            pipe.cap = pipe.cap.saturating_mul(2);
        }
        self.wake(Key::PipeR(p));
        PipeRes::N(n)
    }
    pub fn pipe_close_read(&mut self, p: usize) {
        self.pipes[p].readers = self.pipes[p].readers.saturating_sub(1);
        if self.pipes[p].readers == 0 {
            self.wake(Key::PipeW(p));
        }
    }
    pub fn pipe_close_write(&mut self, p: usize) {
        self.pipes[p].writers = self.pipes[p].writers.saturating_sub(1);
        if self.pipes[p].writers == 0 {
            self.wake(Key::PipeR(p));
        }
    }
}
