pub use ::std::process::{ExitCode, ExitStatus, Output, Termination, id};
use crate::prog::{PipeRes, Prog, ProgSpec};
use crate::rt::{self, call, op, peek, ChildRec, End, Key, Op, Step};
use ::std::ffi::OsStr;
use ::std::io::{self, Read, Write};
use ::std::os::unix::process::ExitStatusExt;

pub fn exit(code: i32) -> ! {
    crate::io::cleanup_stdout();
    rt::end_process(End::Exit(code & 0xff))
}
pub fn abort() -> ! {
    rt::end_process(End::Abort)
}

#[derive(Debug)]
enum StdioKind {
    Inherit,
    Null,
    Piped,
    File(#[allow(dead_code)] crate::fs::File),
}
#[derive(Debug)]
pub struct Stdio(StdioKind);
impl Stdio {
    pub fn piped() -> Self {
        Stdio(StdioKind::Piped)
    }
    pub fn inherit() -> Self {
        Stdio(StdioKind::Inherit)
    }
    pub fn null() -> Self {
        Stdio(StdioKind::Null)
    }
}
impl From<crate::fs::File> for Stdio {
    fn from(f: crate::fs::File) -> Self {
        Stdio(StdioKind::File(f))
    }
}

#[derive(Debug)]
pub struct Command {
    prog: String,
    args: Vec<String>,
    stdin: Option<Stdio>,
    stdout: Option<Stdio>,
    stderr: Option<Stdio>,
}
impl Command {
    pub fn new<S: AsRef<OsStr>>(p: S) -> Self {
        Command { prog: p.as_ref().to_string_lossy().to_string(), args: Vec::new(), stdin: None, stdout: None, stderr: None }
    }
    pub fn arg<S: AsRef<OsStr>>(&mut self, a: S) -> &mut Self {
        self.args.push(a.as_ref().to_string_lossy().to_string());
        self
    }
    pub fn args<I, S>(&mut self, a: I) -> &mut Self
    where
        I: IntoIterator<Item = S>,
        S: AsRef<OsStr>,
    {
        for x in a {
            self.arg(x);
        }
        self
    }
    pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, _: K, _: V) -> &mut Self {
        self
    }
    pub fn envs<I, K, V>(&mut self, _: I) -> &mut Self
    where
        I: IntoIterator<Item = (K, V)>,
        K: AsRef<OsStr>,
        V: AsRef<OsStr>,
    {
        self
    }
    pub fn env_clear(&mut self) -> &mut Self {
        self
    }
    pub fn env_remove<K: AsRef<OsStr>>(&mut self, _: K) -> &mut Self {
        self
    }
    pub fn current_dir<P: AsRef<::std::path::Path>>(&mut self, _: P) -> &mut Self {
        self
    }
    pub fn stdin<T: Into<Stdio>>(&mut self, s: T) -> &mut Self {
        self.stdin = Some(s.into());
        self
    }
    pub fn stdout<T: Into<Stdio>>(&mut self, s: T) -> &mut Self {
        self.stdout = Some(s.into());
        self
    }
    pub fn stderr<T: Into<Stdio>>(&mut self, s: T) -> &mut Self {
        self.stderr = Some(s.into());
        self
    }
    pub fn get_program(&self) -> &OsStr {
        OsStr::new(&self.prog)
    }
    pub fn get_args(&self) -> impl ExactSizeIterator<Item = &OsStr> {
        self.args.iter().map(OsStr::new)
    }

    fn start(&mut self, def_in: bool, def_out: bool) -> io::Result<Child> {
        let prog = self.prog.clone();
        let argv: Vec<String> = ::std::iter::once(prog.clone()).chain(self.args.iter().cloned()).collect();
        let piped = |s: &Option<Stdio>, d: bool| match s {
            Some(s) => matches!(s.0, StdioKind::Piped),
            None => d,
        };
        let (pin, pout, perr) = (piped(&self.stdin, def_in), piped(&self.stdout, def_out), piped(&self.stderr, def_out));
        let r = call(|w| {
            if let Some(e) = w.fault(Op::Spawn, "proc") {
                return Err(e);
            }
            // a shell runs its script; anything else is looked up by its own name
            let base = prog.rsplit('/').next().unwrap_or("").to_string();
            let is_shell = base == "bash" || base == "sh";
            let (script, shell) = if is_shell {
                match argv.iter().position(|a| a == "-c") {
                    Some(i) => (argv.get(i + 1).cloned().unwrap_or_default(), true),
                    None => (String::new(), true),
                }
            } else {
                (argv.join(" "), false)
            };
            let idx = script.split_whitespace().collect::<Vec<_>>();
            let idx = match idx.as_slice() {
                ["prog", n] => n.parse::<usize>().ok(),
                [name, ..] => w.cfg.aliases.iter().find(|x| x.0 == *name).map(|x| x.1),
                _ => None,
            };
            let idx = idx.filter(|&i| i < w.cfg.programs.len());
            if idx.is_none() && !shell {
                return Err(libc::ENOENT);
            }
            let child = w.children.len();
            let spec = match idx {
                Some(i) => w.cfg.programs[i].clone(),
                // command not found
                None => ProgSpec { ignore_stdin: true, end: crate::prog::ProgEnd::Exit(127), ..ProgSpec::cat() },
            };
            let i = if pin { Some(w.new_pipe(format!("pipe:in:{child}"))) } else { None };
            let o = if pout { Some(w.new_pipe(format!("pipe:out:{child}"))) } else { None };
            let er = if perr {
                let p = w.new_pipe(format!("pipe:err:{child}"));
                w.pipe_close_write(p);
                Some(p)
            } else {
                None
            };
            w.children.push(ChildRec { argv: argv.clone(), prog: idx, ..Default::default() });
            let ent = w.add_prog(Prog::new(spec, child, i, o));
            w.event(Op::Spawn, "proc", child as u64, 0);
            Ok((child, ent, i, o, er))
        });
        let (child, ent, i, o, er) = r.map_err(io::Error::from_raw_os_error)?;
        Ok(Child {
            stdin: i.map(|p| ChildStdin { pipe: p }),
            stdout: o.map(|p| ChildStdout { pipe: p }),
            stderr: er.map(|p| ChildStderr { pipe: p }),
            child,
            ent,
        })
    }
    pub fn spawn(&mut self) -> io::Result<Child> {
        self.start(false, false)
    }
    pub fn output(&mut self) -> io::Result<Output> {
        self.start(false, true)?.wait_with_output()
    }
    pub fn status(&mut self) -> io::Result<ExitStatus> {
        self.start(false, false)?.wait()
    }
}

#[derive(Debug)]
pub struct Child {
    pub stdin: Option<ChildStdin>,
    pub stdout: Option<ChildStdout>,
    pub stderr: Option<ChildStderr>,
    child: usize,
    ent: usize,
}
impl Child {
    pub fn id(&self) -> u32 {
        1000 + self.child as u32
    }
    pub fn wait(&mut self) -> io::Result<ExitStatus> {
        drop(self.stdin.take());
        let child = self.child;
        let mut first = true;
        let r = op(|w| {
            if ::std::mem::replace(&mut first, false) {
                if let Some(e) = w.fault(Op::Wait, "proc") {
                    return Step::Done(Err(e));
                }
            }
            match w.children[child].status {
                Some(s) => {
                    w.children[child].reaped = true;
                    w.event(Op::Wait, "proc", child as u64, s as i64);
                    Step::Done(Ok(s))
                }
                None => Step::Block(Key::Child(child)),
            }
        });
        r.map(ExitStatus::from_raw).map_err(io::Error::from_raw_os_error)
    }
    pub fn try_wait(&mut self) -> io::Result<Option<ExitStatus>> {
        let child = self.child;
        Ok(call(|w| {
            if w.children[child].status.is_some() {
                w.children[child].reaped = true;
            }
            w.children[child].status
        })
        .map(ExitStatus::from_raw))
    }
    pub fn kill(&mut self) -> io::Result<()> {
        let ent = self.ent;
        call(|w| {
            if let rt::EntKind::Prog(Some(p)) = &mut w.ents[ent].kind {
                p.killed = true;
            }
            if w.ents[ent].st != rt::St::Done {
                w.ents[ent].st = rt::St::Ready;
                w.ents[ent].deadline = None;
            }
        });
        Ok(())
    }
    pub fn wait_with_output(mut self) -> io::Result<Output> {
        drop(self.stdin.take());
        let (mut a, mut b) = (Vec::new(), Vec::new());
        if let Some(mut o) = self.stdout.take() {
            o.read_to_end(&mut a)?;
        }
        if let Some(mut o) = self.stderr.take() {
            o.read_to_end(&mut b)?;
        }
        let status = self.wait()?;
        Ok(Output { status, stdout: a, stderr: b })
    }
}

#[derive(Debug)]
pub struct ChildStdin {
    pipe: usize,
}
impl ChildStdin {
    fn wr(&self, buf: &[u8]) -> io::Result<usize> {
        let p = self.pipe;
        let name = peek(|w| w.pipes[p].name.clone());
        let mut first = true;
        let mut want = buf.len();
        let r = op(|w| {
            if ::std::mem::replace(&mut first, false) {
                if let Some(e) = w.fault(Op::Write, &name) {
                    return Step::Done(crate::vfs::write_fault(e));
                }
                match w.deliver(&format!("w:{name}"), buf.len()) {
                    Ok(n) => want = n,
                    Err(e) => return Step::Done(Err(e)),
                }
            }
            if buf.is_empty() {
                return Step::Done(Ok(0));
            }
            match w.pipe_write(p, &buf[..want]) {
                PipeRes::N(n) => {
                    w.event(Op::Write, &name, n as u64, 0);
                    Step::Done(Ok(n))
                }
                PipeRes::Block => {
                    w.stats.pipe_full += 1;
                    Step::Block(Key::PipeW(p))
                }
                PipeRes::Closed => {
                    w.event(Op::Write, &name, 0, -(libc::EPIPE as i64));
                    Step::Done(Err(libc::EPIPE))
                }
            }
        });
        r.map_err(io::Error::from_raw_os_error)
    }
}
impl Write for ChildStdin {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.wr(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Write for &ChildStdin {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.wr(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Drop for ChildStdin {
    fn drop(&mut self) {
        if rt::in_task() {
            call(|w| w.pipe_close_write(self.pipe));
        }
    }
}

fn pipe_rd(p: usize, buf: &mut [u8]) -> io::Result<usize> {
    let name = peek(|w| w.pipes[p].name.clone());
    if let Some(ns) = peek(|w| w.delay(&name)) {
        rt::sleep_ns(ns);
    }
    let mut first = true;
    let mut want = buf.len();
    let r = op(|w| {
        if ::std::mem::replace(&mut first, false) {
            if let Some(e) = w.fault(Op::Read, &name) {
                return Step::Done(Err(e));
            }
            match w.deliver(&name, buf.len()) {
                Ok(n) => want = n,
                Err(e) => return Step::Done(Err(e)),
            }
        }
        if buf.is_empty() {
            return Step::Done(Ok(0));
        }
        match w.pipe_read(p, &mut buf[..want]) {
            PipeRes::N(n) => {
                w.event(Op::Read, &name, n as u64, 0);
                Step::Done(Ok(n))
            }
            PipeRes::Block => Step::Block(Key::PipeR(p)),
            PipeRes::Closed => unreachable!(),
        }
    });
    r.map_err(io::Error::from_raw_os_error)
}

macro_rules! reader {
    ($t: ident) => {
        #[derive(Debug)]
        pub struct $t {
            pipe: usize,
        }
        impl Read for $t {
            fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                pipe_rd(self.pipe, buf)
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                if rt::in_task() {
                    call(|w| w.pipe_close_read(self.pipe));
                }
            }
        }
    };
}
reader!(ChildStdout);
reader!(ChildStderr);

macro_rules! no_stdio {
    ($($t: ty),*) => { $(impl From<$t> for Stdio {
        fn from(_: $t) -> Self {
            unimplemented!("piping children into each other is not simulated")
        }
    })* };
}
no_stdio!(ChildStdin, ChildStdout, ChildStderr);
macro_rules! inherit_stdio {
    ($($t: ty),*) => { $(impl From<$t> for Stdio {
        fn from(_: $t) -> Self {
            Stdio::inherit()
        }
    })* };
}
inherit_stdio!(crate::io::Stdout, crate::io::Stderr);
