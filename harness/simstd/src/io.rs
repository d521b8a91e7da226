pub use ::std::io::*;
use crate::rt::{call, in_task, op, peek, sleep_ns, Key, Step};
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub trait IsTerminal {
    fn is_terminal(&self) -> bool;
}
macro_rules! tty {
    ($n: expr, $($t: ty),*) => { $(impl IsTerminal for $t { fn is_terminal(&self) -> bool { peek(|w| w.cfg.tty[$n]) } })* };
}
tty!(0, Stdin, StdinLock<'_>);
tty!(1, Stdout, StdoutLock<'_>);
tty!(2, Stderr, StderrLock<'_>);
impl IsTerminal for crate::fs::File {
    fn is_terminal(&self) -> bool {
        false
    }
}

fn err(e: i32) -> Error {
    Error::from_raw_os_error(e)
}

// a reentrant lock of the simulated process
struct SimLock {
    owner: AtomicUsize,
    depth: AtomicUsize,
}
impl SimLock {
    const fn new() -> Self {
        SimLock { owner: AtomicUsize::new(usize::MAX), depth: AtomicUsize::new(0) }
    }
    fn lock(&'static self) {
        let me = crate::rt::me();
        if self.owner.load(SeqCst) == me {
            self.depth.fetch_add(1, SeqCst);
            return;
        }
        op(|_| {
            if self.owner.load(SeqCst) == usize::MAX {
                self.owner.store(me, SeqCst);
                self.depth.store(1, SeqCst);
                Step::Done(())
            } else {
                Step::Block(Key::Lock(self as *const _ as usize))
            }
        })
    }
    fn unlock(&'static self) {
        if self.depth.fetch_sub(1, SeqCst) == 1 {
            self.owner.store(usize::MAX, SeqCst);
            peek(|w| w.wake(Key::Lock(self as *const _ as usize)));
        }
    }
}

struct RawStdin;
impl Read for RawStdin {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if let Some(ns) = peek(|w| w.delay("stdin")) {
            sleep_ns(ns);
        }
        op(|w| Step::Done(w.stdin_read(buf))).map_err(err)
    }
}
struct RawStdout;
impl Write for RawStdout {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        op(|w| Step::Done(w.stdout_write(buf))).map_err(err)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

struct Cell<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Cell<T> {}
static IN: Cell<BufReader<RawStdin>> = Cell(UnsafeCell::new(None));
static OUT: Cell<LineWriter<RawStdout>> = Cell(UnsafeCell::new(None));
static IN_LOCK: SimLock = SimLock::new();
static OUT_LOCK: SimLock = SimLock::new();

/// forgets the standard streams of a previous run
pub(crate) fn reset() {
    for l in [&IN_LOCK, &OUT_LOCK] {
        l.owner.store(usize::MAX, SeqCst);
        l.depth.store(0, SeqCst);
    }
    unsafe {
        ::std::mem::forget((*IN.0.get()).take());
        ::std::mem::forget((*OUT.0.get()).take());
    }
}

pub(crate) fn cleanup_stdout() {
    let free = OUT_LOCK.owner.load(SeqCst);
    if free == usize::MAX {
        OUT_LOCK.lock();
        // as in std: what cannot be flushed now is lost silently
        let old = unsafe { (*OUT.0.get()).take() };
        drop(old);
        OUT_LOCK.unlock();
    }
}

#[derive(Debug)]
pub struct Stdin(());
pub struct StdinLock<'a>(::std::marker::PhantomData<&'a ()>);
pub fn stdin() -> Stdin {
    Stdin(())
}
impl Stdin {
    pub fn lock(&self) -> StdinLock<'static> {
        IN_LOCK.lock();
        StdinLock(::std::marker::PhantomData)
    }
    pub fn read_line(&self, buf: &mut String) -> Result<usize> {
        self.lock().read_line(buf)
    }
    pub fn lines(self) -> Lines<StdinLock<'static>> {
        self.lock().lines()
    }
}
impl StdinLock<'_> {
    #[allow(clippy::mut_from_ref)]
    fn inner(&self) -> &mut BufReader<RawStdin> {
        unsafe { (*IN.0.get()).get_or_insert_with(|| BufReader::with_capacity(8192, RawStdin)) }
    }
}
impl Drop for StdinLock<'_> {
    fn drop(&mut self) {
        if in_task() {
            IN_LOCK.unlock()
        }
    }
}
impl Read for StdinLock<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.inner().read(buf)
    }
}
impl BufRead for StdinLock<'_> {
    fn fill_buf(&mut self) -> Result<&[u8]> {
        self.inner().fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.inner().consume(n)
    }
}
impl Read for Stdin {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.lock().read(buf)
    }
}
impl Read for &Stdin {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.lock().read(buf)
    }
}

#[derive(Debug)]
pub struct Stdout(());
pub struct StdoutLock<'a>(::std::marker::PhantomData<&'a ()>);
pub fn stdout() -> Stdout {
    Stdout(())
}
impl Stdout {
    pub fn lock(&self) -> StdoutLock<'static> {
        OUT_LOCK.lock();
        StdoutLock(::std::marker::PhantomData)
    }
}
impl StdoutLock<'_> {
    #[allow(clippy::mut_from_ref)]
    fn inner(&self) -> &mut LineWriter<RawStdout> {
        unsafe { (*OUT.0.get()).get_or_insert_with(|| LineWriter::new(RawStdout)) }
    }
}
impl Drop for StdoutLock<'_> {
    fn drop(&mut self) {
        if in_task() {
            OUT_LOCK.unlock()
        }
    }
}
impl Write for StdoutLock<'_> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.inner().write(buf)
    }
    fn flush(&mut self) -> Result<()> {
        self.inner().flush()
    }
    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
        self.inner().write_all(buf)
    }
}
impl Write for Stdout {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.lock().write(buf)
    }
    fn flush(&mut self) -> Result<()> {
        self.lock().flush()
    }
    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
        self.lock().write_all(buf)
    }
}
impl Write for &Stdout {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.lock().write(buf)
    }
    fn flush(&mut self) -> Result<()> {
        self.lock().flush()
    }
    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
        self.lock().write_all(buf)
    }
}

#[derive(Debug)]
pub struct Stderr(());
pub struct StderrLock<'a>(::std::marker::PhantomData<&'a ()>);
pub fn stderr() -> Stderr {
    Stderr(())
}
impl Stderr {
    pub fn lock(&self) -> StderrLock<'static> {
        StderrLock(::std::marker::PhantomData)
    }
}
fn stderr_write(buf: &[u8]) -> Result<usize> {
    call(|w| {
        if w.stderr.len() < 1 << 20 {
            w.stderr.extend_from_slice(buf)
        }
    });
    Ok(buf.len())
}
macro_rules! stderr {
    ($($t: ty),*) => { $(impl Write for $t {
        fn write(&mut self, buf: &[u8]) -> Result<usize> { stderr_write(buf) }
        fn flush(&mut self) -> Result<()> { Ok(()) }
    })* };
}
stderr!(Stderr, &Stderr, StderrLock<'_>);

#[doc(hidden)]
pub fn _print(a: fmt::Arguments<'_>) {
    if let Err(e) = stdout().write_fmt(a) {
        panic!("failed printing to stdout: {e}");
    }
}
#[doc(hidden)]
pub fn _println(a: fmt::Arguments<'_>) {
    _print(format_args!("{a}\n"))
}
#[doc(hidden)]
pub fn _eprint(a: fmt::Arguments<'_>) {
    let _ = stderr_write(a.to_string().as_bytes());
}
#[doc(hidden)]
pub fn _eprintln(a: fmt::Arguments<'_>) {
    let _ = stderr_write(format!("{a}\n").as_bytes());
}
