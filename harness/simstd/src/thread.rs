pub use ::std::thread::{available_parallelism, panicking, AccessError, LocalKey, Result, Thread, ThreadId};
use crate::rt::{self, op, Key, St, Step};
use ::std::panic::{catch_unwind, AssertUnwindSafe};
use ::std::sync::{Arc, Mutex};
use ::std::time::Duration;

pub fn current() -> Thread {
    ::std::thread::current()
}

pub struct JoinHandle<T> {
    id: usize,
    slot: Arc<Mutex<Option<Result<T>>>>,
}
impl<T> ::std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("JoinHandle { .. }")
    }
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        join_id(self.id);
        self.slot.lock().unwrap_or_else(|e| e.into_inner()).take().expect("joined twice")
    }
    pub fn is_finished(&self) -> bool {
        rt::call(|w| w.ents[self.id].st == St::Done)
    }
}
fn join_id(id: usize) {
    op(|w| if w.ents[id].st == St::Done { Step::Done(()) } else { Step::Block(Key::Join(id)) })
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
    stack: Option<usize>,
}
impl Builder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(mut self, n: usize) -> Self {
        self.stack = Some(n);
        self
    }
    pub fn spawn<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let slot = Arc::new(Mutex::new(None));
        let s2 = Arc::clone(&slot);
        let body: Box<dyn FnOnce() -> bool + Send> = Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            let p = r.is_err();
            *s2.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
            p
        });
        let id = rt::spawn_task(self.name.unwrap_or_else(|| "<unnamed>".into()), self.stack.unwrap_or(2 << 20), body)?;
        Ok(JoinHandle { id, slot })
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(self, s: &'scope Scope<'scope, 'env>, f: F) -> ::std::io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        s.start(self, f)
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

pub struct Scope<'scope, 'env: 'scope> {
    ids: Mutex<Vec<(usize, Arc<::std::sync::atomic::AtomicBool>)>>,
    scope: ::std::marker::PhantomData<&'scope mut &'scope ()>,
    env: ::std::marker::PhantomData<&'env mut &'env ()>,
}
pub struct ScopedJoinHandle<'scope, T> {
    inner: JoinHandle<T>,
    joined: Arc<::std::sync::atomic::AtomicBool>,
    _m: ::std::marker::PhantomData<&'scope ()>,
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        self.joined.store(true, ::std::sync::atomic::Ordering::SeqCst);
        self.inner.join()
    }
    pub fn is_finished(&self) -> bool {
        self.inner.is_finished()
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        self.start(Builder::new(), f).expect("failed to spawn thread")
    }
    fn start<F, T>(&'scope self, b: Builder, f: F) -> ::std::io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let slot: Arc<Mutex<Option<Result<T>>>> = Arc::new(Mutex::new(None));
        let s2 = Arc::clone(&slot);
        let body: Box<dyn FnOnce() -> bool + Send + 'scope> = Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            let p = r.is_err();
            *s2.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
            p
        });
        // the scope joins every thread before it returns
        let body: Box<dyn FnOnce() -> bool + Send + 'static> = unsafe { ::std::mem::transmute(body) };
        let id = rt::spawn_task(b.name.unwrap_or_else(|| "<scoped>".into()), b.stack.unwrap_or(2 << 20), body)?;
        let joined = Arc::new(::std::sync::atomic::AtomicBool::new(false));
        self.ids.lock().unwrap().push((id, Arc::clone(&joined)));
        Ok(ScopedJoinHandle { inner: JoinHandle { id, slot }, joined, _m: ::std::marker::PhantomData })
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let scope = Scope { ids: Mutex::new(Vec::new()), scope: ::std::marker::PhantomData, env: ::std::marker::PhantomData };
    let r = catch_unwind(AssertUnwindSafe(|| f(&scope)));
    let ids: Vec<_> = ::std::mem::take(&mut *scope.ids.lock().unwrap());
    let mut bad = false;
    for (id, joined) in ids {
        join_id(id);
        bad |= !joined.load(::std::sync::atomic::Ordering::SeqCst) && rt::peek(|w| w.ents[id].panicked);
    }
    match r {
        Err(e) => ::std::panic::resume_unwind(e),
        Ok(_) if bad => panic!("a scoped thread panicked"),
        Ok(r) => r,
    }
}

pub fn sleep(d: Duration) {
    rt::sleep_ns(::std::cmp::min(d.as_nanos(), u64::MAX as u128 / 4) as u64)
}
pub fn yield_now() {
    rt::yield_now()
}
