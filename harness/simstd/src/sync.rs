pub use ::std::sync::{Arc, LockResult, OnceState, PoisonError, TryLockError, TryLockResult, Weak};
use crate::rt::{self, call, in_task, op, Key, Step};
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::atomic::{AtomicBool as RB, AtomicIsize as RI, Ordering::SeqCst};
use ::std::time::Duration;

fn addr<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}

pub struct Mutex<T: ?Sized> {
    locked: RB,
    poisoned: RB,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    panicking: bool,
    live: bool,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { locked: RB::new(false), poisoned: RB::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.load(SeqCst);
        let d = self.data.into_inner();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn key(&self) -> Key {
        Key::Lock(addr(&self.locked))
    }
    fn acquire(&self) {
        op(|_| if self.locked.swap(true, SeqCst) { Step::Block(self.key()) } else { Step::Done(()) })
    }
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { m: self, panicking: ::std::thread::panicking(), live: true };
        if self.poisoned.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.acquire();
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if call(|_| self.locked.swap(true, SeqCst)) {
            return Err(TryLockError::WouldBlock);
        }
        self.guard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.load(SeqCst)
    }
    pub fn clear_poison(&self) {
        self.poisoned.store(false, SeqCst)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.load(SeqCst);
        let d = self.data.get_mut();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.live {
            return;
        }
        if !self.panicking && ::std::thread::panicking() {
            self.m.poisoned.store(true, SeqCst);
        }
        if in_task() {
            rt::peek(|w| {
                self.m.locked.store(false, SeqCst);
                w.wake(self.m.key())
            });
        } else {
            self.m.locked.store(false, SeqCst);
        }
    }
}

pub struct Condvar {
    x: RB,
}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar")
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { x: RB::new(false) }
    }
    fn wait_impl<'a, T: ?Sized>(&self, mut g: MutexGuard<'a, T>, ns: Option<u64>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let key = Key::Cond(addr(&self.x));
        let m = g.m;
        g.live = false;
        drop(g);
        let mut released = false;
        let me = rt::me();
        let timed_out = op(|w| {
            if released {
                return Step::Done(::std::mem::replace(&mut w.ents[me].timed_out, false));
            }
            released = true;
            w.ents[me].timed_out = false;
            m.locked.store(false, SeqCst);
            w.wake(m.key());
            if w.misc.pct(10) {
                w.stats.spurious += 1;
                return Step::Done(false);
            }
            match ns {
                None => Step::Block(key),
                Some(ns) => Step::BlockUntil(key, w.stats.clock_ns + ns),
            }
        });
        (m.lock(), timed_out)
    }
    pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.wait_impl(g, None).0
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        let mut g = g;
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (r, t) = self.wait_impl(g, Some(d.as_nanos() as u64));
        match r {
            Ok(g) => Ok((g, WaitTimeoutResult(t))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
        }
    }
    pub fn wait_timeout_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
        mut f: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let end = rt::peek(|w| w.stats.clock_ns).saturating_add(d.as_nanos() as u64);
        let mut g = g;
        loop {
            if !f(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            let left = end.saturating_sub(rt::peek(|w| w.stats.clock_ns));
            if left == 0 {
                return Ok((g, WaitTimeoutResult(true)));
            }
            g = self.wait_timeout(g, Duration::from_nanos(left))?.0;
        }
    }
    pub fn notify_one(&self) {
        call(|w| w.wake_one(Key::Cond(addr(&self.x))))
    }
    pub fn notify_all(&self) {
        call(|w| w.wake(Key::Cond(addr(&self.x))))
    }
}

pub struct RwLock<T: ?Sized> {
    state: RI, // -1: written, n: readers
    poisoned: RB,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { state: RI::new(0), poisoned: RB::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.data.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        op(|_| {
            if self.state.load(SeqCst) < 0 {
                return Step::Block(Key::Lock(addr(&self.state)));
            }
            self.state.fetch_add(1, SeqCst);
            Step::Done(())
        });
        let g = RwLockReadGuard(self);
        if self.poisoned.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        op(|_| {
            if self.state.load(SeqCst) != 0 {
                return Step::Block(Key::Lock(addr(&self.state)));
            }
            self.state.store(-1, SeqCst);
            Step::Done(())
        });
        let g = RwLockWriteGuard(self);
        if self.poisoned.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if rt::call(|_| self.state.load(SeqCst) < 0) {
            return Err(TryLockError::WouldBlock);
        }
        Ok(self.read()?)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if rt::call(|_| self.state.load(SeqCst) != 0) {
            return Err(TryLockError::WouldBlock);
        }
        Ok(self.write()?)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.load(SeqCst)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        rt::peek(|w| {
            self.0.state.fetch_sub(1, SeqCst);
            w.wake(Key::Lock(addr(&self.0.state)))
        })
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if ::std::thread::panicking() {
            self.0.poisoned.store(true, SeqCst);
        }
        rt::peek(|w| {
            self.0.state.store(0, SeqCst);
            w.wake(Key::Lock(addr(&self.0.state)))
        })
    }
}

pub struct Barrier {
    n: usize,
    st: Mutex<(usize, usize)>,
    cv: Condvar,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { n, st: Mutex::new((0, 0)), cv: Condvar::new() }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.st.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 >= self.n {
            g.0 = 0;
            g.1 += 1;
            self.cv.notify_all();
            return BarrierWaitResult(true);
        }
        while g.1 == gen {
            g = self.cv.wait(g).unwrap();
        }
        BarrierWaitResult(false)
    }
}

pub struct OnceLock<T> {
    m: Mutex<()>,
    set: RB,
    v: UnsafeCell<Option<T>>,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { m: Mutex::new(()), set: RB::new(false), v: UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
        if self.set.load(SeqCst) { unsafe { (*self.v.get()).as_ref() } } else { None }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if self.get().is_none() {
            let _g = self.m.lock().unwrap_or_else(|e| e.into_inner());
            if self.get().is_none() {
                let v = f();
                unsafe { *self.v.get() = Some(v) };
                self.set.store(true, SeqCst);
            }
        }
        self.get().unwrap()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let mut v = Some(v);
        self.get_or_init(|| v.take().unwrap());
        match v {
            None => Ok(()),
            Some(v) => Err(v),
        }
    }
    pub fn take(&mut self) -> Option<T> {
        self.set.store(false, SeqCst);
        unsafe { (*self.v.get()).take() }
    }
    pub fn into_inner(mut self) -> Option<T> {
        self.take()
    }
}

impl<T> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("OnceLock { .. }")
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        let x = OnceLock::new();
        let _ = x.set(t);
        x
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    f: ::std::cell::Cell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), f: ::std::cell::Cell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| (this.f.take().expect("poisoned"))())
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}

pub struct Once(OnceLock<()>);
impl Once {
    #[allow(clippy::new_without_default)]
    pub const fn new() -> Self {
        Once(OnceLock::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.0.get().is_some()
    }
}

pub mod mpsc {
    pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use super::{addr, rt, Arc};
    use crate::rt::{op, Key, Step};
    use ::std::collections::VecDeque;
    use ::std::sync::Mutex;
    use ::std::time::Duration;

    struct Chan<T> {
        q: VecDeque<T>,
        cap: Option<usize>,
        senders: usize,
        rx: bool,
        taken: u64,
    }
    type Ch<T> = Arc<Mutex<Chan<T>>>;
    pub struct Sender<T>(Ch<T>);
    pub struct SyncSender<T>(Ch<T>);
    pub struct Receiver<T>(Ch<T>);
    fn mk<T>(cap: Option<usize>) -> Ch<T> {
        Arc::new(Mutex::new(Chan { q: VecDeque::new(), cap, senders: 1, rx: true, taken: 0 }))
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = mk(None);
        (Sender(c.clone()), Receiver(c))
    }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
        let c = mk(Some(n));
        (SyncSender(c.clone()), Receiver(c))
    }
    fn key<T>(c: &Ch<T>) -> Key {
        Key::Chan(addr(&**c))
    }
    fn send<T>(c: &Ch<T>, t: T) -> Result<(), SendError<T>> {
        let k = key(c);
        let mut t = Some(t);
        let mut ticket = None;
        op(|w| {
            let mut g = c.lock().unwrap();
            if let Some(n) = ticket {
                // rendezvous: wait until the item has been taken
                if g.taken >= n || !g.rx {
                    return Step::Done(Ok(()));
                }
                return Step::Block(k);
            }
            if !g.rx {
                return Step::Done(Err(SendError(t.take().unwrap())));
            }
            let full = g.cap.is_some_and(|c| g.q.len() >= std::cmp::max(1, c));
            if full {
                return Step::Block(k);
            }
            g.q.push_back(t.take().unwrap());
            w.wake(k);
            if g.cap == Some(0) {
                ticket = Some(g.taken + g.q.len() as u64);
                return Step::Block(k);
            }
            Step::Done(Ok(()))
        })
    }
    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            send(&self.0, t)
        }
    }
    impl<T> SyncSender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            send(&self.0, t)
        }
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            let k = key(&self.0);
            rt::call(|w| {
                let mut g = self.0.lock().unwrap();
                if !g.rx {
                    return Err(TrySendError::Disconnected(t));
                }
                if g.cap.is_some_and(|c| g.q.len() >= c) {
                    return Err(TrySendError::Full(t));
                }
                g.q.push_back(t);
                w.wake(k);
                Ok(())
            })
        }
    }
    macro_rules! sender {
        ($t: ident) => {
            impl<T> Clone for $t<T> {
                fn clone(&self) -> Self {
                    self.0.lock().unwrap().senders += 1;
                    $t(self.0.clone())
                }
            }
            impl<T> Drop for $t<T> {
                fn drop(&mut self) {
                    let k = key(&self.0);
                    self.0.lock().unwrap().senders -= 1;
                    if rt::in_task() {
                        rt::peek(|w| w.wake(k));
                    }
                }
            }
            impl<T> ::std::fmt::Debug for $t<T> {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    f.write_str("Sender")
                }
            }
        };
    }
    sender!(Sender);
    sender!(SyncSender);
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            let k = key(&self.0);
            let q = {
                let mut g = self.0.lock().unwrap();
                g.rx = false;
                ::std::mem::take(&mut g.q)
            };
            drop(q);
            if rt::in_task() {
                rt::peek(|w| w.wake(k));
            }
        }
    }
    impl<T> ::std::fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            f.write_str("Receiver")
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            let k = key(&self.0);
            op(|w| {
                let mut g = self.0.lock().unwrap();
                match g.q.pop_front() {
                    Some(t) => {
                        g.taken += 1;
                        w.wake(k);
                        Step::Done(Ok(t))
                    }
                    None if g.senders == 0 => Step::Done(Err(RecvError)),
                    None => Step::Block(k),
                }
            })
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            let k = key(&self.0);
            rt::call(|w| {
                let mut g = self.0.lock().unwrap();
                match g.q.pop_front() {
                    Some(t) => {
                        g.taken += 1;
                        w.wake(k);
                        Ok(t)
                    }
                    None if g.senders == 0 => Err(TryRecvError::Disconnected),
                    None => Err(TryRecvError::Empty),
                }
            })
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            let k = key(&self.0);
            let mut until = None;
            let me = rt::me();
            op(|w| {
                let t = *until.get_or_insert(w.stats.clock_ns + d.as_nanos() as u64);
                w.ents[me].timed_out = false;
                let mut g = self.0.lock().unwrap();
                match g.q.pop_front() {
                    Some(t) => {
                        g.taken += 1;
                        w.wake(k);
                        Step::Done(Ok(t))
                    }
                    None if g.senders == 0 => Step::Done(Err(RecvTimeoutError::Disconnected)),
                    None if w.stats.clock_ns >= t => Step::Done(Err(RecvTimeoutError::Timeout)),
                    None => Step::BlockUntil(k, t),
                }
            })
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for Iter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for TryIter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
}

pub mod atomic {
    pub use ::std::sync::atomic::{compiler_fence, AtomicPtr, Ordering};
    fn pt() {
        if crate::rt::in_task() {
            crate::rt::yield_now()
        }
    }
    pub fn fence(_: Ordering) {
        pt()
    }
    macro_rules! common {
        ($n: ident, $t: ty) => {
            #[derive(Default)]
            pub struct $n(::std::sync::atomic::$n);
            impl ::std::fmt::Debug for $n {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    self.0.fmt(f)
                }
            }
            impl From<$t> for $n {
                fn from(x: $t) -> Self {
                    $n::new(x)
                }
            }
            impl $n {
                pub const fn new(x: $t) -> Self {
                    $n(::std::sync::atomic::$n::new(x))
                }
                pub fn load(&self, o: Ordering) -> $t {
                    pt();
                    self.0.load(o)
                }
                pub fn store(&self, x: $t, o: Ordering) {
                    pt();
                    self.0.store(x, o)
                }
                pub fn swap(&self, x: $t, o: Ordering) -> $t {
                    pt();
                    self.0.swap(x, o)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    pt();
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    pt();
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, f: F) -> Result<$t, $t> {
                    pt();
                    #[allow(deprecated)]
                    self.0.fetch_update(s, l, f)
                }
                pub fn fetch_and(&self, x: $t, o: Ordering) -> $t {
                    pt();
                    self.0.fetch_and(x, o)
                }
                pub fn fetch_or(&self, x: $t, o: Ordering) -> $t {
                    pt();
                    self.0.fetch_or(x, o)
                }
                pub fn fetch_xor(&self, x: $t, o: Ordering) -> $t {
                    pt();
                    self.0.fetch_xor(x, o)
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
            }
        };
    }
    macro_rules! int {
        ($($n: ident $t: ty),*) => { $(
            common!($n, $t);
            impl $n {
                pub fn fetch_add(&self, x: $t, o: Ordering) -> $t {
                    pt();
                    self.0.fetch_add(x, o)
                }
                pub fn fetch_sub(&self, x: $t, o: Ordering) -> $t {
                    pt();
                    self.0.fetch_sub(x, o)
                }
                pub fn fetch_max(&self, x: $t, o: Ordering) -> $t {
                    pt();
                    self.0.fetch_max(x, o)
                }
                pub fn fetch_min(&self, x: $t, o: Ordering) -> $t {
                    pt();
                    self.0.fetch_min(x, o)
                }
            }
        )* };
    }
    common!(AtomicBool, bool);
    int!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32, AtomicU8 u8, AtomicI8 i8, AtomicU16 u16, AtomicI16 i16);
}
