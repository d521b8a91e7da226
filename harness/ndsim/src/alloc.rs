//! Counts what the simulated program allocates; the simulator's own allocations are not charged.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static CUR: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
const LIMIT: i64 = 1_500_000_000;

pub struct Counting;

fn head(l: &Layout) -> usize {
    std::cmp::max(16, l.align())
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        self.get(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        self.get(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = head(&l);
        let base = p.sub(h);
        let n = *(base as *const i64);
        if n > 0 {
            CUR.fetch_sub(n, Relaxed);
        }
        System.dealloc(base, Layout::from_size_align_unchecked(l.size() + h, h))
    }
}
impl Counting {
    unsafe fn get(&self, l: Layout, zero: bool) -> *mut u8 {
        let h = head(&l);
        let charged = ACTIVE.load(Relaxed) && !simstd::rt::in_sim();
        let mut mark = 0i64;
        if charged {
            mark = std::cmp::max(l.size() as i64, 1);
            let now = CUR.fetch_add(mark, Relaxed) + mark;
            if now > LIMIT {
                CUR.fetch_sub(mark, Relaxed);
                return std::ptr::null_mut();
            }
            PEAK.fetch_max(now, Relaxed);
        }
        let ll = Layout::from_size_align_unchecked(l.size() + h, h);
        let base = if zero { System.alloc_zeroed(ll) } else { System.alloc(ll) };
        if base.is_null() {
            return base;
        }
        *(base as *mut i64) = mark;
        base.add(h)
    }
}
pub fn begin() -> i64 {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    ACTIVE.store(true, Relaxed);
    c
}
/// peak above `base`
pub fn end(base: i64) -> i64 {
    ACTIVE.store(false, Relaxed);
    PEAK.load(Relaxed) - base
}

/// hash seeds must not differ from run to run
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(31).wrapping_add(7);
    }
    len as isize
}
