//! Accounting allocator: live and peak bytes, plus a hard cap so that a runaway
//! allocation in the code under test fails inside the simulator instead of taking
//! the sandbox down.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::Relaxed};

pub struct Acct;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicUsize = AtomicUsize::new(0);
const CAP: isize = 3 << 30;

fn add(n: usize) -> bool {
    let l = LIVE.fetch_add(n as isize, Relaxed) + n as isize;
    COUNT.fetch_add(1, Relaxed);
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
    if n > BIGGEST.load(Relaxed) {
        BIGGEST.store(n, Relaxed);
    }
    if l > CAP {
        LIVE.fetch_sub(n as isize, Relaxed);
        return false;
    }
    true
}

unsafe impl GlobalAlloc for Acct {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n) {
            return std::ptr::null_mut();
        }
        let r = System.realloc(p, l, n);
        if r.is_null() {
            LIVE.fetch_sub(n as isize, Relaxed);
        } else {
            LIVE.fetch_sub(l.size() as isize, Relaxed);
        }
        r
    }
}

/// Peak above the level at creation, and largest single request.
pub struct Mark {
    base: isize,
}
pub fn mark() -> Mark {
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    BIGGEST.store(0, Relaxed);
    Mark { base }
}
impl Mark {
    pub fn peak(&self) -> usize {
        (PEAK.load(Relaxed) - self.base).max(0) as usize
    }
    pub fn live(&self) -> isize {
        LIVE.load(Relaxed) - self.base
    }
    pub fn biggest(&self) -> usize {
        BIGGEST.load(Relaxed)
    }
}
pub fn live() -> isize {
    LIVE.load(Relaxed)
}
