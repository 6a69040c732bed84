//! Metering global allocator: the memory seam.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed};

pub struct Meter;

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
/// Requests above this size are refused: the simulated machine has no more memory to give.
pub const HARD_LIMIT: usize = 1 << 30;
const TOTAL_LIMIT: i64 = 2 << 30;

fn refuse(n: usize) -> bool {
    n > HARD_LIMIT || LIVE.load(Relaxed) + n as i64 > TOTAL_LIMIT
}

fn grow(n: usize) {
    let l = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
    if n > LARGEST.load(Relaxed) {
        LARGEST.store(n, Relaxed);
    }
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse(n) {
            return std::ptr::null_mut();
        }
        // a moving realloc holds both blocks at once
        grow(n);
        let r = System.realloc(p, l, n);
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        r
    }
}

#[derive(Clone, Copy)]
pub struct Mark(i64);

/// Start metering: peak and largest-request are reset.
pub fn mark() -> Mark {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    LARGEST.store(0, Relaxed);
    Mark(l)
}
/// Peak of live bytes above the mark, since the mark.
pub fn peak_since(m: Mark) -> usize {
    (PEAK.load(Relaxed) - m.0).max(0) as usize
}
pub fn largest() -> usize {
    LARGEST.load(Relaxed)
}
