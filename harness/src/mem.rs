//! Counting allocator: live bytes and their peak, for the memory monitors.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};
pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicI64 = AtomicI64::new(0);
static WATCH: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
        if WATCH.load(Relaxed) {
            PEAK.fetch_max(n, Relaxed);
            TOTAL.fetch_add(l.size() as i64, Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
}
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
/// Runs f; returns how far live memory rose above its level at the start, and the bytes allocated
/// altogether.
pub fn watch<R>(f: impl FnOnce() -> R) -> (R, i64, i64) {
    let start = live();
    PEAK.store(start, Relaxed);
    TOTAL.store(0, Relaxed);
    WATCH.store(true, Relaxed);
    let r = f();
    WATCH.store(false, Relaxed);
    (r, PEAK.load(Relaxed) - start, TOTAL.load(Relaxed))
}
