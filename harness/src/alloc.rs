//! Counting allocator: per-thread totals and peak, optional per-thread hard cap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static N: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CAP: Cell<usize> = const { Cell::new(usize::MAX) };
}
fn add(n: usize) -> bool {
    if n > CAP.try_with(|c| c.get()).unwrap_or(usize::MAX) {
        return false;
    }
    let _ = N.try_with(|c| c.set(c.get() + 1));
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n as i64);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
    true
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if add(l.size()) { System.alloc(l) } else { std::ptr::null_mut() }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if add(l.size()) { System.alloc_zeroed(l) } else { std::ptr::null_mut() }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n) {
            return std::ptr::null_mut();
        }
        sub(l.size());
        System.realloc(p, l, n)
    }
}
/// bytes this thread has allocated and not freed
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}
/// (number of allocations, peak bytes above the entry level, result)
pub fn watch<R>(cap: usize, f: impl FnOnce() -> R) -> (u64, u64, R) {
    let n0 = N.with(|c| c.get());
    let l0 = LIVE.with(|c| c.get());
    PEAK.with(|p| p.set(l0));
    CAP.with(|c| c.set(cap));
    let r = f();
    CAP.with(|c| c.set(usize::MAX));
    let n = N.with(|c| c.get()) - n0;
    let p = PEAK.with(|p| p.get()) - l0;
    (n, p.max(0) as u64, r)
}
