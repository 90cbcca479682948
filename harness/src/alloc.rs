//! Counts the bytes every thread asks for.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn add(n: usize) {
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n as i64);
        let _ = PEAK.try_with(|p| {
            if l.get() > p.get() {
                p.set(l.get());
            }
        });
    });
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        System.realloc(p, l, n)
    }
}
/// (bytes asked for in total, most bytes held at once) by `f` in this thread
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let t0 = TOTAL.with(Cell::get);
    let l0 = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(l0));
    let r = f();
    let t = TOTAL.with(Cell::get) - t0;
    let p = PEAK.with(Cell::get) - l0;
    (r, t, p.max(0) as u64)
}
