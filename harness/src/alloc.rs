//! Counts what the current thread holds, to notice memory requested out of proportion
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let x = l.get() + n;
        l.set(x);
        let _ = PEAK.try_with(|p| {
            if x > p.get() {
                p.set(x);
            }
        });
    });
}

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        add(l.size() as i64);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        add(l.size() as i64);
        p
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let p = System.realloc(q, l, n);
        add(n as i64 - l.size() as i64);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
}

/// runs `f`, returning the most bytes it held (requested, not touched) at any time
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(before));
    let r = f();
    let p = PEAK.with(|p| p.get());
    (r, (p - before).max(0) as usize)
}
