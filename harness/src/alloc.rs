//! Counts what the current thread allocates.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let x = l.get() + n;
        l.set(x);
        if n > 0 {
            let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
            let _ = PEAK.try_with(|p| if x > p.get() {
                p.set(x)
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // counted like a new block and the end of the old one
        add(n as i64);
        add(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}

/// bytes allocated and greatest use above the start while running `f`
pub fn measure<T, F: FnOnce() -> T>(f: F) -> (T, u64, u64) {
    let b = BYTES.with(|x| x.get());
    let l = LIVE.with(|x| x.get());
    PEAK.with(|p| p.set(l));
    let r = f();
    let bytes = BYTES.with(|x| x.get()) - b;
    let peak = PEAK.with(|x| x.get()) - l;
    (r, bytes, peak.max(0) as u64)
}
