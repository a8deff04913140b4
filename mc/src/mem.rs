//! Counts what a thread allocates.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

fn add(n: usize) {
    let _ = LIVE.try_with(|l| {
        let x = l.get() + n as i64;
        l.set(x);
        let _ = PEAK.try_with(|p| {
            if x > p.get() {
                p.set(x)
            }
        });
    });
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        sub(l.size());
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            // both blocks may be there for a moment
            add(n);
            sub(l.size());
        }
        q
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Use {
    /// bytes still allocated afterwards
    pub kept: i64,
    /// most bytes allocated at a time
    pub peak: i64,
    /// bytes allocated in all
    pub total: u64,
}

/// what running `f`, and dropping what it returns, takes
pub fn measure<T>(f: impl FnOnce() -> T) -> Use {
    let live = LIVE.with(|l| l.get());
    let total = TOTAL.with(|t| t.get());
    PEAK.with(|p| p.set(live));
    drop(f());
    Use { kept: LIVE.with(|l| l.get()) - live, peak: PEAK.with(|p| p.get()) - live, total: TOTAL.with(|t| t.get()) - total }
}
