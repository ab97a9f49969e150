//! An allocator which watches how much the current thread uses while it is armed.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct Watching;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

/// Nothing the code under test does here needs a single block of this size.
const HUGE: usize = 1 << 30;

fn note(delta: isize) {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            let live = LIVE.get() + delta;
            LIVE.set(live);
            if live > PEAK.get() {
                PEAK.set(live);
            }
        }
    });
}

fn check(size: usize) {
    if size >= HUGE {
        crate::ctx::die("MON-OVERSIZE", size as u64);
    }
}

unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        check(l.size());
        note(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        check(l.size());
        note(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        check(n);
        note(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// Runs `f`, and tells the most memory that it had in use at one time.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    LIVE.set(0);
    PEAK.set(0);
    ARMED.set(true);
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ARMED.set(false);
        }
    }
    let off = Off;
    let t = f();
    drop(off);
    (t, PEAK.get().max(0) as usize)
}
