//! Counts the bytes each thread holds, so that the memory of an object can be
//! measured.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get().wrapping_add(n);
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Bytes this thread has allocated and not freed.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// Forgets the most this thread has held so far.
pub fn reset_peak() {
    PEAK.with(|p| p.set(live()));
}

/// The most this thread has held at once since.
pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}
