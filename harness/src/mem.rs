//! Counts what a thread allocates.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CURRENT: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) {
    // threads being torn down need not be counted
    let _ = CURRENT.try_with(|c| {
        let now = c.get().wrapping_add(n);
        c.set(now);
        let _ = PEAK.try_with(|p| {
            if now > p.get() {
                p.set(now)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // for a moment both may exist
        add(n as isize);
        add(-(l.size() as isize));
        System.realloc(p, l, n)
    }
}

/// Runs `f` and says by how much the memory this thread holds grew at most meanwhile.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = CURRENT.with(|c| c.get());
    PEAK.with(|p| p.set(before));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - before).max(0) as usize)
}

/// What this thread holds now, relative to an arbitrary origin.
pub fn held() -> isize {
    CURRENT.with(|c| c.get())
}
