//! Counting allocator. Per-thread live/peak byte counts let a check bound the memory a single call
//! may use; a hard per-process guard turns a request that would take the machine down into a
//! verdict instead of an out-of-memory kill.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
    static GUARD: Cell<bool> = const { Cell::new(false) };
}

/// one single request above this is never legitimate in these harnesses
pub const HARD: usize = 1 << 30;

fn note(size: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + size as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = BIGGEST.try_with(|b| {
        if size > b.get() {
            b.set(size)
        }
    });
    if size >= HARD {
        let on = GUARD.try_with(|g| g.get()).unwrap_or(false);
        if on {
            let _ = GUARD.try_with(|g| g.set(false));
            crate::explore::emergency(&format!(
                "a single allocation of {} bytes was requested",
                size
            ));
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|v| v.set(v.get() - l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|v| v.set(v.get() - l.size() as isize));
        note(n);
        System.realloc(p, l, n)
    }
}

/// Let the guard fire on this thread (set while an execution runs).
pub fn arm(on: bool) {
    GUARD.with(|g| g.set(on))
}

/// Run `f`; returns its result and the peak growth of the live heap of this thread.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let start = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(start));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - start).max(0) as usize)
}
