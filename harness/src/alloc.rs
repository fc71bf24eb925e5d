//! Counting allocator: per-thread live bytes, peak and largest request. A single request
//! above `REFUSE` is refused, which makes the process abort the way a machine with less
//! memory would.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
pub const REFUSE: usize = 3 << 30;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static REQUESTS: Cell<u64> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = REQUESTS.try_with(|r| r.set(r.get() + 1));
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n as i64);
        let _ = PEAK.try_with(|p| {
            if l.get() > p.get() {
                p.set(l.get())
            }
        });
    });
    let _ = LARGEST.try_with(|l| {
        if n > l.get() {
            l.set(n)
        }
    });
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // While it happens both blocks may exist.
        add(n);
        sub(l.size());
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// Runs `f` and returns its result, the peak of additional live bytes, and the largest
/// single request, on this thread.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    LARGEST.with(|l| l.set(0));
    let r = f();
    let peak = PEAK.with(|p| p.get()) - base;
    let largest = LARGEST.with(|l| l.get());
    (r, peak.max(0) as u64, largest as u64)
}

/// Bytes this thread has allocated and not freed.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// How many times this thread has asked for memory.
pub fn requests() -> u64 {
    REQUESTS.with(|r| r.get())
}
