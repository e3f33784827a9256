//! Metered global allocator: the "memory" seam. Counts live and peak bytes of the current thread
//! while a measurement is open.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Meter;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

#[inline]
fn add(n: usize) {
    ON.with(|on| {
        if on.get() {
            LIVE.with(|l| {
                let v = l.get() + n as isize;
                l.set(v);
                PEAK.with(|p| {
                    if v > p.get() {
                        p.set(v)
                    }
                });
            });
            BIGGEST.with(|b| {
                if n > b.get() {
                    b.set(n)
                }
            });
            COUNT.with(|c| c.set(c.get() + 1));
        }
    });
}
#[inline]
fn sub(n: usize) {
    ON.with(|on| {
        if on.get() {
            LIVE.with(|l| l.set(l.get() - n as isize));
        }
    });
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        sub(l.size());
        unsafe { System.realloc(p, l, n) }
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    pub peak: usize,
    pub biggest: usize,
    pub count: u64,
    /// bytes still live when the measurement closed (relative to its start)
    pub left: isize,
}

/// Measure the heap use of `f` on this thread. `f` may panic (the caller catches inside).
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    LIVE.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    BIGGEST.with(|c| c.set(0));
    COUNT.with(|c| c.set(0));
    ON.with(|c| c.set(true));
    let r = f();
    ON.with(|c| c.set(false));
    let u = Usage {
        peak: PEAK.with(|c| c.get()).max(0) as usize,
        biggest: BIGGEST.with(|c| c.get()),
        count: COUNT.with(|c| c.get()),
        left: LIVE.with(|c| c.get()),
    };
    (r, u)
}
/// Suspend or resume metering; says what was before.
pub fn set_on(on: bool) -> bool {
    ON.with(|c| c.replace(on))
}
/// Is a measurement open?
pub fn is_on() -> bool {
    ON.with(|c| c.get())
}
