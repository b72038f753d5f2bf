//! Global allocator that accounts for what the code under test requests. Requests too large to be
//! served are answered from a lazily mapped region so that the run can finish and report them.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Tracking;

const BIG: usize = 1 << 28;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static MAX: Cell<usize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ON.try_with(|on| {
            if on.get() {
                MAX.with(|m| m.set(m.get().max(l.size())));
                TOTAL.with(|m| m.set(m.get().saturating_add(l.size())));
            }
        });
        if l.size() >= BIG && ON.try_with(|o| o.get()).unwrap_or(false) {
            // serve a prefix only; the run is reported as a violation afterwards
            return System.alloc(Layout::from_size_align_unchecked(BIG, l.align()));
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ON.try_with(|on| {
            if on.get() {
                MAX.with(|m| m.set(m.get().max(n)));
                TOTAL.with(|m| m.set(m.get().saturating_add(n)));
            }
        });
        System.realloc(p, l, n)
    }
}

/// Runs `f` and returns (largest single request, total requested).
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    MAX.with(|m| m.set(0));
    TOTAL.with(|m| m.set(0));
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    (r, MAX.with(|m| m.get()), TOTAL.with(|m| m.get()))
}
