//! The allocator seam: counts live heap bytes per thread, caps runaway growth, and offers every
//! allocation made by a simulated thread to the scheduler as a preemption point.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
}

/// Nothing the workloads do comes near this; beyond it an allocation fails.
const CAP: i64 = 3 << 30;

pub struct SimAlloc;

fn note(delta: i64) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + delta;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        v > CAP && delta > 0
    })
    .unwrap_or(false)
}

fn hook() {
    let h = HOOK.try_with(|h| h.get()).unwrap_or(None);
    if let Some(f) = h {
        // Not re-entrant: the scheduler itself may allocate.
        let _ = HOOK.try_with(|h| h.set(None));
        f();
        let _ = HOOK.try_with(|h| h.set(Some(f)));
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        hook();
        if note(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        hook();
        if note(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        hook();
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        hook();
        if note(new as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, new)
    }
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(live()))
}
pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}
pub fn set_hook(h: Option<fn()>) {
    HOOK.with(|c| c.set(h))
}
