//! Edge callbacks of the instrumented library: coverage, and preemption points for C05.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::Relaxed};

pub const MAX_EDGES: usize = 1 << 15;
static COUNT: AtomicU32 = AtomicU32::new(0);
static SEEN: [AtomicU8; MAX_EDGES] = [const { AtomicU8::new(0) }; MAX_EDGES];

thread_local! {
    static HOOK: Cell<Option<fn(u32)>> = const { Cell::new(None) };
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = COUNT.fetch_add(1, Relaxed) + 1;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let g = *guard;
    let s = &SEEN[g as usize % MAX_EDGES];
    if s.load(Relaxed) == 0 {
        s.store(1, Relaxed);
    }
    if let Some(f) = HOOK.get() {
        f(g)
    }
}

/// Called at every edge the calling thread takes in the library.
pub fn set_hook(h: Option<fn(u32)>) {
    HOOK.set(h)
}

pub fn mark(e: u32) {
    SEEN[e as usize % MAX_EDGES].store(1, Relaxed)
}

pub fn edges() -> usize {
    (COUNT.load(Relaxed) as usize).min(MAX_EDGES - 1)
}

pub fn hex() -> String {
    let n = edges();
    let mut s = String::with_capacity(n / 4 + 2);
    for b in (1..=n).collect::<Vec<_>>().chunks(4) {
        let mut v = 0;
        for (k, &i) in b.iter().enumerate() {
            v |= SEEN[i].load(Relaxed) << k;
        }
        s.push(char::from_digit(v as u32, 16).unwrap());
    }
    s
}

static SHIPPED: AtomicU8 = AtomicU8::new(0);

/// The edge numbers of the shipped build are not those of the checked build.
pub fn set_shipped() {
    SHIPPED.store(1, Relaxed)
}

pub fn is_shipped() -> bool {
    SHIPPED.load(Relaxed) != 0
}
