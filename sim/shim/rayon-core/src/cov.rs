//! Edge callbacks: the library (and the generic code instantiated here) is compiled with LLVM's
//! edge instrumentation. Each edge is counted as coverage and, in a session, every n-th edge is a
//! scheduling point, so preemption can strike inside computations, not only at I/O.

use std::sync::atomic::{AtomicU64, Ordering};

static INTERVAL: AtomicU64 = AtomicU64::new(0);
const MAX: usize = 1 << 17;
static mut SEEN: [u8; MAX] = [0; MAX];
static mut COUNT: u32 = 0;
static FIRED: AtomicU64 = AtomicU64::new(0);
static LEFT: AtomicU64 = AtomicU64::new(0);

pub fn set_interval(n: u64) {
    LEFT.store(n, Ordering::Relaxed);
    FIRED.store(0, Ordering::Relaxed);
    INTERVAL.store(n, Ordering::Relaxed);
}

/// Edges reached so far and edges known.
pub fn edges() -> (u64, u64) {
    unsafe {
        let n = COUNT as usize;
        let mut k = 0u64;
        for i in 0..n.min(MAX) {
            k += *(&raw const SEEN as *const u8).add(i) as u64;
        }
        (k, n as u64)
    }
}

pub fn seen_bits() -> Vec<u8> {
    unsafe {
        let n = (COUNT as usize).min(MAX);
        let mut v = vec![0u8; (n + 7) / 8];
        for i in 0..n {
            if *(&raw const SEEN as *const u8).add(i) != 0 {
                v[i / 8] |= 1 << (i % 8);
            }
        }
        v
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        COUNT += 1;
        *p = COUNT;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let g = *guard as usize;
    if g > 0 && g <= MAX {
        *(&raw mut SEEN as *mut u8).add(g - 1) = 1;
    }
    if INTERVAL.load(Ordering::Relaxed) != 0 {
        tick();
    }
}

/// Only the thread with the token runs, so the countdown is deterministic.
#[inline(never)]
fn tick() {
    if !crate::sim::preemptible() {
        return;
    }
    let l = LEFT.load(Ordering::Relaxed);
    if l > 1 {
        LEFT.store(l - 1, Ordering::Relaxed);
    } else {
        // ever rarer, so that long computations stay affordable
        let k = FIRED.fetch_add(1, Ordering::Relaxed) / 2000;
        LEFT.store(INTERVAL.load(Ordering::Relaxed) << k.min(20), Ordering::Relaxed);
        crate::sim::yield_point();
    }
}
