//! Global allocator: a seam. Allocations of the code under test are scheduling points in a
//! simulated session, and absurdly large requests are refused as a real machine would.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

pub struct SimAlloc;

/// Largest single request granted.
pub static MAX_SINGLE: AtomicUsize = AtomicUsize::new(4 << 30);
/// Largest single request seen since the last reset.
pub static PEAK_SINGLE: AtomicUsize = AtomicUsize::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);

#[inline]
fn before(size: usize) -> bool {
    if size > 1 << 16 {
        PEAK_SINGLE.fetch_max(size, Ordering::Relaxed);
        if size > MAX_SINGLE.load(Ordering::Relaxed) {
            return false;
        }
    }
    rayon_core::sim::alloc_hook();
    true
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !before(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !before(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !before(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// std blocks in futex waits only; inside a session a blocking wait becomes a scheduling point,
/// so locks held by a preempted simulated thread cannot stall the simulation.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
mod futex {
    use std::arch::asm;
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    const SYS_FUTEX: i64 = 202;

    unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        let r: i64;
        asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
             in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
        r
    }

    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        if n == SYS_FUTEX {
            let op = b & 0x7f;
            if (op == 0 || op == 9) && rayon_core::sim::in_session() {
                let cur = (*(a as *const std::sync::atomic::AtomicU32))
                    .load(std::sync::atomic::Ordering::SeqCst);
                if cur == c as u32 && rayon_core::sim::futex_wait_hook() {
                    return 0;
                }
            }
        }
        let r = raw(n, a, b, c, d, e, f);
        if r < 0 && r > -4096 {
            *__errno_location() = (-r) as i32;
            -1
        } else {
            r
        }
    }
}
