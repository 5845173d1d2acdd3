//! Edge instrumentation callbacks (sancov trace-pc-guard) used as a *deterministic work meter*.
//!
//! The whole program is compiled with edge instrumentation.  Each worker process runs one case at
//! a time with a one-thread rayon pool, so the count of executed edges is a property of the code
//! and of the input, not of the machine.  A case that exceeds its budget is reported
//! as non-terminating.
use std::sync::atomic::{AtomicU64, Ordering};

pub static COUNT: AtomicU64 = AtomicU64::new(0);
pub static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
pub static CASE: AtomicU64 = AtomicU64::new(0);
pub static mut NGUARDS: u32 = 0;
static mut MAP: [u8; 1 << 17] = [0; 1 << 17];

pub const HANG_EXIT: i32 = 97;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    while start < stop {
        NGUARDS += 1;
        *start = NGUARDS;
        start = start.add(1);
    }
}

#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    // Not an atomic add: approximate under races is fine (only the determinism property runs
    // more than one thread, and it has a very generous budget).
    let c = COUNT.load(Ordering::Relaxed) + 1;
    COUNT.store(c, Ordering::Relaxed);
    let i = (*g as usize) & ((1 << 17) - 1);
    MAP[i] = MAP[i].saturating_add(1);
    if c > BUDGET.load(Ordering::Relaxed) {
        BUDGET.store(u64::MAX, Ordering::Relaxed);
        // No unwinding through foreign frames: report and leave.
        let s = format!("HANG {}\n", CASE.load(Ordering::Relaxed));
        libc_write(2, s.as_bytes());
        libc_exit(HANG_EXIT);
    }
}

extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}
unsafe fn libc_write(fd: i32, b: &[u8]) {
    let _ = write(fd, b.as_ptr(), b.len());
}
unsafe fn libc_exit(code: i32) -> ! {
    _exit(code)
}

pub fn start(budget: u64) {
    COUNT.store(0, Ordering::Relaxed);
    BUDGET.store(budget, Ordering::Relaxed);
}
pub fn stop() -> u64 {
    BUDGET.store(u64::MAX, Ordering::Relaxed);
    COUNT.load(Ordering::Relaxed)
}

pub fn clear_map() {
    unsafe {
        for b in MAP.iter_mut() {
            *b = 0
        }
    }
}

/// Merge the current map into `seen` (bucketed); true when something new was covered.
pub fn merge_new(seen: &mut Vec<u8>) -> bool {
    let mut new = false;
    unsafe {
        if seen.len() != MAP.len() {
            seen.resize(MAP.len(), 0);
        }
        let n = (NGUARDS as usize + 1).min(MAP.len());
        for i in 0..n {
            let v = MAP[i];
            if v != 0 {
                let b: u8 = match v {
                    1 => 1,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128,
                };
                if seen[i] & b == 0 {
                    seen[i] |= b;
                    new = true;
                }
                MAP[i] = 0;
            }
        }
    }
    new
}
pub fn edges(seen: &[u8]) -> usize {
    seen.iter().filter(|b| **b != 0).count()
}
