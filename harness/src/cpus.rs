//! Any number of CPUs: answers the affinity query (which the repository and the standard
//! library size their thread pools from) for the whole process.
use std::sync::atomic::{AtomicUsize, Ordering};

static FAKE: AtomicUsize = AtomicUsize::new(0);

/// From now on `n` CPUs are reported (0: the real ones).
pub fn pretend(n: usize) {
    real();
    FAKE.store(n, Ordering::SeqCst);
}

/// The CPUs there are.
pub fn real() -> usize {
    static REAL: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *REAL.get_or_init(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4))
}

#[cfg(not(miri))]
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

#[cfg(not(miri))]
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, size: usize, mask: *mut u8) -> i32 {
    let n = FAKE.load(Ordering::SeqCst);
    std::ptr::write_bytes(mask, 0, size);
    if n == 0 {
        // as the C library does: the kernel's answer is the number of bytes written
        return if syscall(204, pid as i64, size, mask) < 0 { -1 } else { 0 };
    }
    for i in 0..n.min(8 * size) {
        *mask.add(i / 8) |= 1 << (i % 8);
    }
    0
}
