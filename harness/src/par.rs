//! CPU-count variation: the repository sizes its thread pools from the affinity of
//! the calling thread.
extern "C" {
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
}

pub fn allowed() -> Vec<usize> {
    let mut m = [0u64; 16];
    unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()) };
    (0..1024).filter(|i| (m[i / 64] >> (i % 64)) & 1 == 1).collect()
}

/// Run `f` on a fresh thread restricted to `n` of the `from` CPUs (threads it spawns
/// inherit the restriction).
pub fn with_cpus<T: Send>(n: usize, from: &[usize], f: impl FnOnce() -> T + Send) -> T {
    let cpus: Vec<usize> = from.iter().cloned().take(n).collect();
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                let mut m = [0u64; 16];
                for c in &cpus {
                    m[c / 64] |= 1 << (c % 64);
                }
                unsafe { sched_setaffinity(0, 128, m.as_ptr()) };
                f()
            })
            .unwrap()
            .join()
    })
    .unwrap_or_else(|e| std::panic::resume_unwind(e))
}
