//! Controls the order in which hash tables are iterated. The standard library seeds every table
//! from `getrandom`; this definition takes the place of libc's, so that a run is repeatable and a
//! check can explore several iteration orders on purpose: a thread's tables depend only on the
//! seed that was set when it first made one, and on how many it made since.
use std::sync::atomic::{AtomicU64, Ordering};

static SEED: AtomicU64 = AtomicU64::new(0x5eed);

pub fn set_seed(seed: u64) { SEED.store(seed, Ordering::SeqCst); }

thread_local!(static OWN: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });

/// Runs `f` on a new thread whose hash tables follow `seed`.
pub fn with_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, move || {
                OWN.with(|o| o.set(seed + 1));
                f()
            })
            .unwrap()
            .join()
            .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let own = OWN.try_with(|o| o.get()).unwrap_or(0);
    let mut x = if own > 0 { own - 1 } else { SEED.load(Ordering::SeqCst) };
    for i in 0..len {
        // splitmix64
        x = x.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        unsafe { *buf.add(i) = (z ^ (z >> 31)) as u8 }
    }
    len as isize
}
