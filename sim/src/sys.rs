//! Interposed libc entry points: clocks and entropy of the simulated nodes.
use std::cell::Cell;
use std::ffi::{c_int, c_uint, c_void};
use std::sync::atomic::{AtomicU64, Ordering};

/// 2026-01-01T00:00:00Z
pub const EPOCH_NS: i128 = 1_767_225_600_000_000_000;

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static SKEW_NS: Cell<i64> = const { Cell::new(0) };
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
    static CLOCK_CALLS: Cell<u64> = const { Cell::new(0) };
}
static BOOT_ENTROPY: AtomicU64 = AtomicU64::new(0x5eed);

/// Puts this thread under simulated clocks and entropy.
pub fn enter(seed: u64) {
    ACTIVE.with(|a| a.set(true));
    ENTROPY.with(|e| e.set(seed));
    SKEW_NS.with(|s| s.set(0));
    CLOCK_CALLS.with(|c| c.set(0));
}
pub fn leave() {
    ACTIVE.with(|a| a.set(false));
}
/// Wall clock offset of the node whose code is about to run.
pub fn set_skew(ns: i64) {
    SKEW_NS.with(|s| s.set(ns));
}

fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

fn fill(buf: *mut u8, len: usize) {
    for i in 0..len {
        let word = if ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
            ENTROPY.with(|e| {
                e.set(e.get().wrapping_add(1));
                mix(e.get())
            })
        } else {
            mix(BOOT_ENTROPY.fetch_add(1, Ordering::Relaxed))
        };
        unsafe { *buf.add(i) = (word >> 24) as u8 };
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, _flags: c_uint) -> isize {
    if len > 0 {
        fill(buf as *mut u8, len);
    }
    len as isize
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: usize) -> c_int {
    fill(buf as *mut u8, len);
    0
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if !ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
        return unsafe { libc::syscall(libc::SYS_clock_gettime, clk, ts) as c_int };
    }
    // Every reading costs 50 simulated nanoseconds, so that no two readings of a monotonic clock
    // are equal.
    let calls = CLOCK_CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    let now = tokio::sim::now_nanos() as i128 + (calls as i128 * 50);
    let ns = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
        EPOCH_NS + now + SKEW_NS.with(|s| s.get()) as i128
    } else {
        1_000_000_000_000 + now
    };
    unsafe {
        (*ts).tv_sec = (ns.div_euclid(1_000_000_000)) as libc::time_t;
        (*ts).tv_nsec = (ns.rem_euclid(1_000_000_000)) as libc::c_long;
    }
    0
}
