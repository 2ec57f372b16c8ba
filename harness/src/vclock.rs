//! Virtual monotonic clock: `Instant::now()` in this process returns BASE + the
//! virtual milliseconds set by the driver, so a trace carries exact times.
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::time::{Duration, Instant};

static ON: AtomicBool = AtomicBool::new(false);
static MS: AtomicI64 = AtomicI64::new(0);
const BASE_S: i64 = 1_000_000;

#[no_mangle]
pub extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_MONOTONIC && ON.load(Ordering::Relaxed) {
        let ms = MS.load(Ordering::Relaxed);
        unsafe {
            (*ts).tv_sec = BASE_S + ms / 1000;
            (*ts).tv_nsec = (ms % 1000) * 1_000_000;
        }
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int }
}

/// Switch the virtual clock on at 0 ms.
pub fn on() {
    MS.store(0, Ordering::Relaxed);
    ON.store(true, Ordering::Relaxed);
}
pub fn set(ms: i64) {
    MS.store(ms, Ordering::Relaxed);
}
/// The instant of virtual time `ms`.
pub fn at(ms: i64) -> Instant {
    let cur = MS.swap(0, Ordering::Relaxed);
    let i = Instant::now();
    MS.store(cur, Ordering::Relaxed);
    i + Duration::from_millis(ms as u64)
}
/// Virtual milliseconds of an instant (rounded down).
pub fn ms(i: Instant) -> i64 {
    i.duration_since(at(0)).as_millis() as i64
}
