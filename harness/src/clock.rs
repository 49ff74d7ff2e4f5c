//! A clock that can be moved ahead, for the calling thread: all of the process, tokio and the pool included, reads it.
use std::cell::Cell;
use std::time::Duration;

thread_local! { static AHEAD: Cell<u64> = const { Cell::new(0) }; }

/// Lets time pass for this thread, in no time.
pub fn pass(d: Duration) {
    AHEAD.with(|a| a.set(a.get() + d.as_nanos() as u64));
}
/// Back to the real time. What was timed before must be gone.
pub fn reset() {
    AHEAD.with(|a| a.set(0));
}

/// In place of libc's.
///
/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clock, t) as libc::c_int;
    let ahead = AHEAD.try_with(|a| a.get()).unwrap_or(0);
    if r == 0 && ahead > 0 && matches!(clock, libc::CLOCK_MONOTONIC | libc::CLOCK_REALTIME) {
        let n = (*t).tv_nsec as u64 + ahead;
        (*t).tv_sec += (n / 1_000_000_000) as libc::time_t;
        (*t).tv_nsec = (n % 1_000_000_000) as libc::c_long;
    }
    r
}
