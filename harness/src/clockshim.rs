//! The wall clock as this thread sees it: real time plus an offset.
use std::cell::Cell;
thread_local! {
    static SKEW: Cell<i64> = const { Cell::new(0) };
}
pub fn set(secs: i64) {
    SKEW.with(|s| s.set(secs));
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clock as libc::c_long, ts) as libc::c_int;
    if r == 0 && clock == libc::CLOCK_REALTIME {
        (*ts).tv_sec += SKEW.try_with(|s| s.get()).unwrap_or(0);
    }
    r
}
