//! The wall clock the code under exploration sees, per thread.
use std::cell::Cell;

thread_local! {
    static NOW: Cell<Option<u64>> = const { Cell::new(None) };
}
/// What this thread's wall clock says from now on (None: the real time).
pub fn set(t: Option<u64>) {
    NOW.with(|n| n.set(t));
}
pub fn get() -> Option<u64> {
    NOW.try_with(|n| n.get()).ok().flatten()
}

/// Stands in for the C library's.
#[unsafe(no_mangle)]
unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        if let Some(t) = get() {
            unsafe {
                (*ts).tv_sec = t as libc::time_t;
                (*ts).tv_nsec = 0;
            }
            return 0;
        }
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int }
}
