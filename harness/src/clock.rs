//! A system clock that can be set per thread: the executable's own
//! definitions of the libc functions take precedence over those of libc.

use std::cell::Cell;

thread_local! {
    static SET: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<i64> = const { Cell::new(0) };
    static STEP: Cell<i64> = const { Cell::new(0) };
    static READS: Cell<u64> = const { Cell::new(0) };
}

/// Seconds and nanoseconds of the faked clock.
fn fake() -> Option<(i64, i64)> {
    if !SET.try_with(|s| s.get()).unwrap_or(false) {
        return None;
    }
    READS.with(|c| c.set(c.get() + 1));
    let n = NOW.with(|c| c.get());
    NOW.with(|c| c.set(n + STEP.with(|s| s.get())));
    Some((n, 123_456_789))
}

#[cfg(not(miri))]
mod libc_functions {
    use super::fake;

    #[no_mangle]
    unsafe extern "C" fn clock_gettime(
        id: libc::clockid_t,
        ts: *mut libc::timespec,
    ) -> libc::c_int {
        if matches!(id, 0 | 1 | 4 | 5 | 6 | 7 | 11) {
            if let Some((s, n)) = fake() {
                (*ts).tv_sec = s;
                (*ts).tv_nsec = n;
                return 0;
            }
        }
        libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
    }

    #[no_mangle]
    unsafe extern "C" fn gettimeofday(
        tv: *mut libc::timeval,
        tz: *mut libc::c_void,
    ) -> libc::c_int {
        if let Some((s, _)) = fake() {
            (*tv).tv_sec = s;
            (*tv).tv_usec = 123_456;
            return 0;
        }
        libc::syscall(libc::SYS_gettimeofday, tv, tz) as libc::c_int
    }

    #[no_mangle]
    unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
        let s = match fake() {
            Some((s, _)) => s,
            None => {
                let mut ts: libc::timespec = std::mem::zeroed();
                libc::syscall(libc::SYS_clock_gettime, 0, &mut ts);
                ts.tv_sec
            }
        };
        if !t.is_null() {
            *t = s;
        }
        s
    }
}

/// Run `f` at a date given in seconds since the epoch; every reading of a
/// clock moves it by `step` seconds. Also gives the number of readings.
pub fn at<T>(now: i64, step: i64, f: impl FnOnce() -> T) -> (T, u64) {
    READS.with(|c| c.set(0));
    NOW.with(|c| c.set(now));
    STEP.with(|c| c.set(step));
    SET.with(|c| c.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    SET.with(|c| c.set(false));
    match r {
        Ok(r) => (r, READS.with(|c| c.get())),
        Err(e) => std::panic::resume_unwind(e),
    }
}
