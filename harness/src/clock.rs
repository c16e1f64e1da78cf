//! The system clock as a choice of the harness: the functions that read it are defined here and pass
//! everything on, except that a thread can arm a script that answers instead.

use std::cell::Cell;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<i128> = const { Cell::new(0) };
    static TICK: Cell<i128> = const { Cell::new(0) };
    static READS: Cell<u64> = const { Cell::new(0) };
}

/// Runs `f` at `now` (nanoseconds since 1970); each reading moves the clock on by `tick`. Gives the number
/// of readings too.
pub fn at<T>(now: i128, tick: i128, f: impl FnOnce() -> T) -> (T, u64) {
    NOW.with(|n| n.set(now));
    TICK.with(|n| n.set(tick));
    READS.with(|n| n.set(0));
    ARMED.with(|a| a.set(true));
    let r = f();
    ARMED.with(|a| a.set(false));
    (r, READS.with(|n| n.get()))
}

fn read() -> Option<(i64, i64)> {
    if !ARMED.try_with(|a| a.get()).unwrap_or(false) {
        return None;
    }
    let now = NOW.with(|n| n.get());
    NOW.with(|n| n.set(now + TICK.with(|t| t.get())));
    READS.with(|n| n.set(n.get() + 1));
    Some((now.div_euclid(1_000_000_000) as i64, now.rem_euclid(1_000_000_000) as i64))
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> i32 {
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        if let Some((s, n)) = read() {
            (*t).tv_sec = s;
            (*t).tv_nsec = n;
            return 0;
        }
    }
    crate::entropy::syscall(libc::SYS_clock_gettime, id as i64, t as i64, 0, 0, 0, 0) as i32
}
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, zone: *mut libc::c_void) -> i32 {
    if let Some((s, n)) = read() {
        if !t.is_null() {
            (*t).tv_sec = s;
            (*t).tv_usec = n / 1000;
        }
        return 0;
    }
    crate::entropy::syscall(libc::SYS_gettimeofday, t as i64, zone as i64, 0, 0, 0, 0) as i32
}
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut x = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut x);
    if !t.is_null() {
        *t = x.tv_sec;
    }
    x.tv_sec
}
