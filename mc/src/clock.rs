//! The wall clock of the code under test. `clock_gettime` defined here takes precedence over libc's,
//! so `SystemTime::now()` (and `Instant::now()`) of a thread that installed a virtual clock read it.
//! Threads without one read the real clock.
use std::cell::Cell;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Clock {
    /// nanoseconds since 1970
    pub now: i128,
    /// number of wall clock reads so far
    pub reads: u32,
    /// just before the read with this number (0-based) the clock jumps by `step_by`
    pub step_at: u32,
    pub step_by: i128,
    pub first_read: i128,
    pub last_read: i128,
}

thread_local! {
    static CLOCK: Cell<Option<Clock>> = const { Cell::new(None) };
}

pub const SEC: i128 = 1_000_000_000;

pub fn set(now: i128) {
    set_step(now, u32::MAX, 0);
}

pub fn set_step(now: i128, step_at: u32, step_by: i128) {
    CLOCK.with(|c| {
        c.set(Some(Clock { now, reads: 0, step_at, step_by, first_read: now, last_read: now }))
    });
}

pub fn get() -> Clock {
    CLOCK.with(|c| c.get()).expect("virtual clock")
}

pub fn advance(by: i128) {
    let mut c = get();
    c.now += by;
    CLOCK.with(|x| x.set(Some(c)));
}

pub fn real() {
    CLOCK.with(|c| c.set(None));
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let v = CLOCK.with(|c| {
        let mut v = c.get()?;
        if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
            if v.reads == v.step_at {
                v.now += v.step_by;
            }
            if v.reads == 0 {
                v.first_read = v.now;
            }
            v.last_read = v.now;
            v.reads = v.reads.saturating_add(1);
            c.set(Some(v));
        }
        Some(v.now)
    });
    match v {
        Some(now) => {
            // every clock of the thread moves with the virtual one (it never goes below 1970 here)
            (*ts).tv_sec = now.div_euclid(SEC) as _;
            (*ts).tv_nsec = now.rem_euclid(SEC) as _;
            0
        }
        None => libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int,
    }
}

/// A `SystemTime` from nanoseconds since 1970 (any sign).
pub fn time(ns: i128) -> SystemTime {
    let s = ns.div_euclid(SEC);
    let n = ns.rem_euclid(SEC) as u32;
    if s >= 0 {
        UNIX_EPOCH + Duration::new(s as u64, n)
    } else {
        UNIX_EPOCH - Duration::new((-s) as u64, 0) + Duration::new(0, n)
    }
}
