//! libc, with `clock_gettime` under the control of a check on threads that ask for it.
pub use libc::*;
use std::cell::RefCell;

/// Seconds and nanoseconds of a clock, or none if it cannot be read.
pub type Clock = Box<dyn Fn(clockid_t) -> Option<(i64, i64)>>;

thread_local! {
    static CLOCK: RefCell<Option<Clock>> = const { RefCell::new(None) };
}

/// From now on this thread reads these clocks.
pub fn set_clock(c: Option<Clock>) {
    CLOCK.with(|x| *x.borrow_mut() = c);
}

/// # Safety
/// As libc's.
pub unsafe fn clock_gettime(id: clockid_t, to: *mut timespec) -> c_int {
    let r = CLOCK.with(|x| x.borrow().as_ref().map(|f| f(id)));
    match r {
        None => unsafe { libc::clock_gettime(id, to) },
        Some(None) => -1,
        Some(Some((s, n))) => {
            unsafe { *to = timespec { tv_sec: s, tv_nsec: n } };
            0
        }
    }
}
