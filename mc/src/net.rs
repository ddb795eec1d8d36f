//! Network calls that would go round the observed transport: refused and counted.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

static CALLS: AtomicU64 = AtomicU64::new(0);

/// Number of direct network calls of this process so far.
pub fn calls() -> u64 {
    CALLS.load(SeqCst)
}

unsafe fn refuse() -> libc::c_int {
    CALLS.fetch_add(1, SeqCst);
    *libc::__errno_location() = libc::ECONNREFUSED;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn connect(_: libc::c_int, _: *const libc::sockaddr, _: libc::socklen_t) -> libc::c_int {
    refuse()
}

#[no_mangle]
pub unsafe extern "C" fn sendto(
    _: libc::c_int,
    _: *const libc::c_void,
    _: libc::size_t,
    _: libc::c_int,
    _: *const libc::sockaddr,
    _: libc::socklen_t,
) -> libc::ssize_t {
    refuse() as libc::ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(
    _: *const libc::c_char,
    _: *const libc::c_char,
    _: *const libc::addrinfo,
    _: *mut *mut libc::addrinfo,
) -> libc::c_int {
    CALLS.fetch_add(1, SeqCst);
    libc::EAI_FAIL
}
