//! What `polling` uses of `hermit-abi`, on the calls of the host's libc (which the harness intercepts).
//! hermit-abi's documentation: an event descriptor is in non-blocking mode if `EFD_NONBLOCK` is given.
#![allow(non_camel_case_types)]

use std::os::raw::{c_int, c_void};

#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct pollfd {
    pub fd: i32,
    pub events: i16,
    pub revents: i16,
}

pub const POLLIN: i16 = 0x1;
pub const POLLPRI: i16 = 0x2;
pub const POLLOUT: i16 = 0x4;
pub const POLLERR: i16 = 0x8;
pub const POLLHUP: i16 = 0x10;
pub const POLLNVAL: i16 = 0x20;
pub const POLLRDNORM: i16 = 0x040;
pub const POLLRDBAND: i16 = 0x080;
pub const POLLWRNORM: i16 = 0x0100;
pub const POLLWRBAND: i16 = 0x0200;
pub const POLLRDHUP: i16 = 0x2000;
pub const EFD_SEMAPHORE: i16 = 0o1;
pub const EFD_NONBLOCK: i16 = 0o4000;
pub const EFD_CLOEXEC: i16 = 0o40000;
pub const F_SETFL: i32 = 4;
pub const F_GETFL: i32 = 3;
pub const O_NONBLOCK: i32 = 0o4000;

mod c {
    use super::*;
    extern "C" {
        pub fn eventfd(init: u32, flags: c_int) -> c_int;
        pub fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize;
        pub fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
        pub fn poll(fds: *mut pollfd, n: u64, timeout: c_int) -> c_int;
        pub fn fcntl(fd: c_int, cmd: c_int, arg: std::os::raw::c_long) -> c_int;
        pub fn __errno_location() -> *mut c_int;
    }
}

pub unsafe fn eventfd(initval: u64, flags: i16) -> i32 {
    let mut f = 0o2000000;
    if flags & EFD_NONBLOCK != 0 {
        f |= 0o4000;
    }
    if flags & EFD_SEMAPHORE != 0 {
        f |= 1;
    }
    c::eventfd(initval as u32, f)
}

pub unsafe fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
    c::read(fd, buf as *mut c_void, len)
}

pub unsafe fn write(fd: i32, buf: *const u8, len: usize) -> isize {
    c::write(fd, buf as *const c_void, len)
}

pub unsafe fn poll(fds: *mut pollfd, nfds: usize, timeout: i32) -> i32 {
    c::poll(fds, nfds as u64, timeout)
}

pub unsafe fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32 {
    c::fcntl(fd, cmd, arg as _)
}

pub unsafe fn get_errno() -> i32 {
    *c::__errno_location()
}
