//! Raw system calls, independent of the libc symbols that this binary overrides.

use std::arch::asm;

#[inline(always)]
pub unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    asm!("syscall",
        inlateout("rax") n as isize => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

pub unsafe fn raw3(n: i64, a: usize, b: usize, c: usize) -> isize {
    raw6(n, a, b, c, 0, 0, 0)
}

pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

/// Converts a raw return value to the libc convention.
pub unsafe fn cvt(r: isize) -> isize {
    if r < 0 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

/// `poll` with a zero (or given, in real milliseconds) timeout on the raw kernel.
pub fn poll1(fd: i32, events: i16, real_ms: i32) -> i16 {
    let mut p = libc::pollfd { fd, events, revents: 0 };
    loop {
        let r = unsafe { raw3(libc::SYS_poll, &mut p as *mut _ as usize, 1, real_ms as usize) };
        if r == -(libc::EINTR as isize) {
            continue;
        }
        return if r > 0 { p.revents } else { 0 };
    }
}

pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe {
        raw6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0);
    }
}

/// Returns false if `ms` real milliseconds passed.
pub fn futex_wait_ms(addr: *const u32, val: u32, ms: u64) -> bool {
    let ts = libc::timespec { tv_sec: (ms / 1000) as i64, tv_nsec: ((ms % 1000) * 1_000_000) as i64 };
    let r = unsafe {
        raw6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize,
            &ts as *const _ as usize, 0, 0)
    };
    r != -(libc::ETIMEDOUT as isize)
}

pub fn futex_wake(addr: *const u32, n: u32) {
    unsafe {
        raw6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, n as usize, 0, 0, 0);
    }
}

pub fn real_ns() -> u128 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw3(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0) };
    ts.tv_sec as u128 * 1_000_000_000 + ts.tv_nsec as u128
}
