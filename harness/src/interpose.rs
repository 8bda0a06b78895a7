//! Overrides of the libc symbols through which `polling`, `rustix` (built with its libc backend)
//! and `std` reach the kernel. Outside a scheduled library call they are plain system calls.

use crate::sched::{self, active, st, KRes};
use crate::sys::{cvt, raw3, raw6, set_errno};
use libc::{c_char, c_int, c_long, c_void, size_t, ssize_t, timespec};

pub static HASH_SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

const PF: i16 = libc::POLLIN;

/// Counts a resource-related call; true if it must fail.
fn inject(name: &'static str) -> bool {
    let s = st();
    s.syscalls += 1;
    let n = s.faults.calls_seen;
    s.faults.calls_seen += 1;
    if let Some(x) = s.faults.fail_nth.iter().find(|x| x.0 == n) {
        s.faults.fail_hit.push((name, x.1));
        unsafe { set_errno(x.1) };
        return true;
    }
    false
}

fn own(fd: isize) {
    if fd >= 0 {
        st().owned.push(fd as i32);
    }
}

fn dur(ts: *const timespec) -> Option<u128> {
    if ts.is_null() {
        None
    } else {
        let t = unsafe { *ts };
        Some(t.tv_sec.max(0) as u128 * 1_000_000_000 + t.tv_nsec.max(0) as u128)
    }
}

fn ms(t: c_int) -> Option<u128> {
    if t < 0 {
        None
    } else {
        Some(t as u128 * 1_000_000)
    }
}

fn wait_failure() -> bool {
    let s = st();
    let me = sched::tid();
    if let Some(i) = s.faults.fail_wait.iter().position(|x| x.0 == me) {
        let (_, e) = s.faults.fail_wait.remove(i);
        unsafe { set_errno(e) };
        return true;
    }
    false
}

unsafe fn do_epoll_wait(epfd: c_int, ev: *mut libc::epoll_event, max: c_int, timeout: Option<u128>) -> c_int {
    sched::point();
    st().syscalls += 1;
    if wait_failure() {
        return -1;
    }
    let deadline = timeout.map(|t| st().now.saturating_add(t));
    let mut rounds = 0;
    let r = loop {
        let r = raw6(libc::SYS_epoll_wait, epfd as usize, ev as usize, max as usize, 0, 0, 0);
        if r != 0 || timeout == Some(0) || st().draining {
            break cvt(r) as c_int;
        }
        if sched::take_signal() {
            set_errno(libc::EINTR);
            break -1;
        }
        rounds += 1;
        if rounds > 1000 {
            eprintln!("INTERNAL: epoll descriptor readable but epoll_wait empty");
            std::process::exit(6);
        }
        let p = libc::pollfd { fd: epfd, events: PF, revents: 0 };
        match sched::kernel_block_until(vec![p], deadline, true) {
            KRes::Ready => continue,
            KRes::TimedOut | KRes::Forced => break 0,
            KRes::Intr => {
                set_errno(libc::EINTR);
                break -1;
            }
        }
    };
    sched::point();
    r
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(epfd: c_int, ev: *mut libc::epoll_event, max: c_int, t: c_int) -> c_int {
    if !active() {
        return cvt(raw6(libc::SYS_epoll_wait, epfd as usize, ev as usize, max as usize, t as usize, 0, 0)) as c_int;
    }
    do_epoll_wait(epfd, ev, max, ms(t))
}

#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(
    epfd: c_int,
    ev: *mut libc::epoll_event,
    max: c_int,
    t: c_int,
    sig: *const libc::sigset_t,
) -> c_int {
    if !active() {
        return cvt(raw6(libc::SYS_epoll_pwait, epfd as usize, ev as usize, max as usize, t as usize, sig as usize, 8)) as c_int;
    }
    do_epoll_wait(epfd, ev, max, ms(t))
}

#[no_mangle]
pub unsafe extern "C" fn epoll_pwait2(
    epfd: c_int,
    ev: *mut libc::epoll_event,
    max: c_int,
    t: *const timespec,
    sig: *const libc::sigset_t,
) -> c_int {
    if !active() {
        return cvt(raw6(libc::SYS_epoll_pwait2, epfd as usize, ev as usize, max as usize, t as usize, sig as usize, 8)) as c_int;
    }
    do_epoll_wait(epfd, ev, max, dur(t))
}

unsafe fn do_poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: Option<u128>) -> c_int {
    sched::point();
    st().syscalls += 1;
    if wait_failure() {
        return -1;
    }
    let deadline = timeout.map(|t| st().now.saturating_add(t));
    let r = loop {
        let r = raw3(libc::SYS_poll, fds as usize, n as usize, 0);
        // Unlike epoll_wait(), poll() looks for signals even if it is not to block.
        if r == 0 && !st().draining && sched::take_signal() {
            set_errno(libc::EINTR);
            break -1;
        }
        if r != 0 || timeout == Some(0) || st().draining {
            break cvt(r) as c_int;
        }
        let v = std::slice::from_raw_parts(fds, n as usize).to_vec();
        match sched::kernel_block_until(v, deadline, true) {
            KRes::Ready => continue,
            KRes::TimedOut | KRes::Forced => break 0,
            KRes::Intr => {
                set_errno(libc::EINTR);
                break -1;
            }
        }
    };
    sched::point();
    r
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, t: c_int) -> c_int {
    if !active() {
        return cvt(raw3(libc::SYS_poll, fds as usize, n as usize, t as usize)) as c_int;
    }
    do_poll(fds, n, ms(t))
}

#[no_mangle]
pub unsafe extern "C" fn ppoll(fds: *mut libc::pollfd, n: libc::nfds_t, t: *const timespec, sig: *const libc::sigset_t) -> c_int {
    if !active() {
        let mut copy = if t.is_null() { timespec { tv_sec: 0, tv_nsec: 0 } } else { *t };
        let p = if t.is_null() { 0 } else { &mut copy as *mut _ as usize };
        return cvt(raw6(libc::SYS_ppoll, fds as usize, n as usize, p, sig as usize, 8, 0)) as c_int;
    }
    do_poll(fds, n, dur(t))
}

#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if !active() {
        return cvt(raw3(libc::SYS_epoll_create1, flags as usize, 0, 0)) as c_int;
    }
    sched::point();
    if inject("epoll_create1") {
        return -1;
    }
    let r = raw3(libc::SYS_epoll_create1, flags as usize, 0, 0);
    own(r);
    cvt(r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn epoll_create(_size: c_int) -> c_int {
    epoll_create1(0)
}

#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(epfd: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    if active() {
        sched::point();
        if inject("epoll_ctl") {
            return -1;
        }
        if op != libc::EPOLL_CTL_DEL && st().faults.fail_ctl.is_some_and(|x| x.0 == sched::tid()) {
            set_errno(st().faults.fail_ctl.take().unwrap().1);
            return -1;
        }
    }
    let r = cvt(raw6(libc::SYS_epoll_ctl, epfd as usize, op as usize, fd as usize, ev as usize, 0, 0)) as c_int;
    if active() {
        sched::point();
    }
    r
}

/// ESP-IDF's event descriptors never block and are read as 0 when nothing was written. The library
/// makes them without flags, nothing else here does.
mod espidf {
    use std::sync::atomic::{AtomicBool, Ordering};

    static FDS: [AtomicBool; 8192] = [const { AtomicBool::new(false) }; 8192];

    pub fn flags(f: i32) -> i32 {
        if cfg!(pollsim_espidf) && f == 0 { libc::EFD_NONBLOCK | libc::EFD_CLOEXEC } else { f }
    }

    pub fn made(fd: isize, f: i32) {
        if cfg!(pollsim_espidf) && (0..8192).contains(&fd) {
            FDS[fd as usize].store(f == 0, Ordering::SeqCst);
        }
    }

    pub fn closed(fd: i32) {
        if cfg!(pollsim_espidf) && (0..8192).contains(&fd) {
            FDS[fd as usize].store(false, Ordering::SeqCst);
        }
    }

    pub unsafe fn read(fd: i32, buf: usize, n: usize, r: isize) -> isize {
        if cfg!(pollsim_espidf) && (0..8192).contains(&fd) && r == -(libc::EAGAIN as isize) && n == 8 && FDS[fd as usize].load(Ordering::SeqCst) {
            (buf as *mut u64).write_unaligned(0);
            return 8;
        }
        r
    }
}

unsafe fn do_eventfd(init: u32, flags: c_int) -> isize {
    sched::point();
    if inject("eventfd") {
        return -1;
    }
    if st().faults.deny_eventfd {
        set_errno(libc::ENOSYS);
        return -1;
    }
    let r = raw3(libc::SYS_eventfd2, init as usize, espidf::flags(flags) as usize, 0);
    espidf::made(r, flags);
    own(r);
    cvt(r)
}

#[no_mangle]
pub unsafe extern "C" fn eventfd(init: u32, flags: c_int) -> c_int {
    if !active() {
        let r = raw3(libc::SYS_eventfd2, init as usize, espidf::flags(flags) as usize, 0);
        espidf::made(r, flags);
        return cvt(r) as c_int;
    }
    do_eventfd(init, flags) as c_int
}

unsafe fn do_timerfd_create(clock: c_int, flags: c_int) -> isize {
    sched::point();
    if inject("timerfd_create") {
        return -1;
    }
    if st().faults.deny_timerfd {
        set_errno(libc::ENOSYS);
        return -1;
    }
    // A stand-in: an eventfd with the same descriptor flags (TFD_* and EFD_* values coincide),
    // fired by the virtual clock.
    let r = raw3(libc::SYS_eventfd2, 0, flags as usize, 0);
    own(r);
    if r >= 0 {
        let base = if clock == libc::CLOCK_REALTIME { REALTIME } else { 0 };
        st().timers.insert(r as i32, sched::Timer { deadline: None, interval: 0, base });
    }
    cvt(r)
}

#[no_mangle]
pub unsafe extern "C" fn timerfd_create(clock: c_int, flags: c_int) -> c_int {
    if !active() {
        return cvt(raw3(libc::SYS_timerfd_create, clock as usize, flags as usize, 0)) as c_int;
    }
    do_timerfd_create(clock, flags) as c_int
}

/// Seconds between the virtual monotonic and real-time clocks, in nanoseconds.
const REALTIME: u128 = 1_700_000_000_000_000_000;

fn timer_value(fd: c_int) -> libc::itimerspec {
    let s = st();
    let ts = |v: u128| timespec { tv_sec: (v / 1_000_000_000) as i64, tv_nsec: (v % 1_000_000_000) as i64 };
    let t = &s.timers[&fd];
    let left = t.deadline.map_or(0, |d| d.saturating_sub(s.now));
    libc::itimerspec { it_interval: ts(t.interval), it_value: ts(left) }
}

unsafe fn do_timerfd_gettime(fd: c_int, cur: *mut libc::itimerspec) -> isize {
    sched::point();
    let s = st();
    s.syscalls += 1;
    if !s.timers.contains_key(&fd) {
        set_errno(libc::EINVAL);
        return -1;
    }
    *cur = timer_value(fd);
    0
}

#[no_mangle]
pub unsafe extern "C" fn timerfd_gettime(fd: c_int, cur: *mut libc::itimerspec) -> c_int {
    if !active() {
        return cvt(raw3(libc::SYS_timerfd_gettime, fd as usize, cur as usize, 0)) as c_int;
    }
    do_timerfd_gettime(fd, cur) as c_int
}

unsafe fn do_timerfd_settime(fd: c_int, flags: c_int, new: *const libc::itimerspec, old: *mut libc::itimerspec) -> isize {
    sched::point();
    let s = st();
    s.syscalls += 1;
    let Some(base) = s.timers.get(&fd).map(|t| t.base) else {
        set_errno(libc::EINVAL);
        return -1;
    };
    let n = *new;
    let bad = |t: &timespec| t.tv_sec < 0 || t.tv_nsec < 0 || t.tv_nsec >= 1_000_000_000;
    if bad(&n.it_value) || bad(&n.it_interval) {
        set_errno(libc::EINVAL);
        return -1;
    }
    if !old.is_null() {
        *old = timer_value(fd);
    }
    // Setting a timer discards expirations.
    drain8(fd);
    let v = dur(&n.it_value).unwrap();
    let iv = dur(&n.it_interval).unwrap();
    let deadline = if v == 0 {
        None
    } else if flags & libc::TFD_TIMER_ABSTIME != 0 {
        Some(v.saturating_sub(base))
    } else {
        Some(s.now + v)
    };
    s.timers.insert(fd, sched::Timer { deadline, interval: iv, base });
    sched::fire_timers(s);
    sched::point();
    0
}

unsafe fn drain8(fd: c_int) {
    let mut p = libc::pollfd { fd, events: PF, revents: 0 };
    if raw3(libc::SYS_poll, &mut p as *mut _ as usize, 1, 0) > 0 {
        let mut b = 0u64;
        raw3(libc::SYS_read, fd as usize, &mut b as *mut _ as usize, 8);
    }
}

#[no_mangle]
pub unsafe extern "C" fn timerfd_settime(
    fd: c_int,
    flags: c_int,
    new: *const libc::itimerspec,
    old: *mut libc::itimerspec,
) -> c_int {
    if !active() {
        return cvt(raw6(libc::SYS_timerfd_settime, fd as usize, flags as usize, new as usize, old as usize, 0, 0)) as c_int;
    }
    do_timerfd_settime(fd, flags, new, old) as c_int
}

/// On Vita, what was written to a pipe may arrive later: the first read after a write that does not
/// block does not find its byte, if that is all there is.
mod vita {
    use std::sync::atomic::{AtomicBool, AtomicI32, Ordering};

    static PEER: [AtomicI32; 8192] = [const { AtomicI32::new(-1) }; 8192];
    static LATE: [AtomicBool; 8192] = [const { AtomicBool::new(false) }; 8192];

    pub fn made(r: i32, w: i32) {
        if cfg!(pollsim_vita) && r.max(w) < 8192 {
            PEER[w as usize].store(r, Ordering::SeqCst);
            LATE[r as usize].store(false, Ordering::SeqCst);
        }
    }

    pub fn closed(fd: i32) {
        if cfg!(pollsim_vita) && (0..8192).contains(&fd) {
            PEER[fd as usize].store(-1, Ordering::SeqCst);
            LATE[fd as usize].store(false, Ordering::SeqCst);
        }
    }

    pub fn written(fd: i32) {
        if cfg!(pollsim_vita) && (0..8192).contains(&fd) {
            let r = PEER[fd as usize].load(Ordering::SeqCst);
            if r >= 0 {
                LATE[r as usize].store(true, Ordering::SeqCst);
            }
        }
    }

    /// Whether this read comes too early.
    pub unsafe fn early(fd: i32) -> bool {
        if !cfg!(pollsim_vita) || !(0..8192).contains(&fd) || !LATE[fd as usize].swap(false, Ordering::SeqCst) {
            return false;
        }
        let mut unread: libc::c_int = 0;
        super::raw3(libc::SYS_ioctl, fd as usize, libc::FIONREAD as usize, &mut unread as *mut _ as usize);
        unread <= 1
    }
}

unsafe fn do_pipe(fds: *mut c_int, flags: c_int) -> isize {
    let r = raw3(libc::SYS_pipe2, fds as usize, flags as usize, 0);
    if r == 0 {
        vita::made(*fds, *fds.add(1));
        own(*fds as isize);
        own(*fds.add(1) as isize);
        // Small pipes make accumulation show early; programs cannot tell otherwise.
        raw3(libc::SYS_fcntl, *fds as usize, libc::F_SETPIPE_SZ as usize, 4096);
    }
    cvt(r)
}

#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    if !active() {
        return cvt(raw3(libc::SYS_pipe2, fds as usize, flags as usize, 0)) as c_int;
    }
    sched::point();
    if inject("pipe2") {
        return -1;
    }
    if st().faults.deny_pipe2 {
        set_errno(libc::ENOSYS);
        return -1;
    }
    do_pipe(fds, flags) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn pipe(fds: *mut c_int) -> c_int {
    if !active() {
        return cvt(raw3(libc::SYS_pipe2, fds as usize, 0, 0)) as c_int;
    }
    sched::point();
    if inject("pipe") {
        return -1;
    }
    do_pipe(fds, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if active() {
        sched::point();
        if inject("fcntl") {
            return -1;
        }
        let r = raw3(libc::SYS_fcntl, fd as usize, cmd as usize, arg as usize);
        if cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD {
            own(r);
        }
        return cvt(r) as c_int;
    }
    cvt(raw3(libc::SYS_fcntl, fd as usize, cmd as usize, arg as usize)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() {
        sched::point();
        let s = st();
        s.timers.remove(&fd);
        if let Some(i) = s.owned.iter().position(|x| *x == fd) {
            s.owned.swap_remove(i);
        } else {
            s.bad_close.push(fd);
        }
    }
    espidf::closed(fd);
    vita::closed(fd);
    cvt(raw3(libc::SYS_close, fd as usize, 0, 0)) as c_int
}

/// A read or write on a possibly blocking descriptor, done as a virtual blocking call.
unsafe fn transfer(nr: c_long, fd: c_int, buf: usize, n: size_t, ev: i16) -> ssize_t {
    sched::point();
    st().syscalls += 1;
    let fl = raw3(libc::SYS_fcntl, fd as usize, libc::F_GETFL as usize, 0);
    let blocking = fl >= 0 && fl as c_int & libc::O_NONBLOCK == 0;
    if nr == libc::SYS_read && vita::early(fd) && !blocking {
        sched::point();
        return cvt(-(libc::EAGAIN as isize));
    }
    let r = loop {
        if blocking {
            raw3(libc::SYS_fcntl, fd as usize, libc::F_SETFL as usize, fl as usize | libc::O_NONBLOCK as usize);
        }
        let mut r = raw3(nr, fd as usize, buf, n);
        if r == -(libc::EAGAIN as isize) && nr == libc::SYS_write {
            // A one-page pipe is full once its page was written to the end, even if most of that
            // has been read since; the kernel never makes one smaller than two pages by itself.
            let mut unread: c_int = 0;
            let ok = raw3(libc::SYS_ioctl, fd as usize, libc::FIONREAD as usize, &mut unread as *mut _ as usize);
            let size = raw3(libc::SYS_fcntl, fd as usize, libc::F_GETPIPE_SZ as usize, 0);
            if ok == 0 && size == 4096 && (unread as usize) + n <= 4096 {
                raw3(libc::SYS_fcntl, fd as usize, libc::F_SETPIPE_SZ as usize, 8192);
                r = raw3(nr, fd as usize, buf, n);
            }
        }
        if nr == libc::SYS_read {
            r = espidf::read(fd, buf, n, r);
        }
        if blocking {
            raw3(libc::SYS_fcntl, fd as usize, libc::F_SETFL as usize, fl as usize);
            if r == -(libc::EAGAIN as isize) {
                let p = libc::pollfd { fd, events: ev, revents: 0 };
                if let KRes::Forced = sched::kernel_block(vec![p], None, false) {
                    break r;
                }
                continue;
            }
        }
        break r;
    };
    if nr == libc::SYS_write && r > 0 {
        vita::written(fd);
    }
    sched::point();
    cvt(r)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !active() {
        let r = raw3(libc::SYS_read, fd as usize, buf as usize, n);
        return cvt(espidf::read(fd, buf as usize, n, r));
    }
    transfer(libc::SYS_read, fd, buf as usize, n, PF)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !active() {
        return cvt(raw3(libc::SYS_write, fd as usize, buf as usize, n));
    }
    transfer(libc::SYS_write, fd, buf as usize, n, libc::POLLOUT)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut timespec) -> c_int {
    if !active() {
        return cvt(raw3(libc::SYS_clock_gettime, clk as usize, ts as usize, 0)) as c_int;
    }
    sched::point();
    let s = st();
    let t = s.tick as u128;
    if t > 0 {
        s.ticked += t;
        s.now += t;
        sched::fire_timers(s);
    }
    let now = s.now;
    (*ts).tv_sec = (now / 1_000_000_000) as i64;
    (*ts).tv_nsec = (now % 1_000_000_000) as i64;
    if clk == libc::CLOCK_REALTIME {
        (*ts).tv_sec += (REALTIME / 1_000_000_000) as i64;
    }
    0
}

/// Hash seeds must not differ between runs of a case.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, _flags: libc::c_uint) -> ssize_t {
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    let seed = HASH_SEED.load(std::sync::atomic::Ordering::Relaxed);
    for (i, x) in b.iter_mut().enumerate() {
        *x = (seed >> (i % 8 * 8)) as u8 ^ (i as u8).wrapping_mul(37);
    }
    n as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if !active() {
        return cvt(raw3(libc::SYS_nanosleep, req as usize, rem as usize, 0)) as c_int;
    }
    let t = st().now + dur(req).unwrap_or(0);
    sched::sleep_until(t);
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if !active() {
        return -(raw6(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int);
    }
    let d = dur(req).unwrap_or(0);
    let t = if flags & libc::TIMER_ABSTIME != 0 { d } else { st().now + d };
    sched::sleep_until(t);
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !active() {
        return cvt(raw3(libc::SYS_sched_yield, 0, 0, 0)) as c_int;
    }
    sched::yield_now();
    0
}

/// `syscall` is variadic in C; on x86-64 its integer arguments arrive as for this signature.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if !active() {
        if cfg!(pollsim_espidf) && n == libc::SYS_eventfd2 {
            return eventfd(a as u32, b as c_int) as c_long;
        }
        return cvt(raw6(n, a, b, c, d, e, f)) as c_long;
    }
    match n {
        libc::SYS_futex => {
            let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    sched::point();
                    let t = dur(d as *const timespec);
                    let deadline = if op == libc::FUTEX_WAIT { t.map(|t| st().now + t) } else { t };
                    let r = sched::futex_block(a, c as u32, deadline);
                    sched::point();
                    if r == 0 {
                        0
                    } else {
                        set_errno(r);
                        -1
                    }
                }
                libc::FUTEX_WAKE => {
                    let r = sched::futex_wake(a, c as u32);
                    sched::point();
                    r as c_long
                }
                _ => cvt(raw6(n, a, b, c, d, e, f)) as c_long,
            }
        }
        libc::SYS_eventfd2 => do_eventfd(a as u32, b as c_int) as c_long,
        libc::SYS_eventfd => do_eventfd(a as u32, 0) as c_long,
        libc::SYS_timerfd_create => do_timerfd_create(a as c_int, b as c_int) as c_long,
        libc::SYS_timerfd_settime => {
            do_timerfd_settime(a as c_int, b as c_int, c as *const libc::itimerspec, d as *mut libc::itimerspec) as c_long
        }
        libc::SYS_timerfd_gettime => do_timerfd_gettime(a as c_int, b as *mut libc::itimerspec) as c_long,
        libc::SYS_epoll_wait => do_epoll_wait(a as c_int, b as *mut _, c as c_int, ms(d as c_int)) as c_long,
        libc::SYS_epoll_pwait => do_epoll_wait(a as c_int, b as *mut _, c as c_int, ms(d as c_int)) as c_long,
        libc::SYS_epoll_pwait2 => {
            do_epoll_wait(a as c_int, b as *mut _, c as c_int, dur(d as *const timespec)) as c_long
        }
        libc::SYS_poll => do_poll(a as *mut _, b as _, ms(c as c_int)) as c_long,
        libc::SYS_read => read(a as c_int, b as *mut c_void, c) as c_long,
        libc::SYS_write => write(a as c_int, b as *const c_void, c) as c_long,
        libc::SYS_close => close(a as c_int) as c_long,
        libc::SYS_epoll_create1 => epoll_create1(a as c_int) as c_long,
        libc::SYS_epoll_ctl => epoll_ctl(a as c_int, b as c_int, c as c_int, d as *mut _) as c_long,
        libc::SYS_pipe2 => pipe2(a as *mut c_int, b as c_int) as c_long,
        libc::SYS_pipe => pipe(a as *mut c_int) as c_long,
        libc::SYS_fcntl => fcntl(a as c_int, b as c_int, c as c_long) as c_long,
        libc::SYS_clock_gettime => clock_gettime(a as libc::clockid_t, b as *mut timespec) as c_long,
        libc::SYS_sched_yield => sched_yield() as c_long,
        _ => cvt(raw6(n, a, b, c, d, e, f)) as c_long,
    }
}

#[allow(dead_code)]
fn _unused(_: *const c_char) {}
