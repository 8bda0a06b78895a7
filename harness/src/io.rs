//! Real I/O sources and the actions that change their readiness.

use crate::sys;
use std::os::fd::{AsRawFd, BorrowedFd, FromRawFd, OwnedFd, RawFd};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Unix,
    PipeR,
    PipeW,
    Event,
    Tcp,
    Dgram,
    Listener,
    FreshTcp,
    Refused,
    Nested,
}

pub const KINDS: [Kind; 9] = [
    Kind::Unix,
    Kind::PipeR,
    Kind::PipeW,
    Kind::Event,
    Kind::Dgram,
    Kind::Listener,
    Kind::Tcp,
    Kind::FreshTcp,
    Kind::Refused,
];

#[derive(Debug)]
pub struct Source {
    pub kind: Kind,
    pub near: OwnedFd,
    pub far: Option<OwnedFd>,
    pub extra: Vec<OwnedFd>,
    addr: Option<libc::sockaddr_in>,
    /// status and descriptor flags the source was created with
    flags: (i32, i32),
    changed: bool,
}

pub const IN: i16 = libc::POLLIN;
pub const OUT: i16 = libc::POLLOUT;
pub const PRI: i16 = libc::POLLPRI;
pub const HUP: i16 = libc::POLLHUP;
pub const ERR: i16 = libc::POLLERR;

fn nb(fd: RawFd) {
    unsafe {
        let f = libc::fcntl(fd, libc::F_GETFL, 0);
        libc::fcntl(fd, libc::F_SETFL, f | libc::O_NONBLOCK);
        libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
    }
}

fn own(fd: RawFd) -> OwnedFd {
    assert!(fd >= 0, "descriptor creation failed: {}", std::io::Error::last_os_error());
    nb(fd);
    unsafe { OwnedFd::from_raw_fd(fd) }
}

fn pair(ty: i32) -> (OwnedFd, OwnedFd) {
    let mut v = [0; 2];
    let r = unsafe { libc::socketpair(libc::AF_UNIX, ty, 0, v.as_mut_ptr()) };
    assert_eq!(r, 0);
    for fd in v {
        let sz: i32 = 4608;
        unsafe {
            libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &sz as *const _ as *const _, 4);
        }
    }
    (own(v[0]), own(v[1]))
}

fn pipe() -> (OwnedFd, OwnedFd) {
    let mut v = [0; 2];
    assert_eq!(unsafe { libc::pipe2(v.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
    unsafe { libc::fcntl(v[0], libc::F_SETPIPE_SZ, 4096) };
    (own(v[0]), own(v[1]))
}

fn tcp() -> OwnedFd {
    own(unsafe { libc::socket(libc::AF_INET, libc::SOCK_STREAM, 0) })
}

fn lo(port: u16) -> libc::sockaddr_in {
    let mut a: libc::sockaddr_in = unsafe { std::mem::zeroed() };
    a.sin_family = libc::AF_INET as u16;
    a.sin_port = port.to_be();
    // An address per process: all processes of a check together use many ports.
    let pid = std::process::id();
    a.sin_addr.s_addr = u32::from_ne_bytes([127, 1 + (pid >> 14) as u8 % 200, (pid >> 7) as u8 & 127, 1 + (pid as u8 & 127)]);
    a
}

impl Drop for Source {
    /// Connections end with a reset, so that they do not keep their port for a minute.
    fn drop(&mut self) {
        if matches!(self.kind, Kind::Tcp | Kind::Listener | Kind::FreshTcp) {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            for fd in [Some(&self.near), self.far.as_ref()].into_iter().flatten().chain(&self.extra) {
                let (p, n) = (&l as *const _ as *const _, std::mem::size_of_val(&l) as u32);
                unsafe { libc::setsockopt(fd.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, p, n) };
            }
        }
    }
}

fn listener() -> (OwnedFd, libc::sockaddr_in) {
    let l = tcp();
    let mut a = lo(0);
    let mut len = std::mem::size_of::<libc::sockaddr_in>() as u32;
    unsafe {
        assert_eq!(libc::bind(l.as_raw_fd(), &a as *const _ as *const _, len), 0);
        assert_eq!(libc::listen(l.as_raw_fd(), 16), 0);
        assert_eq!(libc::getsockname(l.as_raw_fd(), &mut a as *mut _ as *mut _, &mut len), 0);
    }
    (l, a)
}

fn connect(a: &libc::sockaddr_in) -> OwnedFd {
    let s = tcp();
    let (from, one) = (lo(0), 1i32);
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_IP, 24, &one as *const _ as *const _, 4); // IP_BIND_ADDRESS_NO_PORT
        libc::bind(s.as_raw_fd(), &from as *const _ as *const _, 16);
    }
    unsafe { libc::connect(s.as_raw_fd(), a as *const _ as *const _, 16) };
    s
}

impl Source {
    pub fn new(kind: Kind) -> Source {
        let mut addr = None;
        let mut extra = vec![];
        let (near, far) = match kind {
            Kind::Unix => {
                let (a, b) = pair(libc::SOCK_STREAM);
                (a, Some(b))
            }
            Kind::Dgram => {
                let (a, b) = pair(libc::SOCK_DGRAM);
                (a, Some(b))
            }
            Kind::PipeR => {
                let (r, w) = pipe();
                (r, Some(w))
            }
            Kind::PipeW => {
                let (r, w) = pipe();
                (w, Some(r))
            }
            Kind::Event => (own(unsafe { libc::eventfd(0, libc::EFD_CLOEXEC) }), None),
            Kind::Tcp => {
                let (l, a) = listener();
                let c = connect(&a);
                sys::poll1(l.as_raw_fd(), IN, 1000);
                let s = own(unsafe { libc::accept(l.as_raw_fd(), std::ptr::null_mut(), std::ptr::null_mut()) });
                let one: i32 = 1;
                for fd in [c.as_raw_fd(), s.as_raw_fd()] {
                    unsafe {
                        libc::setsockopt(fd, libc::IPPROTO_TCP, libc::TCP_NODELAY, &one as *const _ as *const _, 4);
                    }
                }
                sys::poll1(c.as_raw_fd(), OUT, 1000);
                (c, Some(s))
            }
            Kind::Listener => {
                let (l, a) = listener();
                addr = Some(a);
                (l, None)
            }
            Kind::FreshTcp => (tcp(), None),
            Kind::Refused => {
                let (l, a) = listener();
                drop(l);
                let c = connect(&a);
                sys::poll1(c.as_raw_fd(), IN | OUT, 1000);
                (c, None)
            }
            Kind::Nested => unreachable!(),
        };
        extra.shrink_to_fit();
        let mut s = Source { kind, near, far, extra, addr, flags: (0, 0), changed: false };
        s.own_flags();
        s
    }

    /// Creates a new source whose near descriptor has number `fd` (which must be free).
    pub fn new_at(kind: Kind, fd: RawFd) -> Source {
        let mut s = Source::new(kind);
        if s.near.as_raw_fd() != fd {
            // The number might have been taken by the other half.
            if s.far.as_ref().is_some_and(|f| f.as_raw_fd() == fd) {
                let f = s.far.take().unwrap();
                let d = unsafe { libc::fcntl(f.as_raw_fd(), libc::F_DUPFD_CLOEXEC, 3) };
                drop(f);
                s.far = Some(own(d));
            }
            let r = unsafe { libc::dup3(s.near.as_raw_fd(), fd, libc::O_CLOEXEC) };
            assert_eq!(r, fd);
            s.near = unsafe { OwnedFd::from_raw_fd(fd) };
            s.own_flags();
        }
        s
    }

    /// Every other source is blocking and inherited across exec, as far as its user can tell.
    fn own_flags(&mut self) {
        let fd = self.fd();
        unsafe {
            if fd % 2 == 0 && self.kind != Kind::Nested {
                let f = libc::fcntl(fd, libc::F_GETFL, 0);
                libc::fcntl(fd, libc::F_SETFL, f & !libc::O_NONBLOCK);
                libc::fcntl(fd, libc::F_SETFD, 0);
            }
        }
        self.flags = self.flags_now();
    }

    fn flags_now(&self) -> (i32, i32) {
        unsafe { (libc::fcntl(self.fd(), libc::F_GETFL, 0), libc::fcntl(self.fd(), libc::F_GETFD, 0)) }
    }

    /// Has anybody but its owner changed its flags?
    pub fn tampered(&self) -> bool {
        self.changed || (self.kind != Kind::Nested && self.flags_now() != self.flags)
    }

    #[allow(dead_code)]
    pub fn from_nested(near: OwnedFd) -> Source {
        Source { kind: Kind::Nested, near, far: None, extra: vec![], addr: None, flags: (0, 0), changed: false }
    }

    pub fn fd(&self) -> RawFd {
        self.near.as_raw_fd()
    }

    pub fn borrow(&self) -> BorrowedFd<'static> {
        unsafe { BorrowedFd::borrow_raw(self.near.as_raw_fd()) }
    }

    /// What the kernel says about the near side right now.
    pub fn truth(&self) -> i16 {
        sys::poll1(self.fd(), IN | OUT | PRI, 0)
    }
}

fn wr(fd: RawFd, n: usize) -> isize {
    let b = [0x5au8; 4096];
    unsafe { libc::send(fd, b.as_ptr() as *const _, n, libc::MSG_NOSIGNAL | libc::MSG_DONTWAIT) }
}

fn wr_any(fd: RawFd, n: usize) -> isize {
    let r = wr(fd, n);
    if r < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::ENOTSOCK) {
        let b = [0x5au8; 4096];
        return unsafe { libc::write(fd, b.as_ptr() as *const _, n) };
    }
    r
}

fn rd(fd: RawFd, n: usize) -> isize {
    let mut b = [0u8; 4096];
    unsafe { libc::read(fd, b.as_mut_ptr() as *mut _, n) }
}

fn drain(fd: RawFd) {
    for _ in 0..10_000 {
        if rd(fd, 4096) <= 0 {
            break;
        }
    }
}

fn fill(fd: RawFd) {
    for _ in 0..100_000 {
        if wr_any(fd, 2048) <= 0 {
            break;
        }
    }
    for _ in 0..10_000 {
        if wr_any(fd, 1) <= 0 {
            break;
        }
    }
}

pub const NACT: u32 = 10;
pub const ACT_NAMES: [&str; 10] = [
    "far-write",
    "near-read-all",
    "near-fill",
    "far-drain",
    "near-read-1",
    "far-write-big",
    "far-shutdown-wr",
    "far-close",
    "oob",
    "near-shutdown-wr",
];

/// Performs an action; true if it may have touched the source at all.
pub fn act(s: &mut Source, a: u32) -> bool {
    s.changed |= s.tampered();
    let (fd, fl) = (s.fd(), s.flags.0);
    let blocking = s.kind != Kind::Nested && fl & libc::O_NONBLOCK == 0;
    if blocking {
        unsafe { libc::fcntl(fd, libc::F_SETFL, fl | libc::O_NONBLOCK) };
    }
    let r = act_now(s, a);
    if blocking {
        unsafe { libc::fcntl(fd, libc::F_SETFL, fl) };
    }
    r
}

fn act_now(s: &mut Source, a: u32) -> bool {
    let near = s.fd();
    let far = s.far.as_ref().map(|f| f.as_raw_fd());
    let tcp = s.kind == Kind::Tcp;
    match (s.kind, a) {
        (Kind::Listener, 0 | 5) => {
            let c = connect(&s.addr.unwrap());
            s.extra.push(c);
            sys::poll1(near, IN, 1000);
        }
        (Kind::Listener, 1 | 4 | 3) => loop {
            let r = unsafe { libc::accept(near, std::ptr::null_mut(), std::ptr::null_mut()) };
            if r < 0 {
                break;
            }
            unsafe { libc::close(r) };
            if a == 4 {
                break;
            }
        },
        (Kind::Listener | Kind::FreshTcp | Kind::Refused | Kind::Nested, _) => return false,
        (Kind::Event, 0 | 5) => {
            let v = 1u64;
            unsafe { libc::write(near, &v as *const u64 as *const _, 8) };
        }
        (Kind::Event, 1 | 4 | 3) => {
            let mut v = 0u64;
            unsafe { libc::read(near, &mut v as *mut u64 as *mut _, 8) };
        }
        (Kind::Event, 2) => {
            let v = u64::MAX - 1;
            let mut x = 0u64;
            unsafe { libc::read(near, &mut x as *mut u64 as *mut _, 8) };
            unsafe { libc::write(near, &v as *const u64 as *const _, 8) };
        }
        (Kind::Event, _) => return false,
        (Kind::PipeW, 0 | 5 | 1 | 4 | 6 | 8 | 9) => return false,
        (Kind::PipeR, 2 | 3 | 6 | 8 | 9) => return false,
        (_, 0) => match far {
            Some(f) => {
                let r = wr_any(f, 3);
                if tcp && r > 0 {
                    sys::poll1(near, IN, 1000);
                }
            }
            None => return false,
        },
        (_, 5) => match far {
            Some(f) => {
                let r = wr_any(f, 900);
                if tcp && r > 0 {
                    sys::poll1(near, IN, 1000);
                }
            }
            None => return false,
        },
        (_, 1) => drain(near),
        (_, 4) => {
            rd(near, 1);
        }
        (Kind::Tcp, 2) => return false,
        (_, 2) => fill(near),
        (_, 3) => match far {
            Some(f) => drain(f),
            None => return false,
        },
        (_, 6) => match far {
            Some(f) => {
                unsafe { libc::shutdown(f, libc::SHUT_WR) };
                if tcp {
                    sys::poll1(near, IN, 1000);
                }
            }
            None => return false,
        },
        (_, 7) => match s.far.take() {
            Some(f) => {
                drop(f);
                if tcp {
                    sys::poll1(near, IN, 1000);
                }
            }
            None => return false,
        },
        (Kind::Unix, 8) => match far {
            Some(f) => {
                unsafe { libc::send(f, b"!".as_ptr() as *const _, 1, libc::MSG_OOB | libc::MSG_NOSIGNAL) };
            }
            None => return false,
        },
        (Kind::Tcp, 8) => match far {
            Some(f) => {
                let r = unsafe { libc::send(f, b"!".as_ptr() as *const _, 1, libc::MSG_OOB | libc::MSG_NOSIGNAL) };
                if r > 0 {
                    sys::poll1(near, PRI, 1000);
                }
            }
            None => return false,
        },
        (_, 9) => {
            unsafe { libc::shutdown(near, libc::SHUT_WR) };
        }
        _ => return false,
    }
    true
}
