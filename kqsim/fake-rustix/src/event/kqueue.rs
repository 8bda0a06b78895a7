//! The API of rustix::event::kqueue (0.38) on the simulated kernel.
use crate::fd::{AsFd, AsRawFd, OwnedFd, RawFd};
use crate::io;
use crate::process::{Pid, Signal};
use crate::sim;
use std::time::Duration;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
#[non_exhaustive]
pub enum EventFilter {
    Read(RawFd),
    Write(RawFd),
    Empty(RawFd),
    Vnode { vnode: RawFd, flags: VnodeEvents },
    Proc { pid: Pid, flags: ProcessEvents },
    Signal { signal: Signal, times: usize },
    Timer { ident: isize, timer: Option<Duration> },
    User { ident: isize, flags: UserFlags, user_flags: UserDefinedFlags },
    Unknown,
}

#[derive(Copy, Clone, Debug)]
pub struct Event {
    pub(crate) filter: EventFilter,
    pub(crate) flags: EventFlags,
    pub(crate) data: i64,
    pub(crate) udata: isize,
}

impl Event {
    pub fn new(filter: EventFilter, flags: EventFlags, udata: isize) -> Event {
        if filter == EventFilter::Unknown {
            panic!("unknown filter");
        }
        Event { filter, flags, data: 0, udata }
    }
    pub fn flags(&self) -> EventFlags {
        self.flags
    }
    pub fn udata(&self) -> isize {
        self.udata
    }
    pub fn data(&self) -> i64 {
        self.data
    }
    pub fn filter(&self) -> EventFilter {
        self.filter
    }
}

bitflags::bitflags! {
    #[repr(transparent)]
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    pub struct EventFlags: u16 {
        const ADD = 1;
        const DELETE = 2;
        const ENABLE = 4;
        const DISABLE = 8;
        const ONESHOT = 0x10;
        const CLEAR = 0x20;
        const RECEIPT = 0x40;
        const ERROR = 0x4000;
        const EOF = 0x8000;
        const _ = !0;
    }
}

bitflags::bitflags! {
    #[repr(transparent)]
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    pub struct VnodeEvents: u32 {
        const DELETE = 1;
        const WRITE = 2;
        const EXTEND = 4;
        const ATTRIBUTES = 8;
        const LINK = 0x10;
        const RENAME = 0x20;
        const REVOKE = 0x40;
        const _ = !0;
    }
}

bitflags::bitflags! {
    #[repr(transparent)]
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    pub struct ProcessEvents: u32 {
        const EXIT = 0x8000_0000;
        const FORK = 0x4000_0000;
        const EXEC = 0x2000_0000;
        const TRACK = 1;
        const TRACKERR = 2;
        const _ = !0;
    }
}

bitflags::bitflags! {
    #[repr(transparent)]
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    pub struct UserFlags: u32 {
        const NOINPUT = 0;
        const AND = 0x4000_0000;
        const OR = 0x8000_0000;
        const COPY = 0xc000_0000;
        const CTRLMASK = 0xc000_0000;
        const UDFMASK = 0x00ff_ffff;
        const TRIGGER = 0x0100_0000;
        const _ = !0;
    }
}

#[repr(transparent)]
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub struct UserDefinedFlags(u32);

impl UserDefinedFlags {
    pub fn new(flags: u32) -> Self {
        Self(flags & 0x00ff_ffff)
    }
    pub fn get(self) -> u32 {
        self.0
    }
}

pub fn kqueue() -> io::Result<OwnedFd> {
    sim::create(false)
}

/// # Safety
/// As the real one.
pub unsafe fn kevent(kqueue: impl AsFd, changelist: &[Event], eventlist: &mut Vec<Event>, timeout: Option<Duration>) -> io::Result<usize> {
    eventlist.clear();
    let cap = eventlist.capacity();
    let out = sim::kevent(kqueue.as_fd().as_raw_fd(), changelist, cap, timeout)?;
    assert!(out.len() <= cap);
    let n = out.len();
    for e in out {
        eventlist.push(e);
    }
    Ok(n)
}
