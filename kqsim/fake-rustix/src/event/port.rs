//! The API of rustix::event::port (0.38) on the simulated kernel.
use crate::event::PollFlags;
use crate::fd::{AsFd, AsRawFd, OwnedFd};
use crate::io;
use crate::sim;
use std::ffi::c_void;
use std::time::Duration;

#[derive(Debug)]
pub struct Event {
    pub(crate) events: i32,
    pub(crate) object: usize,
    pub(crate) user: usize,
}

impl Event {
    pub fn events(&self) -> i32 {
        self.events
    }
    pub fn object(&self) -> usize {
        self.object
    }
    pub fn userdata(&self) -> *mut c_void {
        self.user as *mut c_void
    }
}

pub fn port_create() -> io::Result<OwnedFd> {
    sim::create(true)
}

/// # Safety
/// As the real one.
pub unsafe fn port_associate_fd(port: impl AsFd, object: impl AsRawFd, events: PollFlags, userdata: *mut c_void) -> io::Result<()> {
    sim::associate(port.as_fd().as_raw_fd(), object.as_raw_fd(), events.bits(), userdata as usize)
}

/// # Safety
/// As the real one.
pub unsafe fn port_dissociate_fd(port: impl AsFd, object: impl AsRawFd) -> io::Result<()> {
    sim::dissociate(port.as_fd().as_raw_fd(), object.as_raw_fd())
}

pub fn port_getn(port: impl AsFd, events: &mut Vec<Event>, min_events: usize, timeout: Option<Duration>) -> io::Result<()> {
    events.clear();
    if events.capacity() == 0 {
        return Ok(());
    }
    let cap = events.capacity();
    let out = sim::getn(port.as_fd().as_raw_fd(), cap, min_events, timeout)?;
    for e in out {
        events.push(e);
    }
    Ok(())
}

pub fn port_get(port: impl AsFd, timeout: Option<Duration>) -> io::Result<Event> {
    let mut v = sim::getn(port.as_fd().as_raw_fd(), 1, 1, timeout)?;
    v.pop().ok_or(io::Errno::TIME)
}

pub fn port_send(port: impl AsFd, events: i32, userdata: *mut c_void) -> io::Result<()> {
    sim::send(port.as_fd().as_raw_fd(), events, userdata as usize)
}
