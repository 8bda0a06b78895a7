//! The simulated kernel: kqueues and event ports over real descriptors, signals and processes that
//! are only told about, and a virtual clock. Behaviour as in kqueue(2) and port_create(3C);
//! see ../../README.md for the points where the systems differ.
use crate::event::kqueue::{Event, EventFilter, EventFlags as EV, ProcessEvents, UserFlags};
use crate::event::{poll, port, PollFd, PollFlags};
use crate::fd::{BorrowedFd, OwnedFd, RawFd, AsRawFd};
use crate::io::Errno;
use std::collections::{HashMap, VecDeque};
use std::sync::Mutex;
use std::time::Duration;

/// What the harness answers when a call would block.
pub enum Act {
    /// Nothing to be done before that time: let the clock run.
    Sleep,
    /// Something was done: look again.
    Again,
    /// A signal handler ran.
    Interrupt,
}

/// What was refused: reading (0), writing (1) or something else (2).
pub type Refused = usize;

/// Called when a wait blocks, with the next time at which it would wake by itself.
pub type Hook = Box<dyn FnMut(Option<u64>) -> Act + Send>;

#[derive(Clone, Debug)]
struct Knote {
    filter: EventFilter,
    flags: EV,
    udata: isize,
    active: bool,
    /// Signals received, timer expirations, triggers.
    count: u64,
    eof: bool,
    next: u64,
    period: u64,
}

#[derive(Clone, Debug)]
struct Assoc {
    fd: RawFd,
    events: u16,
    user: usize,
}

#[derive(Default)]
struct Queue {
    port: bool,
    /// In the order in which they are served.
    notes: VecDeque<Knote>,
    assoc: VecDeque<Assoc>,
    sent: VecDeque<(i32, usize)>,
}

#[derive(Default)]
struct State {
    queues: HashMap<RawFd, Queue>,
    now: u64,
    /// Processes that exist.
    pids: Vec<i32>,
    /// Refuse the addition that comes after so many others.
    refuse: Option<(usize, i32)>,
    refused: Option<Refused>,
    fail_wait: Option<(RawFd, i32)>,
    waits: u32,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static HOOK: Mutex<Option<Hook>> = Mutex::new(None);

fn with<T>(f: impl FnOnce(&mut State) -> T) -> T {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Default::default))
}

pub fn reset() {
    with(|s| *s = State::default());
}
pub fn set_hook(h: Option<Hook>) {
    *HOOK.lock().unwrap_or_else(|e| e.into_inner()) = h;
}
pub fn now() -> u64 {
    with(|s| s.now)
}
pub fn advance(ns: u64) {
    with(|s| {
        s.now += ns;
        s.timers();
    });
}
pub fn refuse(i: usize, errno: i32) {
    with(|s| {
        s.refuse = Some((i, errno));
        s.refused = None;
    });
}
/// Ends that, and tells what was refused.
pub fn unrefuse() -> Option<Refused> {
    with(|s| {
        s.refuse = None;
        s.refused.take()
    })
}
pub fn fail_wait(q: RawFd, errno: i32) {
    with(|s| s.fail_wait = Some((q, errno)));
}
pub fn spawn(pid: i32) {
    with(|s| s.pids.push(pid));
}
/// Calls that entered the kernel to wait.
pub fn waits() -> u32 {
    with(|s| s.waits)
}

/// Something arrived at a descriptor (0: to be read, 1: room to write).
pub fn activity(fd: RawFd, dir: usize) {
    let f = if dir == 0 { EventFilter::Read(fd) } else { EventFilter::Write(fd) };
    with(|s| {
        for q in s.queues.values_mut() {
            for k in q.notes.iter_mut().filter(|k| k.filter == f) {
                k.touch();
            }
        }
    });
}

/// The descriptor is closed: its notes go away.
pub fn closed(fd: RawFd) {
    with(|s| {
        for q in s.queues.values_mut() {
            q.notes.retain(|k| !matches!(k.filter, EventFilter::Read(f) | EventFilter::Write(f) if f == fd));
            q.assoc.retain(|a| a.fd != fd);
        }
    });
}

pub fn signal(sig: i32) {
    with(|s| {
        for q in s.queues.values_mut() {
            for k in q.notes.iter_mut() {
                if matches!(k.filter, EventFilter::Signal { signal, .. } if signal as i32 == sig) {
                    k.count += 1;
                    k.active = true;
                }
            }
        }
    });
}

pub fn process(pid: i32, what: ProcessEvents) {
    with(|s| {
        if what.contains(ProcessEvents::EXIT) {
            s.pids.retain(|p| *p != pid);
        }
        for q in s.queues.values_mut() {
            for k in q.notes.iter_mut() {
                if let EventFilter::Proc { pid: p, flags } = k.filter {
                    if p.as_raw_nonzero().get() == pid {
                        if flags.intersects(what) {
                            k.active = true;
                        }
                        if what.contains(ProcessEvents::EXIT) {
                            k.flags |= EV::ONESHOT;
                            k.eof = true;
                        }
                    }
                }
            }
            q.notes.retain(|k| !(k.eof && !k.active && matches!(k.filter, EventFilter::Proc { pid: p, .. } if p.as_raw_nonzero().get() == pid)));
        }
    });
}

pub fn readiness(fd: RawFd, ask: PollFlags) -> PollFlags {
    let fd = unsafe { BorrowedFd::borrow_raw(fd) };
    let mut p = [PollFd::new(&fd, ask)];
    match poll(&mut p, 0) {
        Ok(_) => p[0].revents(),
        Err(_) => PollFlags::empty(),
    }
}

/// (ready, end of file) of a read (0) or write (1) filter on a socket.
pub fn ready(fd: RawFd, dir: usize) -> (bool, bool) {
    let r = readiness(fd, PollFlags::IN | PollFlags::OUT | PollFlags::RDHUP);
    if dir == 0 {
        let eof = r.intersects(PollFlags::RDHUP | PollFlags::HUP);
        (eof || r.intersects(PollFlags::IN | PollFlags::ERR), eof)
    } else {
        let eof = r.intersects(PollFlags::HUP);
        (eof || r.intersects(PollFlags::OUT | PollFlags::ERR), eof)
    }
}

impl Knote {
    fn state(&self) -> (bool, bool) {
        match self.filter {
            EventFilter::Read(fd) => ready(fd, 0),
            EventFilter::Write(fd) => ready(fd, 1),
            _ => (self.active, self.eof),
        }
    }
    /// Evaluates the filter after something happened.
    fn touch(&mut self) {
        if self.state().0 {
            self.active = true;
        }
    }
}

fn same(a: &EventFilter, b: &EventFilter) -> bool {
    use EventFilter::*;
    match (a, b) {
        (Read(x), Read(y)) | (Write(x), Write(y)) => x == y,
        (Proc { pid: x, .. }, Proc { pid: y, .. }) => x == y,
        (Signal { signal: x, .. }, Signal { signal: y, .. }) => x == y,
        (Timer { ident: x, .. }, Timer { ident: y, .. }) | (User { ident: x, .. }, User { ident: y, .. }) => x == y,
        _ => false,
    }
}

fn nanos(d: Duration) -> u64 {
    u64::try_from(d.as_nanos()).unwrap_or(u64::MAX / 4).min(u64::MAX / 4)
}

fn valid(fd: RawFd) -> bool {
    fd >= 0 && crate::io::fcntl_getfd(unsafe { BorrowedFd::borrow_raw(fd) }).is_ok()
}

impl State {
    fn timers(&mut self) {
        let now = self.now;
        for q in self.queues.values_mut() {
            for k in q.notes.iter_mut() {
                if matches!(k.filter, EventFilter::Timer { .. }) {
                    while k.next <= now {
                        k.active = true;
                        if k.flags.contains(EV::ONESHOT) {
                            k.next = u64::MAX;
                            k.count = 1;
                        } else {
                            let n = (now - k.next) / k.period + 1;
                            k.count += n;
                            k.next = k.next.saturating_add(n.saturating_mul(k.period));
                        }
                    }
                }
            }
        }
    }

    fn change(&mut self, q: RawFd, c: &Event) -> Result<(), Errno> {
        let (now, pids) = (self.now, self.pids.clone());
        let notes = &mut self.queues.get_mut(&q).ok_or(Errno::BADF)?.notes;
        let at = notes.iter().position(|k| same(&k.filter, &c.filter));
        match c.filter {
            EventFilter::Read(fd) | EventFilter::Write(fd) if !valid(fd) => return Err(Errno::BADF),
            EventFilter::Vnode { .. } | EventFilter::Empty(_) | EventFilter::Unknown => return Err(Errno::INVAL),
            _ => {}
        }
        if c.flags.contains(EV::ADD) {
            let i = match at {
                Some(i) => i,
                None => {
                    if let EventFilter::Proc { pid, .. } = c.filter {
                        if !pids.contains(&pid.as_raw_nonzero().get()) {
                            return Err(Errno::SRCH);
                        }
                    }
                    let mut flags = c.flags & (EV::ONESHOT | EV::CLEAR);
                    if matches!(c.filter, EventFilter::Signal { .. } | EventFilter::Timer { .. } | EventFilter::Proc { .. }) {
                        flags |= EV::CLEAR;
                    }
                    notes.push_back(Knote { filter: c.filter, flags, udata: c.udata, active: false, count: 0, eof: false, next: u64::MAX, period: 1 });
                    notes.len() - 1
                }
            };
            let k = &mut notes[i];
            k.udata = c.udata;
            match c.filter {
                EventFilter::Timer { timer, .. } => {
                    k.filter = c.filter;
                    k.period = timer.map_or(u64::MAX / 4, nanos).max(1);
                    k.next = now.saturating_add(k.period);
                    k.active = false;
                    k.count = 0;
                }
                EventFilter::User { flags, .. } => {
                    if flags.contains(UserFlags::TRIGGER) {
                        k.active = true;
                    }
                    if c.flags.contains(EV::CLEAR) && at.is_some() {
                        k.active = false;
                    }
                }
                EventFilter::Proc { .. } => k.filter = c.filter,
                _ => k.touch(),
            }
            Ok(())
        } else if c.flags.contains(EV::DELETE) {
            let i = at.ok_or(Errno::NOENT)?;
            notes.remove(i);
            Ok(())
        } else {
            let i = at.ok_or(Errno::NOENT)?;
            if let EventFilter::User { flags, .. } = c.filter {
                if flags.contains(UserFlags::TRIGGER) {
                    notes[i].active = true;
                }
            }
            Ok(())
        }
    }

    /// What the queue has to report now.
    fn scan(&mut self, q: RawFd, cap: usize) -> Vec<Event> {
        self.timers();
        let Some(queue) = self.queues.get_mut(&q) else { return Vec::new() };
        let mut out = Vec::new();
        for _ in 0..queue.notes.len() {
            if out.len() == cap {
                break;
            }
            let mut k = queue.notes.pop_front().unwrap();
            let (ready, eof) = k.state();
            // What is not cleared is a matter of state alone.
            if matches!(k.filter, EventFilter::Read(_) | EventFilter::Write(_)) && !k.flags.contains(EV::CLEAR) {
                k.active = ready;
            }
            if !(k.active && ready) {
                k.active = false;
                queue.notes.push_back(k);
                continue;
            }
            let mut flags = k.flags;
            if eof {
                flags |= EV::EOF;
            }
            let filter = match k.filter {
                EventFilter::Signal { signal, .. } => EventFilter::Signal { signal, times: k.count as usize },
                // The value that rustix makes of a timer's number of expirations.
                EventFilter::Timer { ident, .. } => EventFilter::Timer { ident, timer: None },
                f => f,
            };
            out.push(Event { filter, flags, data: k.count as i64, udata: k.udata });
            if k.flags.contains(EV::ONESHOT) {
                continue;
            }
            if k.flags.contains(EV::CLEAR) {
                k.active = false;
                k.count = 0;
            }
            queue.notes.push_back(k);
        }
        out
    }

    fn wake(&self, q: RawFd) -> u64 {
        self.queues.get(&q).map_or(u64::MAX, |q| q.notes.iter().map(|k| k.next).min().unwrap_or(u64::MAX))
    }

    fn scan_port(&mut self, q: RawFd, cap: usize) -> Vec<port::Event> {
        let Some(queue) = self.queues.get_mut(&q) else { return Vec::new() };
        let mut out = Vec::new();
        while out.len() < cap {
            let Some((ev, user)) = queue.sent.pop_front() else { break };
            out.push(port::Event { events: ev, object: 0, user });
        }
        for _ in 0..queue.assoc.len() {
            if out.len() == cap {
                break;
            }
            let a = queue.assoc.pop_front().unwrap();
            let r = readiness(a.fd, PollFlags::from_bits_retain(a.events));
            if r.is_empty() {
                queue.assoc.push_back(a);
            } else {
                out.push(port::Event { events: r.bits() as i32, object: a.fd as usize, user: a.user });
            }
        }
        out
    }
}

pub fn create(port: bool) -> crate::io::Result<OwnedFd> {
    let fd = real::event::eventfd(0, real::event::EventfdFlags::empty())?;
    with(|s| s.queues.insert(fd.as_raw_fd(), Queue { port, ..Default::default() }));
    Ok(fd)
}

/// Blocks until `f` finds something, or the time is up.
fn block<T>(q: RawFd, timeout: Option<Duration>, mut f: impl FnMut(&mut State) -> Vec<T>) -> Result<Vec<T>, Errno> {
    let deadline = with(|s| {
        s.waits += 1;
        timeout.map_or(u64::MAX, |d| s.now.saturating_add(nanos(d)))
    });
    loop {
        let (out, now, wake) = with(|s| (f(s), s.now, s.wake(q)));
        if !out.is_empty() || now >= deadline {
            return Ok(out);
        }
        let until = deadline.min(wake);
        let act = match HOOK.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
            Some(h) => h((until != u64::MAX).then_some(until)),
            None => Act::Sleep,
        };
        match act {
            Act::Sleep if until == u64::MAX => panic!("endless wait"),
            Act::Sleep => with(|s| {
                s.now = s.now.max(until);
            }),
            Act::Again => {}
            Act::Interrupt => return Err(Errno::INTR),
        }
    }
}

fn check(q: RawFd, port: bool) -> Result<(), Errno> {
    with(|s| match s.queues.get(&q) {
        Some(x) if x.port == port => Ok(()),
        _ => Err(Errno::BADF),
    })
}

fn failed(q: RawFd) -> Result<(), Errno> {
    with(|s| match s.fail_wait {
        Some((f, e)) if f == q => {
            s.fail_wait = None;
            Err(Errno::from_raw_os_error(e))
        }
        _ => Ok(()),
    })
}

fn refused(s: &mut State, what: Refused) -> Result<(), Errno> {
    match s.refuse {
        Some((0, e)) => {
            s.refuse = None;
            s.refused = Some(what);
            Err(Errno::from_raw_os_error(e))
        }
        Some((n, e)) => {
            s.refuse = Some((n - 1, e));
            Ok(())
        }
        None => Ok(()),
    }
}

pub fn kevent(q: RawFd, changes: &[Event], cap: usize, timeout: Option<Duration>) -> Result<Vec<Event>, Errno> {
    check(q, false)?;
    let mut out = Vec::new();
    for c in changes {
        let r = with(|s| {
            if c.flags.contains(EV::ADD) {
                match c.filter {
                    EventFilter::User { .. } => {}
                    EventFilter::Read(_) => refused(s, 0)?,
                    EventFilter::Write(_) => refused(s, 1)?,
                    _ => refused(s, 2)?,
                }
            }
            s.change(q, c)
        });
        if r.is_err() || c.flags.contains(EV::RECEIPT) {
            if out.len() < cap {
                let data = r.err().map_or(0, |e| e.raw_os_error() as i64);
                out.push(Event { filter: c.filter, flags: c.flags | EV::ERROR, data, udata: c.udata });
            } else {
                r?;
            }
        }
    }
    if !out.is_empty() || cap == 0 {
        return Ok(out);
    }
    failed(q)?;
    block(q, timeout, |s| s.scan(q, cap))
}

pub fn associate(q: RawFd, fd: RawFd, events: u16, user: usize) -> Result<(), Errno> {
    check(q, true)?;
    if !valid(fd) {
        return Err(Errno::BADF);
    }
    with(|s| {
        refused(s, 2)?;
        let a = &mut s.queues.get_mut(&q).unwrap().assoc;
        match a.iter_mut().find(|a| a.fd == fd) {
            Some(x) => *x = Assoc { fd, events, user },
            None => a.push_back(Assoc { fd, events, user }),
        }
        Ok(())
    })
}

pub fn dissociate(q: RawFd, fd: RawFd) -> Result<(), Errno> {
    check(q, true)?;
    with(|s| {
        let a = &mut s.queues.get_mut(&q).unwrap().assoc;
        let i = a.iter().position(|a| a.fd == fd).ok_or(Errno::NOENT)?;
        a.remove(i);
        Ok(())
    })
}

pub fn send(q: RawFd, events: i32, user: usize) -> Result<(), Errno> {
    check(q, true)?;
    with(|s| s.queues.get_mut(&q).unwrap().sent.push_back((events, user)));
    Ok(())
}

pub fn getn(q: RawFd, cap: usize, min: usize, timeout: Option<Duration>) -> Result<Vec<port::Event>, Errno> {
    check(q, true)?;
    failed(q)?;
    if min == 0 {
        return Ok(with(|s| s.scan_port(q, cap)));
    }
    let v = block(q, timeout, |s| s.scan_port(q, cap))?;
    if v.is_empty() {
        return Err(Errno::TIME);
    }
    Ok(v)
}
