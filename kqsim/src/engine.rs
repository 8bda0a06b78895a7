use crate::case::*;
use crate::Outcome;
use polling::{Event, Events, PollMode, Poller};
use rustix::event::PollFlags;
use rustix::sim;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{ErrorKind, Read, Write};
use std::num::NonZeroUsize;
use std::os::unix::io::{AsRawFd, RawFd};
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{mpsc, Arc, Mutex, MutexGuard};
use std::time::Duration;

/// One direction of a registration as the documentation has it.
#[derive(Clone, Copy, Debug, Default)]
struct Dir {
    on: bool,
    mode: u16,
    /// Changed to another mode while enabled: systems differ in what that does.
    unknown: bool,
    /// Certainly still enabled.
    sure: bool,
    /// 0: nothing to report, 1: may be reported, 2: has to be.
    tok: u8,
}

const ONESHOT: u16 = 0;
const LEVEL: u16 = 1;
const EDGE: u16 = 2;
const EDGE_ONESHOT: u16 = 3;
const MODES: [PollMode; 4] = [PollMode::Oneshot, PollMode::Level, PollMode::Edge, PollMode::EdgeOneshot];

impl Dir {
    fn edgy(&self) -> bool {
        self.unknown || self.mode == EDGE || self.mode == EDGE_ONESHOT
    }
    fn enable(&mut self, mode: u16, ready: bool) {
        self.unknown = self.on && (self.unknown || self.mode != mode);
        self.on = true;
        self.sure = true;
        self.mode = mode;
        self.tok = if !self.edgy() || ready { 2 } else { 1 };
    }
    /// Whether it was enabled cannot be told.
    fn blur(&mut self) {
        self.on = true;
        self.unknown = true;
        self.sure = false;
        self.tok = 1;
    }
    fn activity(&mut self, ready: bool) {
        if self.on && self.edgy() {
            self.tok = if ready && self.sure { 2 } else { self.tok.max(1) };
        }
    }
    fn reported(&mut self, fd: bool) {
        if self.unknown {
            self.sure = false;
            self.tok = fd as u8;
            return;
        }
        match self.mode {
            ONESHOT | EDGE_ONESHOT => *self = Dir::default(),
            LEVEL if fd => {}
            _ => self.tok = 0,
        }
    }
}

#[derive(Clone, Debug, Default)]
struct Reg {
    key: usize,
    /// Other keys it may have, after modifications that the system refused half-way.
    alt: Vec<usize>,
    want: [bool; 2],
    d: [Dir; 2],
    /// Timers.
    next: u64,
    period: u64,
    /// Processes.
    what: usize,
    arg: usize,
}

struct Slot {
    me: UnixStream,
    peer: Option<UnixStream>,
}

fn slot() -> Slot {
    let (me, peer) = UnixStream::pair().unwrap();
    for s in [&me, &peer] {
        s.set_nonblocking(true).unwrap();
        let n: libc::c_int = 4096;
        unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_SNDBUF, &n as *const _ as _, 4) };
    }
    Slot { me, peer: Some(peer) }
}

pub struct World {
    pollers: Vec<Arc<Poller>>,
    regs: Vec<BTreeMap<usize, Reg>>,
    notified: Vec<bool>,
    /// A notification that found no room in the last wait's container may end one more.
    left: Vec<bool>,
    waiting: Option<usize>,
    slots: Vec<Slot>,
    alive: [bool; 2],
    labels: BTreeSet<&'static str>,
    log: Vec<String>,
    viol: Option<String>,
    keep_log: bool,
}

type Shared = Arc<Mutex<World>>;

fn lock(w: &Shared) -> MutexGuard<'_, World> {
    w.lock().unwrap_or_else(|e| e.into_inner())
}

fn errno(e: &std::io::Error) -> i32 {
    e.raw_os_error().unwrap_or(0)
}

impl World {
    fn fail(&mut self, m: impl Into<String>) {
        if self.viol.is_none() {
            self.viol = Some(m.into());
        }
    }
    fn say(&mut self, m: impl FnOnce() -> String) {
        if self.keep_log {
            let now = sim::now();
            let m = m();
            self.log.push(format!("[{now} ns] {m}"));
        }
    }
    fn fd(&self, i: usize) -> RawFd {
        self.slots[i].me.as_raw_fd()
    }
    fn hup(&self, i: usize) -> bool {
        sim::readiness(self.fd(i), PollFlags::IN).intersects(PollFlags::HUP | PollFlags::ERR)
    }
    fn ready(&self, i: usize, dir: usize) -> bool {
        if KQ {
            sim::ready(self.fd(i), dir).0
        } else {
            let ask = if dir == 0 { PollFlags::IN | PollFlags::PRI } else { PollFlags::OUT };
            !sim::readiness(self.fd(i), ask).is_empty()
        }
    }

    /// Timers that have run out by now.
    fn tick(&mut self) {
        let now = sim::now();
        for m in self.regs.iter_mut() {
            for (i, r) in m.iter_mut() {
                if *i < SLOTS || *i >= SLOTS + 2 || now < r.next {
                    continue;
                }
                let d = &mut r.d[0];
                if d.on {
                    d.tok = if d.sure { 2 } else { d.tok.max(1) };
                }
                let once = !d.unknown && (d.mode == ONESHOT || d.mode == EDGE_ONESHOT);
                r.next = if once { u64::MAX } else { r.next + ((now - r.next) / r.period + 1) * r.period };
            }
        }
    }

    /// (has to be reported, may be reported)
    fn dir(&self, p: usize, i: usize, dir: usize) -> (bool, bool) {
        let r = &self.regs[p][&i];
        if i >= SLOTS {
            let d = r.d[0];
            return (dir == 0 && d.on && d.sure && d.tok == 2, dir == 0 && d.on && d.tok >= 1);
        }
        if KQ {
            let (d, rd) = (r.d[dir], self.ready(i, dir));
            (d.on && d.sure && d.tok == 2 && rd, d.on && d.tok >= 1 && rd)
        } else {
            let rd = self.ready(i, dir);
            (r.d[0].on && (self.hup(i) || rd && r.want[dir]), r.d[0].on && (self.hup(i) || rd && r.want[dir]))
        }
    }

    fn due(&mut self, p: usize) -> Option<String> {
        if self.notified[p] {
            return Some("it was notified".into());
        }
        self.tick();
        for i in self.regs[p].keys() {
            for dir in 0..2 {
                if self.dir(p, *i, dir).0 {
                    return Some(format!("{} is due for {}", name(*i), ["reading", "writing"][dir]));
                }
            }
        }
        None
    }

    fn activity(&mut self, i: usize, dir: usize) {
        sim::activity(self.fd(i), dir);
        let rd = self.ready(i, dir);
        for m in self.regs.iter_mut() {
            if let Some(r) = m.get_mut(&i) {
                r.d[dir].activity(rd);
            }
        }
    }

    fn outcome(&mut self, what: &str, r: std::io::Result<()>, want: Result<(), i32>) -> bool {
        // Negative: an ErrorKind without number.
        let ok = match (&r, want) {
            (Ok(()), Ok(())) => true,
            (Err(e), Err(-1)) => e.kind() == ErrorKind::AlreadyExists,
            (Err(e), Err(-2)) => e.kind() == ErrorKind::NotFound,
            (Err(e), Err(-3)) => e.kind() == ErrorKind::InvalidInput,
            (Err(e), Err(-4)) => e.kind() == ErrorKind::Unsupported,
            (Err(e), Err(n)) => errno(e) == n,
            _ => false,
        };
        self.say(|| format!("  -> {r:?}"));
        if !ok {
            let w = match want {
                Ok(()) => "success".to_string(),
                Err(-1) => "AlreadyExists".into(),
                Err(-2) => "NotFound".into(),
                Err(-3) => "InvalidInput".into(),
                Err(-4) => "Unsupported".into(),
                Err(n) => format!("the system's error {n}"),
            };
            self.fail(format!("{what} gives {r:?} instead of {w}"));
        }
        ok
    }

    fn register(&mut self, op: Op) {
        let (code, p, i) = (op[0] & 63, (op[1] & 1) as usize, (op[1] >> 1) as usize % SLOTS);
        let mode = (op[2] & 3) * ((op[2] >> 2 & 1) | (op[2] >> 3 & 1));
        let want = [op[2] & 16 != 0, op[2] & 32 != 0];
        let bad_key = op[2] >> 6 & 31 == 31;
        let key = if bad_key { usize::MAX } else { key((op[2] >> 6) as usize, i) };
        let refuse = (op[3] & 7 == 7).then(|| ((op[3] >> 3 & 1) as usize, ERRNOS[(op[3] >> 4 & 3) as usize]));
        let ev = Event::new(key, want[0], want[1]);
        let poller = self.pollers[p].clone();
        self.say(|| format!("{} poller {p} {} key {key:#x} read {} write {} {:?}{}", NAMES[code as usize], name(i), want[0], want[1], MODES[mode as usize],
            refuse.map_or(String::new(), |(n, e)| format!(", addition {n} refused with {e}"))));
        if let Some((n, e)) = refuse {
            sim::refuse(if KQ { n } else { 0 }, e);
        }
        let me = &self.slots[i].me;
        let r = match code {
            ADD => unsafe { if mode == ONESHOT && op[3] & 64 != 0 { poller.add(me, ev) } else { poller.add_with_mode(me, ev, MODES[mode as usize]) } },
            MODIFY => if mode == ONESHOT && op[3] & 64 != 0 { poller.modify(me, ev) } else { poller.modify_with_mode(me, ev, MODES[mode as usize]) },
            _ => poller.delete(me),
        };
        let refused = sim::unrefuse();
        let err = refused.map(|_| refuse.unwrap().1);
        if refused.is_some() {
            self.labels.insert("refused");
        }
        if self.waiting == Some(p) {
            self.labels.insert("registration during wait");
        }
        let had = self.regs[p].contains_key(&i);
        if code == DELETE {
            let want = if KQ && !had { Err(-2) } else { Ok(()) };
            self.outcome("delete", r, want);
            self.regs[p].remove(&i);
            return;
        }
        let what = NAMES[code as usize];
        if bad_key {
            self.outcome(what, r, Err(-3));
            return;
        }
        if !KQ {
            if mode != ONESHOT {
                self.outcome(what, r, Err(-4));
            } else if let Some(e) = err {
                self.outcome(what, r, Err(e));
            } else if self.outcome(what, r, Ok(())) {
                let d = Dir { on: true, mode, unknown: false, sure: true, tok: 2 };
                if had {
                    self.labels.insert("modified");
                }
                self.regs[p].insert(i, Reg { key, want, d: [d; 2], ..Default::default() });
            }
            return;
        }
        if code == ADD && had {
            self.outcome(what, r, Err(-1));
            return;
        }
        if code == MODIFY && !had {
            self.outcome(what, r, Err(-2));
            return;
        }
        if let Some(e) = err {
            if e == 2 || e == 32 {
                // Taken as success by design: that direction stays off.
                if !self.outcome(what, r, Ok(())) {
                    return;
                }
            } else {
                if self.outcome(what, r, Err(e)) && had {
                    // Half of it may have been done.
                    let x = self.regs[p].get_mut(&i).unwrap();
                    x.alt.push(key);
                    x.d.iter_mut().for_each(Dir::blur);
                }
                return;
            }
        } else if !self.outcome(what, r, Ok(())) {
            return;
        }
        if had {
            self.labels.insert("modified");
        }
        let rd = [self.ready(i, 0), self.ready(i, 1)];
        let x = self.regs[p].entry(i).or_default();
        let old = if had { x.key } else { key };
        (x.key, x.want) = (key, want);
        if refused.is_none() {
            x.alt.clear();
        }
        for dir in 0..2 {
            if want[dir] {
                x.d[dir].enable(mode, rd[dir]);
            } else {
                x.d[dir] = Dir::default();
            }
            if refused == Some(dir) {
                x.d[dir].blur();
                x.alt.push(old);
            }
        }
    }

    fn filter(&mut self, op: Op) {
        if !KQ {
            return;
        }
        let (code, p, f) = (op[0] & 63, (op[1] & 1) as usize, (op[1] >> 1) as usize % FILTERS);
        let i = SLOTS + f;
        let mode = op[2] & 3;
        let key = key((op[2] >> 6) as usize, i);
        let arg = (op[2] >> 2 & 15) as usize;
        let refuse = (op[3] & 7 == 7 && code != FDELETE).then(|| ERRNOS[(op[3] >> 4 & 1) as usize]);
        let poller = self.pollers[p].clone();
        self.say(|| format!("{} poller {p} {} argument {arg} key {key:#x} {:?}{}", NAMES[code as usize], name(i), MODES[mode as usize],
            refuse.map_or(String::new(), |e| format!(", refused with {e}"))));
        if let Some(e) = refuse {
            sim::refuse(0, e);
        }
        self.tick();
        let r = filter_op(&poller, (code - FADD) as usize, f, arg, key, MODES[mode as usize]);
        let refused = sim::unrefuse().is_some();
        if refused {
            self.labels.insert("refused");
        }
        if self.waiting == Some(p) {
            self.labels.insert("registration during wait");
        }
        let had = self.regs[p].get(&i).cloned();
        let what = NAMES[code as usize];
        let dead = f >= 4 && !self.alive[f - 4];
        match (code, &had) {
            (FDELETE, _) => {
                self.outcome(what, r, if had.is_some() { Ok(()) } else { Err(-2) });
                self.regs[p].remove(&i);
                return;
            }
            (FADD, Some(_)) => {
                self.outcome(what, r, Err(-1));
                return;
            }
            (FMODIFY, None) => {
                self.outcome(what, r, Err(-2));
                return;
            }
            _ => {}
        }
        if refused {
            self.outcome(what, r, Err(refuse.unwrap()));
            return;
        }
        let d = had.as_ref().map_or(Dir::default(), |r| r.d[0]);
        if dead && !d.on {
            self.outcome(what, r, Err(3));
            self.labels.insert("dead process");
            return;
        }
        if dead && !d.sure && matches!(&r, Err(e) if errno(e) == 3) {
            return;
        }
        if !self.outcome(what, r, Ok(())) {
            return;
        }
        let x = self.regs[p].entry(i).or_default();
        x.key = key;
        let pending = d.on && d.tok > 0;
        x.d[0].enable(mode, false);
        if dead {
            x.d[0].sure = d.sure;
        }
        x.d[0].tok = (pending && f >= 2) as u8;
        x.what = arg % 3;
        x.arg = arg;
        if f < 2 {
            x.period = PERIODS[arg % PERIODS.len()].as_nanos() as u64;
            x.next = sim::now() + x.period;
        }
    }

    fn io(&mut self, op: Op) {
        let (code, i) = (op[0] & 63, op[1] as usize % SLOTS);
        self.say(|| format!("{} {}", NAMES[code as usize], name(i)));
        match code {
            FEED => {
                let n = 1 + (op[2] as usize % 5) * 100;
                if let Some(mut s) = self.slots[i].peer.as_ref() {
                    if s.write(&vec![7; n]).is_ok() {
                        self.activity(i, 0);
                    }
                }
            }
            DRAIN => {
                let mut b = [0; 4096];
                while matches!((&self.slots[i].me).read(&mut b), Ok(n) if n > 0) {}
            }
            FILL => while (&self.slots[i].me).write(&[1; 1024]).is_ok() {},
            UNFILL => {
                let mut any = false;
                let mut b = [0; 4096];
                if let Some(mut s) = self.slots[i].peer.as_ref() {
                    while matches!(s.read(&mut b), Ok(n) if n > 0) {
                        any = true;
                    }
                }
                if any {
                    self.activity(i, 1);
                }
            }
            SHUT => {
                if let Some(s) = self.slots[i].peer.as_ref() {
                    let _ = s.shutdown(std::net::Shutdown::Write);
                    self.activity(i, 0);
                }
            }
            CLOSE => {
                if self.slots[i].peer.take().is_some() {
                    self.labels.insert("hang-up");
                    self.activity(i, 0);
                    self.activity(i, 1);
                }
            }
            _ => {
                if self.regs.iter().all(|m| !m.contains_key(&i)) {
                    let fd = self.fd(i);
                    self.slots.remove(i);
                    sim::closed(fd);
                    self.slots.insert(i, slot());
                }
            }
        }
    }

    fn raise(&mut self, f: usize, what: usize) {
        let i = SLOTS + f;
        for m in self.regs.iter_mut() {
            if let Some(r) = m.get_mut(&i) {
                let d = &mut r.d[0];
                if d.on && (f < 4 || r.what == what) {
                    d.tok = if d.sure { 2 } else { d.tok.max(1) };
                } else if d.on && f >= 4 && what == 0 && d.tok == 0 {
                    *d = Dir::default();
                }
            }
        }
    }

    /// Everything but wait.
    fn step(&mut self, op: Op) {
        let code = op[0] & 63;
        match code {
            ADD | MODIFY | DELETE => self.register(op),
            FEED..=RENEW => self.io(op),
            NOTIFY => {
                let p = (op[1] & 1) as usize;
                self.say(|| format!("notify poller {p}"));
                let r = self.pollers[p].clone().notify();
                self.outcome("notify", r, Ok(()));
                if self.waiting == Some(p) {
                    self.labels.insert("notified during wait");
                }
                self.notified[p] = true;
            }
            FADD..=FDELETE => self.filter(op),
            SIGNAL => {
                let s = (op[1] & 1) as usize;
                self.say(|| format!("signal {}", SIGNALS[s]));
                sim::signal(SIGNALS[s]);
                self.raise(2 + s, 0);
            }
            PROCESS => {
                use rustix::event::kqueue::ProcessEvents as PE;
                let (s, what) = ((op[1] & 1) as usize, (op[2] % 3) as usize);
                if self.alive[s] {
                    self.say(|| format!("process {}: {}", PIDS[s], ["exit", "fork", "exec"][what]));
                    sim::process(PIDS[s], [PE::EXIT, PE::FORK, PE::EXEC][what]);
                    self.raise(4 + s, what);
                    if what == 0 {
                        self.alive[s] = false;
                    }
                }
            }
            SPAWN => {
                let s = (op[1] & 1) as usize;
                let free = self.regs.iter().all(|m| !m.contains_key(&(SLOTS + 4 + s)));
                if !self.alive[s] && free {
                    self.say(|| format!("process {} starts", PIDS[s]));
                    self.alive[s] = true;
                    sim::spawn(PIDS[s]);
                }
            }
            ADVANCE if self.waiting.is_none() => {
                let d = DELAYS[(op[1] & 7) as usize];
                self.say(|| format!("{d} ns pass"));
                sim::advance(d);
            }
            WAIT2 | WAIT => {
                if let Some(p) = self.waiting {
                    let poller = self.pollers[p].clone();
                    self.say(|| format!("another wait on poller {p}"));
                    let mut e = Events::new();
                    let r = poller.wait(&mut e, TIMEOUTS[op[2] as usize % TIMEOUTS.len()]);
                    self.labels.insert("second waiter");
                    if !matches!(r, Ok(0)) || !e.is_empty() {
                        self.fail(format!("a second wait on a poller gives {r:?} and {} events", e.len()));
                    }
                }
            }
            DROP if self.waiting.is_none() => {
                let p = (op[1] & 1) as usize;
                self.say(|| format!("poller {p} is dropped and created again"));
                self.regs[p].clear();
                self.notified[p] = false;
                self.left[p] = false;
                let old = self.pollers.remove(p);
                let fd = old.as_raw_fd();
                drop(old);
                if unsafe { libc::fcntl(fd, libc::F_GETFD) } != -1 {
                    self.fail("the poller's descriptor is still open after the drop");
                }
                self.pollers.insert(p, create());
            }
            _ => {}
        }
    }

    /// Judges what a wait has returned.
    fn judge(&mut self, p: usize, n: usize, events: &mut Events, cap: usize, t0: u64, timeout: Option<Duration>) {
        let now = sim::now();
        self.tick();
        let list: Vec<Event> = events.iter().collect();
        if self.keep_log {
            let t: Vec<_> = list.iter().map(|e| format!("{:#x}{}{}", e.key, if e.readable { " r" } else { "" }, if e.writable { " w" } else { "" })).collect();
            self.say(|| format!("  -> {n} events [{}]", t.join(", ")));
        }
        if n != list.len() || events.len() != n || events.is_empty() != (n == 0) {
            return self.fail(format!("wait says {n} events, the container has {} (len {}, is_empty {})", list.len(), events.len(), events.is_empty()));
        }
        if n > cap {
            return self.fail(format!("{n} events in a container of {cap}"));
        }
        let told = std::mem::replace(&mut self.notified[p], false);
        let left = std::mem::replace(&mut self.left[p], false);
        self.left[p] = (told || left) && n >= cap;
        let notified = told || left;
        if let Some(t) = timeout {
            let end = t0.saturating_add(t.as_nanos().min(1 << 62) as u64);
            if now > end.saturating_add(1_000_000) {
                return self.fail(format!("the wait returned at {now} ns; it should have by {end} ns"));
            }
            if n == 0 && !notified && now < end {
                return self.fail(format!("the wait returned nothing {} ns before its timeout", end - now));
            }
            if n == 0 && !notified && now > t0 {
                self.labels.insert("timed out");
            }
        } else if n == 0 && !notified {
            return self.fail("a wait without timeout returned nothing");
        }
        if notified {
            self.labels.insert("notified");
        }
        // (reads, writes, both in one) per registration
        let mut seen: BTreeMap<usize, (usize, usize, usize)> = BTreeMap::new();
        for e in &list {
            let Some((&i, r)) = self.regs[p].iter().find(|(_, r)| r.key == e.key || r.alt.contains(&e.key)) else {
                return self.fail(format!("an event with key {:#x}, which no registration has", e.key));
            };
            let r = r.clone();
            if !e.readable && !e.writable {
                return self.fail(format!("an event for {} that is neither readable nor writable", name(i)));
            }
            let x = seen.entry(i).or_default();
            match (e.readable, e.writable) {
                (true, true) => x.2 += 1,
                (true, false) => x.0 += 1,
                _ => x.1 += 1,
            }
            if KQ {
                if e.is_interrupt() || e.is_priority() || e.is_err().is_some() || e.is_connect_failed().is_some() {
                    return self.fail(format!("the event of {} claims extra information", name(i)));
                }
            } else {
                let is = sim::readiness(self.fd(i), PollFlags::IN);
                let (hup, err) = (is.contains(PollFlags::HUP), is.contains(PollFlags::ERR));
                if (e.is_interrupt(), e.is_priority(), e.is_err(), e.is_connect_failed()) == (hup, false, Some(err), Some(hup && err)) {
                    // as it should be
                } else {
                return self.fail(format!("the extra information of {} is wrong: {e:?}", name(i)));
                }
            }
            let eof = i < SLOTS && (self.hup(i) || KQ && sim::ready(self.fd(i), 0).1);
            for dir in 0..2 {
                if ![e.readable, e.writable][dir] {
                    continue;
                }
                // The end of a stream is reported in both directions.
                if KQ && dir == 1 && e.readable && eof {
                    continue;
                }
                if !self.dir(p, i, dir).1 {
                    let why = if i < SLOTS && !self.ready(i, dir) { "it is not ready" } else { "that was not asked for, or has been reported" };
                    return self.fail(format!("{} is reported for {}, but {why} ({:?})", name(i), ["reading", "writing"][dir], r.d[dir]));
                }
            }
        }
        let full = n + notified as usize >= cap;
        let keys: Vec<usize> = self.regs[p].keys().copied().collect();
        for i in keys {
            let (a, b, c) = seen.get(&i).copied().unwrap_or_default();
            if a + c > 1 || b + c > 1 && !(KQ && i < SLOTS && b == 1) || !KQ && a + b + c > 1 {
                return self.fail(format!("{} is reported more than once in one wait", name(i)));
            }
            let got = [a + c > 0, b + c > 0];
            for dir in 0..2 {
                if self.dir(p, i, dir).0 && !got[dir] && !full {
                    return self.fail(format!("{} is due for {} and the wait does not report it", name(i), ["reading", "writing"][dir]));
                }
            }
            let dead = i >= SLOTS + 4 && !self.alive[i - SLOTS - 4];
            let may_write = self.dir(p, i, 1).1;
            let r = self.regs[p].get_mut(&i).unwrap();
            if !KQ {
                if a + b + c > 0 {
                    r.d = Default::default();
                }
            } else {
                if got[0] {
                    r.d[0].reported(i < SLOTS);
                    if dead {
                        r.d[0] = Dir::default();
                    }
                }
                if b > 0 {
                    r.d[1].reported(true);
                } else if c > 0 && may_write && i < SLOTS {
                    // One event for both, or the end of the stream alone.
                    if full {
                        r.d[1].sure = false;
                        r.d[1].unknown = true;
                        r.d[1].tok = 1;
                    } else {
                        r.d[1].reported(true);
                        if r.d[1].on && r.d[1].mode != LEVEL || !r.d[1].on {
                            r.d[1].blur();
                        }
                    }
                }
            }
            if a + b + c > 0 {
                self.labels.insert(if i >= SLOTS + 4 { "process event" } else if i >= SLOTS + 2 { "signal event" } else if i >= SLOTS { "timer event" } else { "event" });
                if b > 0 && a > 0 {
                    self.labels.insert("both directions");
                }
            }
        }
        if full && n > 0 {
            self.labels.insert("full buffer");
        }
        events.clear();
        if !events.is_empty() || events.len() != 0 || events.iter().next().is_some() {
            self.fail("clear leaves events behind");
        }
    }
}

fn name(i: usize) -> String {
    if i < SLOTS {
        format!("socket {i}")
    } else if i < SLOTS + 2 {
        format!("timer {}", i - SLOTS)
    } else if i < SLOTS + 4 {
        format!("signal {}", i - SLOTS - 2)
    } else {
        format!("process {}", i - SLOTS - 4)
    }
}

fn create() -> Arc<Poller> {
    Arc::new(Poller::new().expect("Poller::new"))
}

type Job = (Shared, Op, Arc<AtomicBool>);

/// Runs the operation in another thread while this one is in wait.
fn elsewhere(tx: &mpsc::Sender<Job>, w: &Shared, op: Op) {
    let done = Arc::new(AtomicBool::new(false));
    tx.send((w.clone(), op, done.clone())).unwrap();
    let t = crate::real_ns();
    let mut n = 0;
    while !done.load(Ordering::SeqCst) {
        n += 1;
        if n < 2000 {
            std::thread::yield_now();
        } else {
            unsafe { libc::usleep(50) };
            if crate::real_ns() - t > 10_000_000_000 {
                panic!("{} from another thread does not return while a wait is blocked", NAMES[(op[0] & 63) as usize % NAMES.len()]);
            }
        }
    }
}

fn wait(w: &Shared, tx: &mpsc::Sender<Job>, op: Op, during: &[Op]) {
    let p = (op[1] & 1) as usize;
    let timeout = TIMEOUTS[op[2] as usize % TIMEOUTS.len()];
    let cap = CAPS[(op[3] & 7) as usize];
    let fail = op[3] & 0x78 == 0x78;
    let queue = Arc::new(Mutex::new(during.iter().copied().collect::<VecDeque<Op>>()));
    let poller = {
        let mut g = lock(w);
        g.say(|| format!("wait on poller {p}, timeout {timeout:?}, capacity {cap}{}", if fail { ", which the system fails" } else { "" }));
        g.waiting = Some(p);
        g.pollers[p].clone()
    };
    let t0 = sim::now();
    let before = sim::waits();
    let end = timeout.map_or(u64::MAX, |d| t0.saturating_add(d.as_nanos().min(1 << 62) as u64));
    if fail {
        sim::fail_wait(poller.as_raw_fd(), 12);
    }
    {
        let (w, tx, queue, poller) = (w.clone(), tx.clone(), queue.clone(), poller.clone());
        sim::set_hook(Some(Box::new(move |next| {
            let now = sim::now();
            {
                let mut g = lock(&w);
                if g.viol.is_some() {
                    panic!("stop");
                }
                if let Some(why) = g.due(p) {
                    panic!("the wait stays blocked although {why}");
                }
                g.labels.insert("blocked");
            }
            if end < 1 << 61 && next.map_or(true, |n| n > end + 1_000_000) {
                panic!("the wait will not end at {end} ns, when its timeout is over, but {next:?}");
            }
            let forever = next.map_or(true, |n| n > 1 << 61);
            let mut q = queue.lock().unwrap();
            match q.front().copied() {
                Some(op) => {
                    let dt = DELAYS[(op[3] >> 8 & 7) as usize];
                    if !forever && now + dt >= next.unwrap() {
                        return sim::Act::Sleep;
                    }
                    q.pop_front();
                    drop(q);
                    sim::advance(dt);
                    if op[0] & 63 == INTERRUPT {
                        let mut g = lock(&w);
                        g.say(|| "a signal handler runs".into());
                        g.labels.insert("interrupted");
                        return sim::Act::Interrupt;
                    }
                    elsewhere(&tx, &w, op);
                    sim::Act::Again
                }
                None if forever => {
                    let mut g = lock(&w);
                    g.say(|| "nothing left to happen: notify".into());
                    g.notified[p] = true;
                    drop(g);
                    if let Err(e) = poller.notify() {
                        panic!("notify fails: {e}");
                    }
                    sim::Act::Again
                }
                None => sim::Act::Sleep,
            }
        })));
    }
    let mut events = Events::with_capacity(NonZeroUsize::new(cap).unwrap());
    let r = poller.wait(&mut events, timeout);
    sim::set_hook(None);
    let mut g = lock(w);
    g.waiting = None;
    if events.capacity().get() < cap {
        g.fail("the container has less than the capacity asked for");
    }
    if g.viol.is_none() {
        match r {
            Ok(_) if fail => g.fail("the system failed the wait, which returned Ok"),
            Err(e) if fail => {
                g.labels.insert("failed wait");
                g.say(|| format!("  -> {e:?}"));
                if errno(&e) != 12 {
                    g.fail(format!("the system failed the wait with error 12, which returned {e:?}"));
                }
            }
            Err(e) => g.fail(format!("wait fails: {e:?}")),
            Ok(n) => {
                let c = events.capacity().get();
                g.judge(p, n, &mut events, c, t0, timeout);
                if sim::waits() - before > 2 + during.len() as u32 * 2 {
                    g.fail("the wait keeps the processor busy");
                }
            }
        }
    }
    drop(g);
    drop(poller);
    let rest: Vec<Op> = queue.lock().unwrap().drain(..).collect();
    for op in rest {
        lock(w).step(op);
    }
}

/// The socket of an operation.
fn used(op: &Op) -> usize {
    match op[0] & 63 {
        ADD | MODIFY | DELETE => (op[1] >> 1) as usize % SLOTS,
        FEED..=RENEW => op[1] as usize % SLOTS,
        _ => 0,
    }
}

fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count())
}

pub fn run(ops: &[Op], keep_log: bool) -> Outcome {
    sim::reset();
    let fds0 = fds();
    if let Err(e) = Poller::new() {
        return Outcome { viol: Some(format!("a poller cannot be created: {e:?}")), log: Vec::new(), labels: BTreeSet::new(), hang: false };
    }
    let w: Shared = Arc::new(Mutex::new(World {
        pollers: vec![create(), create()],
        regs: vec![BTreeMap::new(), BTreeMap::new()],
        notified: vec![false; 2],
        left: vec![false; 2],
        waiting: None,
        slots: (0..=ops.iter().map(used).max().unwrap_or(0)).map(|_| slot()).collect(),
        alive: [true; 2],
        labels: BTreeSet::new(),
        log: Vec::new(),
        viol: None,
        keep_log,
    }));
    PIDS.iter().for_each(|p| sim::spawn(*p));
    {
        let mut g = lock(&w);
        let p = g.pollers[0].clone();
        if p.supports_level() != KQ || p.supports_edge() != KQ {
            g.fail("supports_level or supports_edge is wrong");
        }
        for p in g.pollers.clone() {
            let f = unsafe { libc::fcntl(p.as_raw_fd(), libc::F_GETFD) };
            if f & libc::FD_CLOEXEC == 0 {
                g.fail("the poller's descriptor is not close-on-exec");
            }
        }
    }
    let (tx, rx) = mpsc::channel::<Job>();
    let worker = ops.iter().any(|o| o[0] & DURING != 0).then(|| std::thread::spawn(move || {
        for (w, op, done) in rx {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lock(&w).step(op)));
            if r.is_err() {
                lock(&w).fail(format!("{} panics", NAMES[(op[0] & 63) as usize % NAMES.len()]));
            }
            drop(w);
            done.store(true, Ordering::SeqCst);
        }
    }));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut i = 0;
        while i < ops.len() && lock(&w).viol.is_none() {
            let op = ops[i];
            i += 1;
            if op[0] & 63 == WAIT {
                let mut j = i;
                while j < ops.len() && ops[j][0] & DURING != 0 && ops[j][0] & 63 != WAIT {
                    j += 1;
                }
                wait(&w, &tx, op, &ops[i..j]);
                i = j;
            } else {
                lock(&w).step(op);
            }
        }
    }));
    sim::set_hook(None);
    drop(tx);
    let mut hang = false;
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
        if m != "stop" {
            hang = m.contains("does not return");
            if hang {
                unsafe { libc::usleep(100_000) };
            }
            lock(&w).fail(m);
        }
    }
    if !hang {
        worker.map(|w| w.join());
    }
    let mut g = lock(&w);
    let out = (g.viol.take(), std::mem::take(&mut g.log), std::mem::take(&mut g.labels));
    g.pollers.clear();
    g.slots.clear();
    drop(g);
    drop(w);
    let (mut viol, log, labels) = out;
    let f = fds();
    if viol.is_none() && f != fds0 {
        viol = Some(format!("{fds0} descriptors are open before the case, {f} after it"));
    }
    Outcome { viol, log, labels, hang }
}
