//! Runs a case against a reference model.
use crate::case::*;
use concurrent_queue::before_push;
use polling::os::iocp::{CompletionPacket, PollerIocpExt};
use polling::{Event, Events, PollMode, Poller};
use polling_windows as polling;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::ErrorKind;
use std::num::NonZeroUsize;
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::{mpsc, Arc, Mutex, MutexGuard};
use std::time::Duration;
use windows_sys::os::io::{BorrowedHandle, BorrowedSocket, RawHandle, RawSocket};
use windows_sys::sim;

pub struct Outcome {
    pub viol: Option<String>,
    pub log: Vec<String>,
    pub labels: BTreeSet<&'static str>,
    pub hang: bool,
}

const ONESHOT: u16 = 0;
const BAD: u32 = sim::ABORT | sim::CONNECT_FAIL;
const MODES: [PollMode; 4] = [PollMode::Oneshot, PollMode::Level, PollMode::Edge, PollMode::EdgeOneshot];

/// A registration as the documentation has it. Index: waitables, then sockets.
#[derive(Clone, Debug, Default)]
struct Reg {
    key: usize,
    want: [bool; 2],
    mode: u16,
    armed: bool,
    /// The call that made it so has returned.
    sure: bool,
    /// Waitables: 0 nothing to report, 1 may be reported, 2 has to be. Sockets: 1 if a condition asked for has held.
    tok: u8,
    /// Sockets: directions that were ready at some time since the last report.
    was: [bool; 2],
}

struct World {
    pollers: Vec<Arc<Poller>>,
    regs: Vec<BTreeMap<usize, Reg>>,
    /// Packets posted and not yet reported, by key, and what they are.
    posts: Vec<BTreeMap<usize, u32>>,
    packets: Vec<CompletionPacket>,
    notified: Vec<bool>,
    left: Vec<bool>,
    waiting: Option<usize>,
    events: Vec<(usize, bool)>,
    labels: BTreeSet<&'static str>,
    log: Vec<String>,
    viol: Option<String>,
    keep_log: bool,
}

type Shared = Arc<Mutex<World>>;

fn lock(w: &Shared) -> MutexGuard<'_, World> {
    w.lock().unwrap_or_else(|e| e.into_inner())
}

fn name(i: usize) -> String {
    if i < EVENTS {
        format!("event object {i}")
    } else {
        format!("socket {}", i - EVENTS)
    }
}

fn manual(i: usize) -> bool {
    i % 3 != 1
}

fn sock(i: usize) -> RawSocket {
    0x9000 + i as u64 * 4
}

fn interest(key: usize, want: [bool; 2]) -> Event {
    match want {
        [false, false] => Event::none(key),
        [true, false] => Event::readable(key),
        [false, true] => Event::writable(key),
        _ => Event::all(key),
    }
}

enum Call {
    Add(usize),
    Modify(usize),
    Delete(usize),
}

impl World {
    fn fail(&mut self, m: impl Into<String>) {
        if self.viol.is_none() {
            self.viol = Some(m.into());
        }
    }
    fn say(&mut self, m: impl FnOnce() -> String) {
        if self.keep_log {
            let now = sim::now();
            let m = m();
            self.log.push(format!("[{now} ns] {m}"));
        }
    }
    fn handle(&self, i: usize) -> RawHandle {
        self.events[i].0 as RawHandle
    }
    fn ready(&self, s: usize) -> [bool; 2] {
        let c = sim::conditions(sock(s));
        [
            c & (sim::RECEIVE | sim::RECEIVE_EXPEDITED | sim::DISCONNECT | sim::ACCEPT | sim::ABORT | sim::CONNECT_FAIL) != 0,
            c & (sim::SEND | sim::ABORT | sim::CONNECT_FAIL) != 0,
        ]
    }
    /// (has to be reported, may be reported) for reading, writing
    fn dirs(&self, p: usize, i: usize) -> [(bool, bool); 2] {
        let r = &self.regs[p][&i];
        let mut out = [(false, false); 2];
        if !r.armed {
            return out;
        }
        let rd = if i < EVENTS { [false; 2] } else { self.ready(i - EVENTS) };
        for d in 0..2 {
            out[d] = if !r.want[d] {
                (false, false)
            } else if i < EVENTS {
                (r.sure && r.tok == 2, r.tok >= 1)
            } else {
                (r.sure && rd[d], rd[d] || r.was[d])
            };
        }
        out
    }
    fn due(&mut self, p: usize) -> Option<String> {
        if self.notified[p] {
            return Some("it was notified".into());
        }
        if let Some((k, n)) = self.posts[p].iter().next() {
            return Some(format!("{n} of the packets posted with key {k:#x} have not been reported"));
        }
        for i in self.regs[p].keys() {
            for d in 0..2 {
                if self.dirs(p, *i)[d].0 {
                    return Some(format!("{} is due for {}", name(*i), ["reading", "writing"][d]));
                }
            }
        }
        None
    }
    /// The state of an event object or socket has changed, or a registration has.
    fn observe(&mut self, i: usize) {
        for p in 0..self.regs.len() {
            if i < EVENTS {
                let on = sim::signaled(self.handle(i));
                if let Some(r) = self.regs[p].get_mut(&i) {
                    if on && r.armed && (r.want[0] || r.want[1]) {
                        r.tok = 2;
                    }
                }
            } else if self.regs[p].contains_key(&i) {
                let rd = self.ready(i - EVENTS);
                let r = self.regs[p].get_mut(&i).unwrap();
                for d in 0..2 {
                    r.was[d] |= rd[d];
                }
            }
        }
    }

    fn describe(&self, op: Op) -> String {
        format!("{} {} {:#x} {:#x}", NAMES[(op[0] & 63) as usize % NAMES.len()], op[1], op[2], op[3])
    }

    /// Operations that need no care about other threads.
    fn step(&mut self, op: Op) {
        let p = (op[1] & 1) as usize;
        let t = (op[1] >> 1) as usize;
        let d = self.describe(op);
        match op[0] & 63 {
            POST => {
                let k = key((op[2] >> 6) as usize, 100 + self.packets.len() % 60);
                if self.posts.iter().any(|m| m.contains_key(&k)) {
                    return;
                }
                let want = [op[2] & 16 != 0, op[2] & 32 != 0];
                let mut e = interest(k, want);
                e.set_interrupt(op[2] & 1 != 0);
                e.set_priority(op[2] & 2 != 0);
                let pk = CompletionPacket::new(e);
                if *pk.event() != e {
                    self.fail(format!("a packet made of {e:?} says {:?}", pk.event()));
                }
                self.packets.push(pk.clone());
                self.say(|| format!("{d}: {e:?} to poller {p}"));
                if let Err(e) = self.pollers[p].post(pk) {
                    self.fail(format!("post fails: {e:?}"));
                }
                *self.posts[p].entry(k).or_default() += 1;
                self.labels.insert("post");
                if self.waiting == Some(p) {
                    self.labels.insert("posted during wait");
                }
            }
            REPOST => {
                if self.packets.is_empty() {
                    return;
                }
                let n = self.packets.len();
                let pk = self.packets[n - 1 - t % n.min(60)].clone();
                let k = pk.event().key;
                self.say(|| format!("{d}: {:#x} to poller {p}", k));
                if self.posts[1 - p].contains_key(&k) {
                    self.labels.insert("one packet on two pollers");
                }
                if let Err(e) = self.pollers[p].post(pk) {
                    self.fail(format!("post fails: {e:?}"));
                }
                *self.posts[p].entry(k).or_default() += 1;
                self.labels.insert("posted again");
            }
            MANY => {
                // More updates than the queue of updates takes.
                let i = t % SOCKETS + EVENTS;
                let Some(r) = self.regs[p].get(&i).cloned() else { return };
                let n = [10, 1023, 1024, 1030][(op[2] & 3) as usize];
                self.say(|| format!("{d}: {} is modified {n} times", name(i)));
                let ev = interest(r.key, r.want);
                sim::refuse(None);
                for _ in 0..n {
                    let s = unsafe { BorrowedSocket::borrow_raw(sock(i - EVENTS)) };
                    if let Err(e) = self.pollers[p].modify_with_mode(s, ev, MODES[r.mode as usize]) {
                        self.fail(format!("modify fails: {e:?}"));
                        return;
                    }
                }
                let r = self.regs[p].get_mut(&i).unwrap();
                r.armed = true;
                r.sure = true;
                self.observe(i);
                self.labels.insert("many updates");
            }
            SET => {
                let i = t % EVENTS;
                self.say(|| format!("{d}: event object {i} is set"));
                let manual = self.events[i].1;
                let took = sim::set_event(self.handle(i) as _);
                if took {
                    // By which of the waits is the system's choice.
                    let n = self.regs.iter().filter(|m| m.get(&i).map_or(false, |r| r.armed)).count();
                    for m in self.regs.iter_mut() {
                        if let Some(r) = m.get_mut(&i) {
                            if r.armed && (r.want[0] || r.want[1]) {
                                r.tok = r.tok.max(if manual || n == 1 { 2 } else { 1 });
                            } else {
                                // Disabled, but the wait is there, and may end after it is enabled.
                                r.tok = 1;
                            }
                        }
                    }
                } else {
                    self.observe(i);
                }
                if !manual && !took {
                    // The next wait that is registered takes it.
                    for m in self.regs.iter_mut() {
                        if let Some(r) = m.get_mut(&i) {
                            r.tok = r.tok.min(1);
                        }
                    }
                }
                if op[2] & 1 != 0 {
                    while sim::run_callback() {}
                }
            }
            RESET => {
                let i = t % EVENTS;
                self.say(|| format!("{d}: event object {i} is reset"));
                sim::reset_event(self.handle(i) as _);
                for m in self.regs.iter_mut() {
                    if let Some(r) = m.get_mut(&i) {
                        r.tok = r.tok.min(1);
                    }
                }
            }
            CALLBACK => {
                let n = sim::callbacks();
                self.say(|| format!("{d}: {n} callbacks run"));
                sim::flush_cancelled();
                while sim::run_callback() {}
            }
            COND => {
                let s = t % ALL;
                let c = CONDS[(op[2] & 7) as usize];
                // Not judged: a disabled socket in error keeps the wait busy.
                if c & BAD != 0 && self.regs.iter().any(|m| m.get(&(EVENTS + s)).map_or(false, |r| r.want == [false; 2])) {
                    return;
                }
                self.say(|| format!("{d}: socket {s} has the conditions {c:#x}"));
                self.observe(EVENTS + s);
                sim::set_conditions(sock(s), c);
                self.observe(EVENTS + s);
            }
            NOTIFY => {
                self.say(|| format!("{d}: poller {p}"));
                if let Err(e) = self.pollers[p].notify() {
                    self.fail(format!("notify fails: {e:?}"));
                }
                self.notified[p] = true;
                if self.waiting == Some(p) {
                    self.labels.insert("notified during wait");
                }
            }
            ADVANCE if self.waiting.is_some() => {}
            ADVANCE => sim::advance(DELAYS[(op[2] & 7) as usize]),
            WAIT2 => {
                if self.waiting == Some(p) {
                    self.say(|| format!("{d}: a second wait on poller {p}"));
                    let mut ev = Events::new();
                    let r = self.pollers[p].wait(&mut ev, None);
                    if !matches!(r, Ok(0)) || !ev.is_empty() {
                        self.fail(format!("a second wait returns {r:?}"));
                    }
                    self.labels.insert("second wait");
                }
            }
            DROP => {
                if self.waiting.is_none() {
                    self.say(|| format!("{d}: poller {p} is dropped, another takes its place"));
                    // Its registrations end with it.
                    self.labels.insert("dropped");
                    self.regs[p].clear();
                    self.posts[p].clear();
                    self.notified[p] = false;
                    self.left[p] = false;
                    self.pollers[p] = Arc::new(Poller::new().expect("Poller::new"));
                }
            }
            _ => {}
        }
    }

    /// Judges what a wait has returned.
    #[allow(clippy::too_many_arguments)]
    fn judge(&mut self, p: usize, n: usize, events: &mut Events, cap: usize, t0: u64, timeout: Option<Duration>) {
        let now = sim::now();
        let list: Vec<Event> = events.iter().collect();
        if self.keep_log {
            let t: Vec<_> = list.iter().map(|e| format!("{:#x}{}{}", e.key, if e.readable { " r" } else { "" }, if e.writable { " w" } else { "" })).collect();
            self.say(|| format!("  -> {n} events [{}]", t.join(", ")));
        }
        if n != list.len() || events.len() != n || events.is_empty() != (n == 0) {
            return self.fail(format!("wait says {n} events, the container has {} (len {}, is_empty {})", list.len(), events.len(), events.is_empty()));
        }
        if n > cap {
            return self.fail(format!("{n} events in a container of {cap}"));
        }
        let told = std::mem::replace(&mut self.notified[p], false);
        let left = std::mem::replace(&mut self.left[p], false);
        let notified = told || left;
        if let Some(t) = timeout {
            let end = t0.saturating_add(t.as_nanos().min(1 << 62) as u64);
            if now > end.saturating_add(1_000_000) {
                return self.fail(format!("the wait returned at {now} ns; it should have by {end} ns"));
            }
            if n == 0 && !notified && now < end {
                return self.fail(format!("the wait returned nothing {} ns before its timeout", end - now));
            }
            if n == 0 && !notified && now > t0 {
                self.labels.insert("timed out");
            }
        } else if n == 0 && !notified {
            return self.fail("a wait without timeout returned nothing");
        }
        // With little room the notification may still be queued, and ends another wait.
        self.left[p] = notified && cap < 1024;
        if notified {
            self.labels.insert("notified");
        }
        let mut seen = BTreeSet::new();
        for e in &list {
            if let Some(c) = self.posts[p].get_mut(&e.key) {
                *c -= 1;
                if *c == 0 {
                    self.posts[p].remove(&e.key);
                }
                let was = *self.packets.iter().rev().find(|k| k.event().key == e.key).unwrap().event();
                if was != *e {
                    return self.fail(format!("the packet of {was:?} is reported as {e:?}"));
                }
                self.labels.insert("packet event");
                continue;
            }
            let Some((&i, r)) = self.regs[p].iter().find(|(_, r)| r.key == e.key) else {
                return self.fail(format!("an event with key {:#x}, which nothing registered or posted has", e.key));
            };
            let r = r.clone();
            if !seen.insert(i) {
                return self.fail(format!("{} is reported more than once in one wait", name(i)));
            }
            if !e.readable && !e.writable {
                return self.fail(format!("an event for {} that is neither readable nor writable", name(i)));
            }
            if i < EVENTS && [e.readable, e.writable] != r.want {
                return self.fail(format!("{} is reported as {e:?}, other than it was registered ({:?})", name(i), r.want));
            }
            for d in 0..2 {
                if [e.readable, e.writable][d] && !self.dirs(p, i)[d].1 {
                    return self.fail(format!("{} is reported for {}, which was not asked for, is not so or has been reported ({r:?})", name(i), ["reading", "writing"][d]));
                }
            }
            self.labels.insert(if i < EVENTS { "waitable event" } else { "socket event" });
        }
        for i in seen {
            let (on, rd) = if i < EVENTS { (sim::signaled(self.handle(i)), [false; 2]) } else { (false, self.ready(i - EVENTS)) };
            let manual = i < EVENTS && self.events[i].1;
            let r = self.regs[p].get_mut(&i).unwrap();
            if r.mode == ONESHOT {
                r.armed = false;
            }
            // It is watched anew at once, or when the next wait starts.
            r.tok = if r.mode == ONESHOT { 0 } else if manual && on { 2 } else if i < EVENTS && !manual { 1 } else { 0 };
            r.was = rd;
        }
        events.clear();
        if !events.is_empty() || events.len() != 0 || events.iter().next().is_some() {
            self.fail("clear leaves events behind");
        }
    }
}

/// Registration calls: what is expected is decided first, so that the call may be stopped half-way.
fn register(w: &Shared, op: Op) {
    let t = (op[1] >> 1) as usize;
    let code = op[0] & 63;
    // Objects whose signal goes to one waiter only are registered with one poller only.
    let p = if code <= WDEL && !manual(t % EVENTS) { 0 } else { (op[1] & 1) as usize };
    let i = if code <= WDEL { t % EVENTS } else { EVENTS + t % ALL };
    let mut k = key((op[2] >> 6) as usize, i);
    let mut want = [op[2] & 4 != 0, op[2] & 8 != 0];
    if i >= EVENTS && want == [false; 2] && sim::conditions(sock(i - EVENTS)) & BAD != 0 {
        want[0] = true;
    }
    // Edge modes are rare and refused.
    let mut mode = if op[2] & 0x30 == 0x30 { 2 + (op[2] & 1) } else { op[2] & 1 };
    let call = match code {
        WADD | SADD => Call::Add(i),
        WMOD | SMOD => Call::Modify(i),
        _ => Call::Delete(i),
    };
    // The system refuses one of the requests the call makes, if it makes any itself.
    let mut refuse = op[3] & 0x30 == 0x30 && code != WDEL && code != SDEL && !overlaps(&op);
    let (poller, h, known) = {
        let mut g = lock(w);
        refuse &= g.waiting == Some(p);
        if let (true, Call::Modify(_), Some(r)) = (refuse, &call, g.regs[p].get(&i)) {
            (k, want, mode) = (r.key, r.want, r.mode);
        }
        let d = g.describe(op);
        let known = g.regs[p].contains_key(&i);
        if let Call::Delete(_) = call {
            g.say(|| format!("{d}: {} from poller {p}", name(i)));
            g.regs[p].remove(&i);
        } else {
            g.say(|| format!("{d}: {} at poller {p}, key {k:#x}, {want:?}, {:?}", name(i), MODES[mode as usize]));
            let adds = matches!(call, Call::Add(_));
            if mode < 2 && known != adds {
                let old = g.regs[p].get(&i).cloned().unwrap_or_default();
                let off = !want[0] && !want[1];
                let manual = i < EVENTS && g.events[i].1;
                // A signal seen before it was disabled may still be reported after it is enabled again.
                let tok = if adds {
                    0
                } else if off {
                    old.tok.min(1)
                } else if old.armed {
                    old.tok
                } else {
                    old.tok.min(1).max((i < EVENTS && !manual) as u8)
                };
                g.regs[p].insert(i, Reg { key: k, want, mode, armed: !off, sure: false, tok, was: old.was });
                if adds {
                    g.regs[p].get_mut(&i).unwrap().was = [false; 2];
                }
                if manual || i >= EVENTS {
                    g.observe(i);
                } else if sim::signaled(g.handle(i) as _) {
                    // Whoever waits first takes it.
                    let n = g.regs.iter().filter(|m| m.contains_key(&i)).count();
                    let r = g.regs[p].get_mut(&i).unwrap();
                    if r.armed {
                        r.tok = if n == 1 { 2 } else { 1 };
                    }
                }
                if !adds {
                    g.labels.insert("modified");
                }
            }
        }
        if g.waiting == Some(p) {
            g.labels.insert("registration during wait");
        }
        (g.pollers[p].clone(), g.events.get(i).map_or(0, |e| e.0), known)
    };
    let ev = interest(k, want);
    let m = MODES[mode as usize];
    if refuse {
        sim::refuse(Some(1 + (op[3] >> 7 & 3) as u32));
    }
    let r = if i < EVENTS {
        let b = unsafe { BorrowedHandle::borrow_raw(h as RawHandle) };
        match call {
            Call::Add(_) => unsafe { poller.add_waitable(h as RawHandle, ev, m) },
            Call::Modify(_) => poller.modify_waitable(b, ev, m),
            Call::Delete(_) => poller.remove_waitable(b),
        }
    } else {
        let b = unsafe { BorrowedSocket::borrow_raw(sock(i - EVENTS)) };
        match call {
            Call::Add(_) => unsafe { poller.add_with_mode(sock(i - EVENTS), ev, m) },
            Call::Modify(_) => poller.modify_with_mode(b, ev, m),
            Call::Delete(_) => poller.delete(b),
        }
    };
    let refused = sim::has_refused();
    sim::refuse(None);
    let mut g = lock(w);
    let what = NAMES[code as usize];
    if refused && r.is_err() {
        g.say(|| format!("the system refuses that: {r:?}"));
        if r.unwrap_err().raw_os_error() != Some(1450) {
            g.fail(format!("the system refused {what} with error 1450, which the call does not say"));
        }
        if matches!(call, Call::Add(_)) && !known {
            g.regs[p].remove(&i);
        }
        // What is modified may be watched or not, until it is modified again. What was refused may be an update
        // of another that was queued.
        g.regs[p].values_mut().for_each(|r| r.sure = false);
        g.labels.insert("refused by the system");
        return;
    }
    if let (Some(x), true) = (g.regs[p].get_mut(&i), r.is_ok()) {
        x.sure = true;
    }
    let (ok, kind) = match call {
        Call::Delete(_) => (true, None),
        _ if mode >= 2 => (false, None),
        Call::Add(_) => (!known, Some(ErrorKind::AlreadyExists)),
        Call::Modify(_) => (known, Some(ErrorKind::NotFound)),
    };
    match r {
        Ok(()) if !ok => g.fail(format!("{what} of {} should have failed", name(i))),
        Err(e) if ok => g.fail(format!("{what} of {} fails: {e:?}", name(i))),
        Err(e) => {
            if kind.map_or(false, |k| k != e.kind()) {
                g.fail(format!("{what} of {} fails with {e:?}, not with {kind:?}", name(i)));
            }
            g.labels.insert("refused");
        }
        Ok(()) => {}
    }
}

fn perform(w: &Shared, op: Op) {
    match op[0] & 63 {
        WADD..=WDEL | SADD..=SDEL => register(w, op),
        CROWD => {
            lock(w).labels.insert("crowd");
            for j in (SOCKETS..ALL).map(|j| (j as u16) << 1) {
                match op[2] & 3 {
                    0 | 1 => register(w, [SADD, j | op[1] & 1, op[2] & 0x7cc, 0]),
                    2 => register(w, [SDEL, j | op[1] & 1, 0, 0]),
                    _ => lock(w).step([COND, j, if j % 3 == 0 { op[1] >> 1 } else { 0 }, 0]),
                }
            }
        }
        _ => lock(w).step(op),
    }
}

/// Calls that can be stopped half-way.
fn overlaps(op: &Op) -> bool {
    op[0] & OVERLAP != 0 && matches!(op[0] & 63, WADD..=WDEL | SADD..=SDEL)
}

const DONE: u8 = 1;
const STOPPED: u8 = 2;
const GO: u8 = 3;

struct Job {
    w: Shared,
    op: Op,
    stop: bool,
    state: Arc<AtomicU8>,
}

fn until(state: &AtomicU8, op: Op, f: impl Fn(u8) -> bool) -> u8 {
    let t = crate::real_ns();
    let mut n = 0;
    loop {
        let s = state.load(Ordering::SeqCst);
        if f(s) {
            return s;
        }
        n += 1;
        if n < 2000 {
            std::thread::yield_now();
        } else {
            unsafe { libc::usleep(50) };
            if crate::real_ns() - t > 10_000_000_000 {
                panic!("{} from another thread does not return", NAMES[(op[0] & 63) as usize % NAMES.len()]);
            }
        }
    }
}

/// Begins the operation in another thread.
fn start(tx: &mpsc::Sender<Job>, w: &Shared, op: Op, stop: bool) -> Option<(Arc<AtomicU8>, Op)> {
    let state = Arc::new(AtomicU8::new(0));
    tx.send(Job { w: w.clone(), op, stop, state: state.clone() }).unwrap();
    let s = until(&state, op, |s| s == DONE || s == STOPPED);
    (s == STOPPED).then_some((state, op))
}

fn finish(x: (Arc<AtomicU8>, Op)) {
    x.0.store(GO, Ordering::SeqCst);
    until(&x.0, x.1, |s| s == DONE);
}

fn check_sim(g: &mut World) {
    if let Some(m) = sim::broken() {
        g.fail(format!("towards the system: {m}"));
    }
}

fn wait(w: &Shared, tx: &mpsc::Sender<Job>, op: Op, during: &[Op]) {
    let p = (op[1] & 1) as usize;
    let timeout = TIMEOUTS[op[2] as usize % TIMEOUTS.len()];
    let cap = CAPS[(op[3] & 7) as usize];
    let fail = op[3] & 0x78 == 0x78;
    // The system refuses one of the requests made by the wait.
    let refuse = op[3] & 0x38 == 0x08;
    let mut q: VecDeque<Op> = during.iter().copied().collect();
    // A call that has begun before the wait does.
    let mut stopped = None;
    if let Some(f) = q.front().copied() {
        if overlaps(&f) {
            q.pop_front();
            stopped = start(tx, w, f, true);
            if stopped.is_some() {
                lock(w).labels.insert("overlapping call");
            }
        }
    }
    let stopped = Arc::new(Mutex::new(stopped));
    let queue = Arc::new(Mutex::new(q));
    let poller = {
        let mut g = lock(w);
        g.say(|| format!("wait on poller {p}, timeout {timeout:?}, capacity {cap}{}", if fail { ", which the system fails" } else { "" }));
        g.waiting = Some(p);
        g.pollers[p].clone()
    };
    if op[3] & 0x80 != 0 {
        while sim::run_callback() {}
    }
    let t0 = sim::now();
    let before = sim::calls();
    let end = timeout.map_or(u64::MAX, |d| t0.saturating_add(d.as_nanos().min(1 << 62) as u64));
    sim::fail_wait(fail.then_some(1450));
    sim::refuse(refuse.then_some(1 + (op[3] >> 7 & 1) as u32));
    {
        let (w, tx, queue, poller, stopped) = (w.clone(), tx.clone(), queue.clone(), poller.clone(), stopped.clone());
        sim::set_hook(Some(Box::new(move |next| {
            let now = sim::now();
            if sim::callbacks() > 0 {
                while sim::run_callback() {}
                return sim::Act::Again;
            }
            if sim::flush_cancelled() {
                return sim::Act::Again;
            }
            let s = stopped.lock().unwrap().take();
            if let Some(s) = s {
                lock(&w).say(|| "the call that had begun goes on".into());
                finish(s);
                return sim::Act::Again;
            }
            {
                let mut g = lock(&w);
                check_sim(&mut g);
                if g.viol.is_some() {
                    panic!("stop");
                }
                if let Some(why) = g.due(p) {
                    panic!("the wait stays blocked although {why}");
                }
                g.labels.insert("blocked");
            }
            if end < 1 << 61 && next.map_or(true, |n| n > end + 1_000_000) {
                panic!("the wait will not end at {end} ns, when its timeout is over, but {next:?}");
            }
            let forever = next.map_or(true, |n| n > 1 << 61);
            let mut q = queue.lock().unwrap();
            match q.front().copied() {
                Some(op) => {
                    let dt = DELAYS[(op[3] >> 8 & 7) as usize];
                    if !forever && now + dt >= next.unwrap() {
                        return sim::Act::Sleep;
                    }
                    q.pop_front();
                    drop(q);
                    sim::advance(dt);
                    if let Some(s) = start(&tx, &w, op, overlaps(&op)) {
                        *stopped.lock().unwrap() = Some(s);
                    }
                    sim::Act::Again
                }
                None if forever => {
                    let mut g = lock(&w);
                    g.say(|| "nothing left to happen: notify".into());
                    g.notified[p] = true;
                    drop(g);
                    if let Err(e) = poller.notify() {
                        panic!("notify fails: {e}");
                    }
                    sim::Act::Again
                }
                None => sim::Act::Sleep,
            }
        })));
    }
    let mut events = Events::with_capacity(NonZeroUsize::new(cap).unwrap());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| poller.wait(&mut events, timeout)));
    sim::set_hook(None);
    let failed = fail;
    sim::fail_wait(None);
    let refused = sim::has_refused();
    sim::refuse(None);
    let s = stopped.lock().unwrap().take();
    if let Some(s) = s {
        finish(s);
    }
    let r = match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    };
    let mut g = lock(w);
    g.waiting = None;
    check_sim(&mut g);
    if events.capacity().get() < cap {
        g.fail("the container has less than the capacity asked for");
    }
    if g.viol.is_none() {
        match r {
            Ok(_) if failed => g.fail("the system failed the wait, which returned Ok"),
            Err(e) if failed => {
                g.labels.insert("failed wait");
                g.say(|| format!("  -> {e:?}"));
                if e.raw_os_error() != Some(1450) {
                    g.fail(format!("the system failed the wait with error 1450, which returned {e:?}"));
                }
            }
            Err(e) if refused => {
                g.labels.insert("refused in a wait");
                g.say(|| format!("  -> refused: {e:?}"));
                if e.raw_os_error() != Some(1450) {
                    g.fail(format!("the system refused a request with error 1450, of which the wait says {e:?}"));
                }
                // One of these is not watched until it is modified; which one is not known.
                g.regs[p].values_mut().for_each(|r| r.sure = false);
            }
            Err(e) => g.fail(format!("wait fails: {e:?}")),
            Ok(n) => {
                let c = events.capacity().get();
                g.judge(p, n, &mut events, c, t0, timeout);
                if sim::calls() - before > 30 + during.len() as u32 * 4 + if g.labels.contains("crowd") { 400 } else { 0 } {
                    g.fail("the wait keeps the processor busy");
                }
            }
        }
    }
    drop(g);
    drop(poller);
    let rest: Vec<Op> = queue.lock().unwrap().drain(..).collect();
    for op in rest {
        perform(w, op);
    }
}

/// Waits without timeout until nothing is reported; then nothing may be due.
fn sweep(w: &Shared, tx: &mpsc::Sender<Job>, op: Op) {
    let p = (op[1] & 1) as usize;
    lock(w).say(|| format!("a sweep of poller {p}"));
    // Levels are reported in every wait: they are not waited for.
    for k in 0..12 {
        sim::flush_cancelled();
        while sim::run_callback() {}
        wait(w, tx, [WAIT, p as u16, 0, 3], &[]);
        if lock(w).viol.is_some() {
            return;
        }
        let _ = k;
    }
    let mut g = lock(w);
    let levels: Vec<usize> = g.regs[p].iter().filter(|(_, r)| r.mode != ONESHOT).map(|(i, _)| *i).collect();
    let keep: Vec<(usize, Reg)> = levels.iter().map(|i| (*i, g.regs[p].remove(i).unwrap())).collect();
    let due = g.due(p);
    g.regs[p].extend(keep);
    if let Some(why) = due {
        g.fail(format!("after twelve waits, {why}"));
    }
    g.labels.insert("sweep");
}

pub fn run(ops: &[Op], keep_log: bool) -> Outcome {
    sim::reset();
    let seed = ops.iter().flatten().fold(0u32, |h, x| (h ^ *x as u32).wrapping_mul(0x0100_0193));
    sim::lazy_cancel(seed >> 7 & 1 != 0);
    let p0 = Poller::new();
    if let Err(e) = p0 {
        return Outcome { viol: Some(format!("a poller cannot be created: {e:?}")), log: Vec::new(), labels: BTreeSet::new(), hang: false };
    }
    drop(p0);
    let events: Vec<(usize, bool)> = (0..EVENTS).map(|i| (sim::new_event(manual(i)) as usize, manual(i))).collect();
    (0..ALL).for_each(|i| sim::new_socket(sock(i), 0));
    let w: Shared = Arc::new(Mutex::new(World {
        pollers: (0..2).map(|_| Arc::new(Poller::new().expect("Poller::new"))).collect(),
        regs: vec![BTreeMap::new(), BTreeMap::new()],
        posts: vec![BTreeMap::new(), BTreeMap::new()],
        packets: Vec::new(),
        notified: vec![false; 2],
        left: vec![false; 2],
        waiting: None,
        events,
        labels: BTreeSet::new(),
        log: Vec::new(),
        viol: None,
        keep_log,
    }));
    {
        let mut g = lock(&w);
        let p = g.pollers[0].clone();
        if !p.supports_level() || p.supports_edge() {
            g.fail("supports_level or supports_edge is wrong");
        }
    }
    let (tx, rx) = mpsc::channel::<Job>();
    let worker = ops.iter().any(|o| o[0] & DURING != 0).then(|| {
        std::thread::spawn(move || {
            for Job { w, op, stop, state } in rx {
                if stop {
                    let st = state.clone();
                    let mut first = true;
                    before_push(Some(Box::new(move || {
                        if std::mem::replace(&mut first, false) {
                            st.store(STOPPED, Ordering::SeqCst);
                            while st.load(Ordering::SeqCst) != GO {
                                std::thread::yield_now();
                            }
                        }
                    })));
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(&w, op)));
                before_push(None);
                if r.is_err() {
                    lock(&w).fail(format!("{} panics", NAMES[(op[0] & 63) as usize % NAMES.len()]));
                }
                drop(w);
                state.store(DONE, Ordering::SeqCst);
            }
        })
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut i = 0;
        while i < ops.len() && lock(&w).viol.is_none() {
            let op = ops[i];
            i += 1;
            match op[0] & 63 {
                WAIT => {
                    let mut j = i;
                    while j < ops.len() && ops[j][0] & DURING != 0 && ops[j][0] & 63 != WAIT && ops[j][0] & 63 != SWEEP {
                        j += 1;
                    }
                    wait(&w, &tx, op, &ops[i..j]);
                    i = j;
                }
                SWEEP => sweep(&w, &tx, op),
                _ => perform(&w, op),
            }
            check_sim(&mut lock(&w));
        }
        // Whatever was posted is reported.
        for p in 0..2 {
            if lock(&w).viol.is_none() {
                sweep(&w, &tx, [SWEEP, p, 0, 0]);
            }
        }
    }));
    sim::set_hook(None);
    drop(tx);
    let mut hang = false;
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
        if m != "stop" {
            hang = m.contains("does not return");
            if hang {
                unsafe { libc::usleep(100_000) };
            }
            lock(&w).fail(m);
        }
    }
    if !hang {
        worker.map(|w| w.join());
    }
    let mut g = lock(&w);
    if g.viol.is_none() {
        let (polled, waited) = sim::watched();
        let known = |i: usize| g.regs.iter().any(|m| m.contains_key(&i));
        let stale = (0..ALL).find(|j| polled.contains(&sock(*j)) && !known(EVENTS + j)).map(|j| EVENTS + j);
        // What a dropped poller had in flight is not judged.
        let stale = stale.filter(|_| !g.labels.contains("dropped"));
        let stale = stale.or((0..EVENTS).find(|j| waited.contains(&g.events[*j].0) && !known(*j)));
        if let Some(i) = stale {
            g.fail(format!("the system is still asked about {}, which is not registered any more", name(i)));
        }
    }
    let out = (g.viol.take(), std::mem::take(&mut g.log), std::mem::take(&mut g.labels));
    g.pollers.clear();
    drop(g);
    drop(w);
    let (mut viol, log, labels) = out;
    let (ports, _) = sim::open();
    if viol.is_none() && ports != 0 {
        viol = Some(format!("{ports} completion ports are open after all pollers are dropped"));
    }
    Outcome { viol, log, labels, hang }
}
