//! Engine 5: waits that really block. Every poller has a thread of its own that waits in the
//! kernel, in real time, without the scheduler and without interception; the driver performs one
//! step at a time and a model says which waits must return because of it and with what. What the
//! simulation cannot show is looked for here: behaviour that depends on somebody sleeping in the
//! kernel (wake-ups, exclusive waiters, signals that really arrive), and truly parallel calls.

use crate::case::Case;
use crate::sched::Viol;
use crate::seq::{RunOut, IS_PIPE, IS_POLL};
use crate::sys;
use polling::{Event, Events, PollMode, Poller};
use std::collections::BTreeMap;
use std::io::ErrorKind;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod rop {
    pub const START: u32 = 0;
    pub const STATE: u32 = 1;
    pub const ADD: u32 = 2;
    pub const MODIFY: u32 = 3;
    pub const DELETE: u32 = 4;
    pub const NOTIFY: u32 = 5;
    pub const SIGNAL: u32 = 6;
    pub const PING: u32 = 7;
    pub const SECOND: u32 = 8;
    pub const N: u32 = 9;
}

/// Anything that must happen "at once" has this long, in real time.
const PATIENCE: Duration = Duration::from_secs(30);

/// A call that should have ended long ago was seen; the search then only looks for a smaller case.
static HUNG: AtomicBool = AtomicBool::new(false);

fn patience() -> Duration {
    if HUNG.load(SeqCst) {
        Duration::from_millis(1500)
    } else {
        PATIENCE
    }
}

/// Before the final confirmation of a reduced case.
pub fn be_patient() {
    HUNG.store(false, SeqCst);
}

const LONG: Duration = Duration::from_secs(3600);

/// The first ones are never reached.
const TIMEOUTS: [Option<Duration>; 10] = [
    None,
    None,
    None,
    Some(LONG),
    Some(Duration::from_millis(86_400_000 * 20)),
    Some(Duration::ZERO),
    Some(Duration::from_nanos(1)),
    Some(Duration::from_micros(1_300)),
    Some(Duration::from_millis(3)),
    Some(Duration::from_micros(7_777)),
];

static HANDLED: AtomicU64 = AtomicU64::new(0);

extern "C" fn on_signal(_: i32) {
    HANDLED.fetch_add(1, SeqCst);
}

enum Cmd {
    Wait(Option<Duration>),
    /// Waits until `n` notifications or events have been seen or `stop` is set.
    Ping(Option<RawFd>, usize),
    End,
}

struct Done {
    res: Result<usize, String>,
    events: Vec<Event>,
    dt: Duration,
}

struct Shared {
    tid: AtomicI32,
    entered: AtomicU32,
    /// for PING
    count: AtomicU32,
    stop: AtomicBool,
    bad: Mutex<Option<(&'static str, String)>>,
}

struct Waiter {
    sh: Arc<Shared>,
    tx: Sender<Cmd>,
    rx: Receiver<Done>,
    blocked: Option<Blocked>,
    starts: u32,
}

#[derive(Clone, Default)]
struct Blocked {
    timeout: Option<Duration>,
    /// seen asleep before anything else happened
    settled: bool,
    signals: u32,
    regops: bool,
}

#[derive(Clone)]
struct Reg {
    key: usize,
    r: bool,
    w: bool,
    mode: PollMode,
    armed: bool,
    may: bool,
    must: bool,
    by_modify: bool,
}

struct Src {
    fd: OwnedFd,
    rd: bool,
    wr: bool,
}

struct P {
    p: Arc<Poller>,
    regs: BTreeMap<usize, Reg>,
    notified: bool,
    deleted: bool,
}

#[derive(Default)]
struct Log {
    lab: BTreeMap<&'static str, u64>,
    log: Vec<String>,
    /// what the driver is doing, for the case that it does not come back
    tags: Vec<&'static str>,
    doing: String,
    step: u64,
}

struct Drv {
    ps: Vec<P>,
    ws: Vec<Waiter>,
    src: Vec<Src>,
    out: Arc<Mutex<Log>>,
    serial: usize,
}

type Res = Result<(), (Vec<&'static str>, String)>;

fn edge(m: PollMode) -> bool {
    matches!(m, PollMode::Edge | PollMode::EdgeOneshot)
}
fn oneshot(m: PollMode) -> bool {
    matches!(m, PollMode::Oneshot | PollMode::EdgeOneshot)
}

fn tag_mode(m: PollMode, t: &mut Vec<&'static str>) {
    t.push(match m {
        PollMode::Oneshot => "C03",
        PollMode::Level => "C04",
        _ => "C05",
    });
}

fn waiter(p: Arc<Poller>, sh: Arc<Shared>, rx: Receiver<Cmd>, tx: Sender<Done>) {
    sh.tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
    let mut ev = Events::new();
    while let Ok(c) = rx.recv() {
        match c {
            Cmd::End => return,
            Cmd::Wait(to) => {
                ev.clear();
                sh.entered.fetch_add(1, SeqCst);
                let t0 = Instant::now();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.wait(&mut ev, to)));
                let dt = t0.elapsed();
                let res = match r {
                    Ok(Ok(n)) => Ok(n),
                    Ok(Err(e)) => Err(format!("failed: {e:?}")),
                    Err(_) => Err("panicked".into()),
                };
                if tx.send(Done { res, events: ev.iter().collect(), dt }).is_err() {
                    return;
                }
            }
            Cmd::Ping(fd, key) => {
                let mut bad = |t, m: String| *sh.bad.lock().unwrap() = Some((t, m));
                while !sh.stop.load(SeqCst) {
                    ev.clear();
                    if let Err(e) = p.wait(&mut ev, None) {
                        bad("C24", format!("wait failed: {e:?}"));
                        break;
                    }
                    let l: Vec<Event> = ev.iter().collect();
                    match fd {
                        None if !l.is_empty() => bad("C01", format!("a notification came with {l:?}")),
                        Some(fd) if !sh.stop.load(SeqCst) => {
                            if l.len() != 1 || l[0].key != key || !l[0].readable || l[0].writable {
                                bad("C01", format!("wait reports {l:?} for one readable source"));
                            }
                            let mut v = 0u64;
                            if unsafe { libc::read(fd, &mut v as *mut _ as *mut _, 8) } != 8 {
                                bad("C01", "the reported source is not readable".into());
                            }
                            let b = unsafe { std::os::fd::BorrowedFd::borrow_raw(fd) };
                            if let Err(e) = p.modify(b, Event::readable(key)) {
                                bad("C07", format!("modify failed: {e:?}"));
                            }
                        }
                        _ => {}
                    }
                    sh.count.fetch_add(1, SeqCst);
                }
                let _ = tx.send(Done { res: Ok(0), events: vec![], dt: Duration::ZERO });
            }
        }
    }
}

fn asleep(tid: i32) -> bool {
    let mut b = [0u8; 128];
    let n = unsafe {
        let path = format!("/proc/self/task/{tid}/stat\0");
        let fd = libc::open(path.as_ptr() as *const _, libc::O_RDONLY | libc::O_CLOEXEC);
        if fd < 0 {
            return false;
        }
        let n = libc::read(fd, b.as_mut_ptr() as *mut _, b.len());
        libc::close(fd);
        n.max(0) as usize
    };
    let s = &b[..n];
    s.iter().rposition(|c| *c == b')').is_some_and(|i| s.get(i + 2) == Some(&b'S'))
}

fn nap(us: u64) {
    std::thread::sleep(Duration::from_micros(us));
}

impl Drv {
    fn label(&self, l: &'static str) {
        *self.out.lock().unwrap().lab.entry(l).or_insert(0) += 1;
    }
    fn say(&self, f: impl FnOnce() -> String) {
        let s = f();
        self.out.lock().unwrap().log.push(s);
    }
    fn doing(&self, tags: &[&'static str], what: String) {
        let mut o = self.out.lock().unwrap();
        o.step += 1;
        o.tags = tags.to_vec();
        o.log.push(what.clone());
        o.doing = what;
    }

    fn ready(&self, g: &Reg, s: usize) -> bool {
        (g.r && self.src[s].rd) || (g.w && self.src[s].wr)
    }
    fn may(&self, g: &Reg, s: usize) -> bool {
        self.ready(g, s) && g.armed && (!edge(g.mode) || g.may)
    }
    fn must(&self, g: &Reg, s: usize) -> bool {
        self.ready(g, s) && g.armed && (!edge(g.mode) || g.must)
    }
    fn due(&self, p: usize) -> Vec<usize> {
        self.ps[p].regs.iter().filter(|(s, g)| self.must(g, **s)).map(|x| *x.0).collect()
    }
    fn unsure(&self, p: usize) -> bool {
        self.ps[p].regs.iter().any(|(s, g)| self.may(g, *s) && !self.must(g, *s))
    }
    fn others_blocked(&self, p: usize) -> bool {
        (0..self.ws.len()).any(|q| q != p && self.ws[q].blocked.is_some())
    }

    fn settle(&self, p: usize) -> bool {
        let w = &self.ws[p];
        for k in 0..400 {
            if w.sh.entered.load(SeqCst) == w.starts && asleep(w.sh.tid.load(SeqCst)) {
                self.label("really-blocked");
                return true;
            }
            nap(20 + k);
        }
        self.label("unsettled");
        false
    }

    /// Tags of whatever goes wrong with a wait on `p`.
    fn circumstances(&self, p: usize, t: &mut Vec<&'static str>) {
        if let Some(b) = &self.ws[p].blocked {
            if b.signals > 0 {
                t.push("C13");
            }
            if b.regops {
                t.push("C14");
            }
        }
        if self.ps.len() > 1 {
            t.push("C20");
        }
    }

    /// Waits for the wait on `p` to return and judges what it says. `cause` are the properties that
    /// say it must.
    fn finish(&mut self, p: usize, cause: &[&'static str]) -> Res {
        self.doing(cause, format!("  the wait on poller {p} must return"));
        let b = self.ws[p].blocked.clone().unwrap_or_default();
        let mut t = cause.to_vec();
        self.circumstances(p, &mut t);
        let limit = b.timeout.filter(|x| *x < LONG).unwrap_or_default() + patience();
        let d = match self.ws[p].rx.recv_timeout(limit) {
            Ok(d) => d,
            Err(RecvTimeoutError::Timeout) => {
                HUNG.store(true, SeqCst);
                return Err((t, format!("the wait on poller {p} does not return within {limit:?}")));
            }
            Err(_) => return Err((t, format!("the thread waiting on poller {p} died"))),
        };
        self.judge(p, d, t)
    }

    fn judge(&mut self, p: usize, d: Done, mut t: Vec<&'static str>) -> Res {
        let b = self.ws[p].blocked.take().unwrap_or_default();
        self.say(|| format!("  wait on poller {p} -> {:?} {:?}, {:?} after {:?}", d.res, d.events, b.timeout, d.dt));
        let n = match &d.res {
            Ok(n) => *n,
            Err(e) => {
                t.extend(["C02", "C12"]);
                return Err((t, format!("the wait on poller {p} {e}")));
            }
        };
        if n != d.events.len() {
            return Err((vec!["C17"], format!("wait returned {n} with {} events", d.events.len())));
        }
        let due = self.due(p);
        let mut got = vec![];
        for e in &d.events {
            let Some((&s, g)) = self.ps[p].regs.iter().find(|x| x.1.key == e.key) else {
                t.extend(["C01", "C06", "C08"]);
                return Err((t, format!("poller {p} reports {e:?}, which is not registered")));
            };
            tag_mode(g.mode, &mut t);
            t.push("C01");
            if got.contains(&s) || !self.may(g, s) {
                return Err((t, format!("poller {p} reports source {s}, which is not due: {e:?}")));
            }
            if e.readable != (g.r && self.src[s].rd) || e.writable != (g.w && self.src[s].wr) {
                return Err((t, format!("poller {p} reports source {s} (readable {} writable {}) wrongly: {e:?}", self.src[s].rd, self.src[s].wr)));
            }
            got.push(s);
        }
        let notified = std::mem::take(&mut self.ps[p].notified);
        if !notified {
            if let Some(s) = due.iter().find(|s| !got.contains(s)) {
                t.push("C02");
                tag_mode(self.ps[p].regs[s].mode, &mut t);
                return Err((t, format!("poller {p} reports {got:?} although source {s} is due")));
            }
            if n == 0 {
                match b.timeout {
                    Some(x) if d.dt >= x => {}
                    x => {
                        t.extend(["C11", "C10"]);
                        return Err((t, format!("the wait ({x:?}) on poller {p} returns after {:?} with nothing", d.dt)));
                    }
                }
            }
        }
        let timed_out = n == 0 && !notified;
        for (s, g) in self.ps[p].regs.iter_mut() {
            if got.contains(s) {
                // The kernel queues an edge a second time if it scans the source between the
                // change and the wake-up.
                g.may = !b.settled;
                g.must = false;
                if oneshot(g.mode) {
                    g.armed = false;
                }
            } else if timed_out {
                g.may = g.must;
            }
        }
        if n > 0 {
            self.label("real-events");
        }
        Ok(())
    }

    /// After a step: waits that must return do, the others have not.
    fn after(&mut self, cause: &[&'static str]) -> Res {
        for p in 0..self.ps.len() {
            if self.ws[p].blocked.is_none() {
                continue;
            }
            let due = self.due(p);
            if self.ps[p].notified || !due.is_empty() {
                let mut t = cause.to_vec();
                for s in &due {
                    tag_mode(self.ps[p].regs[s].mode, &mut t);
                    if self.ps[p].regs[s].by_modify {
                        t.push("C06");
                    }
                }
                t.push(if self.ps[p].notified { "C09" } else { "C02" });
                if self.others_blocked(p) {
                    self.label("others-blocked");
                }
                self.label("really-woken");
                self.finish(p, &t)?;
            } else if let Ok(d) = self.ws[p].rx.try_recv() {
                let mut t = cause.to_vec();
                self.circumstances(p, &mut t);
                self.judge(p, d, t)?;
            }
        }
        Ok(())
    }

    fn start(&mut self, p: usize, to: Option<Duration>, race: u32) -> Res {
        let mut to = to;
        if self.unsure(p) && self.due(p).is_empty() {
            to = Some(Duration::from_millis(1));
        }
        let short = to.is_some_and(|t| t < LONG);
        let now = self.ps[p].notified || !self.due(p).is_empty();
        self.doing(&["C12"], format!("wait {to:?} on poller {p}"));
        self.ws[p].blocked = Some(Blocked { timeout: to, ..Default::default() });
        self.ws[p].starts += 1;
        let _ = self.ws[p].tx.send(Cmd::Wait(to));
        if now {
            return self.after(&["C02"]);
        }
        if short {
            if to.unwrap() > Duration::from_millis(1) && race % 2 == 1 {
                self.settle(p);
                self.signal(p);
            }
            self.label("real-timeout");
            return self.finish(p, &["C12"]);
        }
        if race < 4 {
            let y = self.settle(p);
            self.ws[p].blocked.as_mut().unwrap().settled = y;
        } else {
            // The next step happens at about the time the wait begins.
            self.label("real-race");
            let t0 = Instant::now();
            while self.ws[p].sh.entered.load(SeqCst) != self.ws[p].starts && t0.elapsed() < patience() {
                std::hint::spin_loop();
            }
            for _ in 0..(race - 4) * 150 {
                std::hint::spin_loop();
            }
        }
        Ok(())
    }

    fn signal(&mut self, p: usize) {
        let n = HANDLED.load(SeqCst);
        unsafe {
            libc::syscall(libc::SYS_tgkill, libc::getpid(), self.ws[p].sh.tid.load(SeqCst), libc::SIGUSR1);
        }
        let t0 = Instant::now();
        while HANDLED.load(SeqCst) == n && t0.elapsed() < Duration::from_secs(5) {
            nap(10);
        }
        if let Some(b) = &mut self.ws[p].blocked {
            b.signals += 1;
        }
        self.label("real-signal");
    }

    fn set(&mut self, s: usize, to: u32) -> Res {
        let (rd, wr) = (self.src[s].rd, self.src[s].wr);
        // Only what one system call does, so that no state in between can be seen.
        let (nrd, nwr, add) = match (rd, wr, to % 3) {
            (_, _, 0) if rd => (false, true, None),
            (false, true, 1) => (true, true, Some(1)),
            (false, true, 2) => (true, false, Some(u64::MAX - 1)),
            (true, true, _) => (true, false, Some(u64::MAX - 2)),
            _ => return Ok(()),
        };
        // Whether an edge registration that waits for the other direction reports this is open.
        let open = |g: &Reg| edge(g.mode) && g.armed && !((g.r && add.is_some()) || (g.w && !wr && nwr)) && ((g.r && nrd) || (g.w && nwr));
        for p in 0..self.ps.len() {
            if self.ws[p].blocked.is_some() && self.ps[p].regs.get(&s).is_some_and(open) {
                return Ok(());
            }
        }
        self.doing(&["INTERNAL"], format!("source {s}: readable {rd} -> {nrd}, writable {wr} -> {nwr}"));
        for p in self.ps.iter_mut() {
            if let Some(g) = p.regs.get_mut(&s) {
                g.may = true;
                g.must = if add.is_some() { g.must || g.r } else { g.w && !wr && nwr };
            }
        }
        (self.src[s].rd, self.src[s].wr) = (nrd, nwr);
        let fd = self.src[s].fd.as_raw_fd() as usize;
        let mut v = add.unwrap_or(0);
        let n = if add.is_some() { libc::SYS_write } else { libc::SYS_read };
        unsafe { sys::raw3(n, fd, &mut v as *mut _ as usize, 8) };
        self.after(&[])
    }

    fn regop(&mut self, k: u32, p: usize, s: usize, interest: u32, mode: u32) -> Res {
        let mut m = [PollMode::Oneshot, PollMode::Oneshot, PollMode::Level, PollMode::Edge, PollMode::EdgeOneshot][mode as usize % 5];
        if IS_POLL && edge(m) {
            m = PollMode::Level;
        }
        let (r, w) = (interest & 1 != 0, interest & 2 != 0);
        self.serial += 1;
        let key = self.serial * 4 + s;
        let name = ["", "", "add", "modify", "delete"][k as usize];
        self.doing(&["C14", "C23"], format!("{name} source {s} on poller {p}: key {key} r {r} w {w} {m:?}"));
        if let Some(b) = &mut self.ws[p].blocked {
            b.regops = true;
        }
        let fd = unsafe { std::os::fd::BorrowedFd::borrow_raw(self.src[s].fd.as_raw_fd()) };
        let ev = Event::new(key, r, w);
        let po = self.ps[p].p.clone();
        // The model changes first: a blocked wait may return before the call does.
        let had = self.ps[p].regs.contains_key(&s);
        let want = match (k, had) {
            (rop::ADD, true) => Some(ErrorKind::AlreadyExists),
            (rop::MODIFY | rop::DELETE, false) => Some(ErrorKind::NotFound),
            _ => None,
        };
        if self.ws[p].blocked.is_some() {
            self.label("op-while-blocked");
        }
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match k {
            rop::ADD => unsafe { po.add_with_mode(&fd, ev, m) },
            rop::MODIFY => po.modify_with_mode(fd, ev, m),
            _ => po.delete(fd),
        }));
        let mut t = vec!["C07"];
        self.circumstances(p, &mut t);
        let got = match got {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e.kind()),
            Err(_) => return Err((t, format!("{name} panicked"))),
        };
        if got != want {
            return Err((t, format!("{name} of source {s} on poller {p}: error {got:?} instead of {want:?}")));
        }
        if want.is_none() {
            if k == rop::DELETE {
                self.ps[p].regs.remove(&s);
                self.ps[p].deleted = true;
            } else {
                let mut g = Reg { key, r, w, mode: m, armed: true, may: false, must: false, by_modify: k == rop::MODIFY };
                g.may = self.ready(&g, s);
                g.must = g.may;
                self.ps[p].regs.insert(s, g);
            }
        }
        self.after(&["C14"])
    }

    fn notify(&mut self, p: usize) -> Res {
        self.doing(&["C09", "C23"], format!("notify poller {p}"));
        self.ps[p].notified = true;
        if let Err(e) = self.ps[p].p.notify() {
            return Err((vec!["C09", "C23"], format!("notify failed: {e:?}")));
        }
        self.after(&["C09"])
    }

    fn second(&mut self, p: usize, to: u32) -> Res {
        let to = [Duration::ZERO, Duration::from_secs(40), Duration::from_secs(3000)][to as usize % 3];
        self.doing(&["C15"], format!("another wait {to:?} on poller {p}"));
        let mut ev = Events::new();
        let t0 = Instant::now();
        let r = self.ps[p].p.wait(&mut ev, Some(to));
        let dt = t0.elapsed();
        self.label("second-wait");
        if !matches!(r, Ok(0)) || !ev.is_empty() || dt > Duration::from_secs(30) {
            return Err((vec!["C15"], format!("a second wait ({to:?}) -> {r:?} with {} events after {dt:?}", ev.len())));
        }
        self.after(&["C15"])
    }

    /// The waiting thread waits again and again while the driver wakes it as fast as it can.
    fn ping(&mut self, p: usize, rounds: u32, kind: u32) -> Res {
        if self.ps[p].notified || !self.due(p).is_empty() || self.unsure(p) {
            return Ok(());
        }
        let io = kind % 3 == 1;
        let two = kind % 3 == 2;
        self.doing(&["C09"], format!("{rounds} rounds of {} on poller {p}", ["notify", "writing", "two threads notifying"][kind as usize % 3]));
        let fd = io.then(|| unsafe { OwnedFd::from_raw_fd(libc::eventfd(0, libc::EFD_CLOEXEC | libc::EFD_NONBLOCK)) });
        let key = 1_000_003;
        let po = self.ps[p].p.clone();
        let ops = |e: std::io::Error| (vec!["C07"], format!("add or delete failed: {e:?}"));
        if let Some(f) = &fd {
            unsafe { po.add(f, Event::readable(key)) }.map_err(ops)?;
        }
        let sh = self.ws[p].sh.clone();
        sh.count.store(0, SeqCst);
        sh.stop.store(false, SeqCst);
        *sh.bad.lock().unwrap() = None;
        let _ = self.ws[p].tx.send(Cmd::Ping(fd.as_ref().map(|f| f.as_raw_fd()), key));
        let mut wakes = 0;
        let cause = if io { vec!["C02", "C03", "C06"] } else { vec!["C09"] };
        let fail = |mut t: Vec<&'static str>, n: usize, m: String| {
            if n > 1 {
                t.push("C20");
            }
            Err((t, m))
        };
        for k in 0..rounds {
            self.out.lock().unwrap().step += 1;
            let before = sh.count.load(SeqCst);
            if io {
                let v = 1u64;
                unsafe { sys::raw3(libc::SYS_write, fd.as_ref().unwrap().as_raw_fd() as usize, &v as *const _ as usize, 8) };
                wakes += 1;
            } else {
                let q = po.clone();
                let other = two.then(|| std::thread::spawn(move || q.notify()));
                let r = po.notify();
                let r2 = other.map_or(Ok(()), |t| t.join().unwrap());
                if r.is_err() || r2.is_err() {
                    return fail(vec!["C09", "C23"], 0, format!("notify failed: {r:?} {r2:?}"));
                }
                wakes += 1 + two as u32;
            }
            let t0 = Instant::now();
            let mut spins = 0u32;
            // With one waker the count was settled before; with two of them a late return of the
            // previous round may still be counted here, which is made good below.
            while sh.count.load(SeqCst) == before {
                spins += 1;
                if spins > 2000 {
                    nap(20);
                }
                if sh.bad.lock().unwrap().is_some() {
                    break;
                }
                if t0.elapsed() > patience() {
                    HUNG.store(true, SeqCst);
                    return fail(cause, self.ps.len(), format!("round {k}: the waiting thread is not woken within {:?}", patience()));
                }
            }
            let n = sh.count.load(SeqCst);
            if n > wakes {
                return fail(vec!["C10", "C11", "C03"], self.ps.len(), format!("{n} waits returned for {wakes} wake-ups"));
            }
            if let Some((t, m)) = sh.bad.lock().unwrap().take() {
                return fail(vec![t], self.ps.len(), m);
            }
            // Sometimes it is asleep again by the next round, sometimes on its way.
            for _ in 0..(k % 7) * 300 {
                std::hint::spin_loop();
            }
        }
        sh.stop.store(true, SeqCst);
        self.doing(&["C09"], "the waiting thread must see one more notification".into());
        let _ = po.notify();
        let t0 = Instant::now();
        loop {
            match self.ws[p].rx.recv_timeout(Duration::from_millis(100)) {
                Ok(_) => break,
                Err(_) if t0.elapsed() < patience() => {}
                Err(_) => {
                    HUNG.store(true, SeqCst);
                    return fail(vec!["C09"], self.ps.len(), "the waiting thread misses the last notification".into());
                }
            }
        }
        if let Some((t, m)) = sh.bad.lock().unwrap().take() {
            return fail(vec![t], self.ps.len(), m);
        }
        if let Some(f) = &fd {
            po.delete(f).map_err(ops)?;
        }
        // The notification may have been left over (by the other one of two, or the last one).
        let mut ev = Events::new();
        let _ = po.wait(&mut ev, Some(Duration::ZERO));
        let _ = po.wait(&mut ev, Some(Duration::ZERO));
        self.label("ping");
        if !ev.is_empty() {
            return fail(vec!["C01", "C10"], self.ps.len(), format!("{} events with nothing registered that is due", ev.len()));
        }
        Ok(())
    }

    fn step(&mut self, o: &[u32; 5]) -> Res {
        let (np, ns) = (self.ps.len(), self.src.len());
        let p = o[1] as usize % np;
        match o[0] % rop::N {
            rop::START => {
                if self.ws[p].blocked.is_some() {
                    return Ok(());
                }
                self.start(p, TIMEOUTS[o[2] as usize % TIMEOUTS.len()], o[3])
            }
            rop::STATE => self.set(o[1] as usize % ns, o[2]),
            k @ (rop::ADD | rop::MODIFY | rop::DELETE) => self.regop(k, p, o[2] as usize % ns, o[3], o[4]),
            rop::NOTIFY => self.notify(p),
            rop::SIGNAL => {
                if self.ws[p].blocked.is_none() {
                    return Ok(());
                }
                self.doing(&["INTERNAL"], format!("signal to the thread waiting on poller {p}"));
                self.signal(p);
                let y = self.settle(p);
                self.ws[p].blocked.as_mut().unwrap().settled = y;
                self.after(&["C13"])
            }
            rop::PING => {
                if self.ws[p].blocked.is_some() {
                    return Ok(());
                }
                self.ping(p, 5 + o[2] % 40, o[3])
            }
            _ => {
                if self.ws[p].blocked.is_none() || !self.settle(p) {
                    return Ok(());
                }
                self.second(p, o[2])
            }
        }
    }

    fn run(&mut self, ops: &[[u32; 5]]) -> Res {
        for o in ops {
            self.step(o)?;
        }
        for p in 0..self.ps.len() {
            if self.ws[p].blocked.is_some() {
                self.after(&[])?;
            }
            if self.ws[p].blocked.is_some() {
                self.notify(p)?;
            }
        }
        Ok(())
    }
}

pub fn run(case: &Case) -> RunOut {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
    }
    let out = Arc::new(Mutex::new(Log::default()));
    let cfg = |i: usize| case.cfg.get(i).copied().unwrap_or(0) as usize;
    let (np, ns) = (1 + cfg(0) % 3, 1 + cfg(1) % 4);
    let ops = case.progs.first().cloned().unwrap_or_default();
    let (tx, rx) = channel();
    let o2 = out.clone();
    let body = std::thread::spawn(move || {
        let mut d = Drv { ps: vec![], ws: vec![], src: vec![], out: o2, serial: 0 };
        for _ in 0..ns {
            let fd = unsafe { libc::eventfd(0, libc::EFD_CLOEXEC | libc::EFD_NONBLOCK) };
            assert!(fd >= 0);
            d.src.push(Src { fd: unsafe { OwnedFd::from_raw_fd(fd) }, rd: false, wr: true });
        }
        let mut threads = vec![];
        for _ in 0..np {
            let p = match Poller::new() {
                Ok(p) => Arc::new(p),
                Err(e) => {
                    let _ = tx.send(Err((vec!["C22"], format!("no poller: {e:?}"))));
                    return;
                }
            };
            let sh = Arc::new(Shared {
                tid: AtomicI32::new(0),
                entered: AtomicU32::new(0),
                count: AtomicU32::new(0),
                stop: AtomicBool::new(false),
                bad: Mutex::new(None),
            });
            let (ct, cr) = channel();
            let (dt, dr) = channel();
            let (p2, s2) = (p.clone(), sh.clone());
            threads.push(std::thread::spawn(move || waiter(p2, s2, cr, dt)));
            while sh.tid.load(SeqCst) == 0 {
                std::thread::yield_now();
            }
            d.ps.push(P { p, regs: BTreeMap::new(), notified: false, deleted: false });
            d.ws.push(Waiter { sh, tx: ct, rx: dr, blocked: None, starts: 0 });
        }
        let r = d.run(&ops);
        let ok = r.is_ok();
        if ok {
            for w in &d.ws {
                let _ = w.tx.send(Cmd::End);
            }
            for t in threads {
                let _ = t.join();
            }
            drop(d);
        } else {
            // Somebody may be stuck: all of it is abandoned.
            for w in &d.ws {
                w.sh.stop.store(true, SeqCst);
            }
            std::mem::forget(d);
        }
        let _ = tx.send(r);
    });
    let mut last = (0, Instant::now());
    let res = loop {
        match rx.recv_timeout(Duration::from_millis(if HUNG.load(SeqCst) { 200 } else { 2000 })) {
            Ok(r) => break Some(r),
            Err(RecvTimeoutError::Disconnected) => break None,
            Err(_) => {
                let o = out.lock().unwrap();
                if o.step != last.0 {
                    last = (o.step, Instant::now());
                } else if last.1.elapsed() > patience() * 3 / 2 + Duration::from_secs(1) {
                    let r = (o.tags.clone(), format!("the call does not return: {}", o.doing.trim()));
                    drop(o);
                    HUNG.store(true, SeqCst);
                    break Some(Err(r));
                }
            }
        }
    };
    let viol = match res {
        Some(Ok(())) => {
            let _ = body.join();
            None
        }
        Some(Err((mut tags, msg))) => {
            if IS_PIPE {
                tags.push("C21");
            }
            tags.sort();
            tags.dedup();
            Some(Viol { tags, msg })
        }
        None => Some(Viol { tags: vec!["INTERNAL"], msg: "the driver of the real-time engine died".into() }),
    };
    let mut o = out.lock().unwrap();
    if let Some(v) = &viol {
        let l = format!("!! {:?} {}", v.tags, v.msg);
        o.log.push(l);
    }
    RunOut { viol, labels: std::mem::take(&mut o.lab), outcome: Default::default(), log: std::mem::take(&mut o.log) }
}
