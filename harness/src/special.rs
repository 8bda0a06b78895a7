//! Engine 2: the algebra of `Event` values, and keys through a real poller.
//! Engine 3: failures injected into the construction, use and destruction of a poller.

use crate::case::Case;
use crate::io::{self, Kind, Source};
use crate::sched::{self, Viol};
use crate::seq::{self, RunOut, IS_EVENTFD, IS_PIPE, IS_POLL};
use polling::{Event, Events, PollMode, Poller};
use std::collections::BTreeMap;
use std::io::ErrorKind;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Default)]
pub struct Out {
    lab: BTreeMap<&'static str, u64>,
    log: Vec<String>,
    verbose: bool,
    degraded: bool,
}

pub type Sh = Arc<Mutex<Out>>;

pub fn label(sh: &Sh, l: &'static str) {
    *sh.lock().unwrap().lab.entry(l).or_insert(0) += 1;
}

pub fn say(sh: &Sh, f: impl FnOnce() -> String) {
    let mut o = sh.lock().unwrap();
    if o.verbose {
        let s = f();
        o.log.push(s);
    }
}

pub fn viol(sh: &Sh, mut tags: Vec<&'static str>, msg: String) {
    let mut o = sh.lock().unwrap();
    if o.degraded || IS_PIPE {
        tags.push("C21");
    }
    tags.sort();
    tags.dedup();
    let l = format!("!! {tags:?} {msg}");
    o.log.push(l);
    drop(o);
    sched::violate(Viol { tags, msg });
}

pub fn start(case: &Case, verbose: bool, deny: u32, f: impl FnOnce(&Sh) + Send + 'static) -> RunOut {
    let _ = case;
    let sh: Sh = Arc::new(Mutex::new(Out { verbose, degraded: deny != 0, ..Default::default() }));
    let s2 = sh.clone();
    let s3 = sh.clone();
    let setup = sched::Setup {
        faults: sched::Faults {
            deny_eventfd: deny & 1 != 0 && !crate::seq::IS_EVENTFD,
            deny_timerfd: deny & 2 != 0,
            deny_pipe2: deny & 4 != 0,
            ..Default::default()
        },
        ..Default::default()
    };
    let outcome = sched::run(
        setup,
        vec![Box::new(move || f(&s2))],
        Some(Box::new(move |i| {
            let t = &i.th[0];
            if t.op != 0 && i.next.is_none() {
                let tags = match t.op {
                    sched::OP_WAIT => vec!["C02", "C09", "C12", "C22", "C24"],
                    sched::OP_NOTIFY => vec!["C09", "C22", "C23"],
                    _ => vec!["C22", "C23"],
                };
                let msg = format!("call {} blocks for ever", t.op);
                s3.lock().unwrap().log.push(format!("!! {tags:?} {msg}"));
                return sched::IdleAction::Violation(Viol { tags, msg });
            }
            sched::IdleAction::Continue
        })),
    );
    let mut viol = outcome.violation.clone();
    if viol.is_none() && outcome.aborted {
        viol = Some(Viol { tags: vec!["INTERNAL"], msg: "case aborted without a recorded reason".into() });
    }
    let mut o = match sh.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    let (labels, log) = (std::mem::take(&mut o.lab), std::mem::take(&mut o.log));
    RunOut { viol, labels, outcome, log }
}

// ------------------------------------------------------------------------------------ engine 2

pub mod eop {
    pub const NEW: u32 = 0;
    pub const SET_INT: u32 = 1;
    pub const SET_PRI: u32 = 2;
    pub const WITH_INT: u32 = 3;
    pub const WITH_PRI: u32 = 4;
    pub const CLEAR: u32 = 5;
    pub const NO_EXTRA: u32 = 6;
    pub const COPY: u32 = 7;
    pub const DELIVER: u32 = 8;
    pub const TOGGLE: u32 = 9;
    pub const FIELDS: u32 = 10;
    pub const TRIP: u32 = 11;
    pub const BADKEY: u32 = 12;
    pub const N: u32 = 13;
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Me {
    key: usize,
    r: bool,
    w: bool,
    int: bool,
    pri: bool,
    err: bool,
    /// carries nothing but interrupt and priority
    plain: bool,
}

pub fn key_of(a: u32, b: u32) -> usize {
    let k = match a % 16 {
        0 => b as usize,
        1 => usize::MAX - 1 - b as usize % 1000,
        2 => (b as usize) << 32,
        3 => 1usize << (b % 64),
        4 => !(1usize << (b % 64)),
        5 => (1usize << (b % 63 + 1)) - 1,
        6 => usize::MAX / 2 + b as usize % 5,
        7 => [0, 1, u32::MAX as usize, i32::MAX as usize, 1 << 31, 1 << 32, u16::MAX as usize, usize::MAX - 1][b as usize % 8],
        _ => (a as usize) << 32 | b as usize,
    };
    if k == usize::MAX {
        0
    } else {
        k
    }
}

fn check_ev(sh: &Sh, what: &str, e: &Event, m: &Me) {
    let bad = if e.key != m.key {
        format!("key {:#x}, expected {:#x}", e.key, m.key)
    } else if (e.readable, e.writable) != (m.r, m.w) {
        format!("readable/writable {}/{}, expected {}/{}", e.readable, e.writable, m.r, m.w)
    } else if e.is_interrupt() != m.int {
        format!("is_interrupt {}, expected {}", e.is_interrupt(), m.int)
    } else if e.is_priority() != m.pri {
        format!("is_priority {}, expected {}", e.is_priority(), m.pri)
    } else if (e.is_err() == Some(true)) != m.err {
        format!("is_err {:?}, expected {}", e.is_err(), m.err)
    } else {
        String::new()
    };
    if !bad.is_empty() {
        viol(sh, vec!["C18"], format!("after {what}: {bad} ({e:?})"));
    }
}

/// Sources in states with various flags: (kind, actions).
const STATES: [(Kind, &[u32]); 8] = [
    (Kind::Unix, &[]),
    (Kind::Unix, &[0]),
    (Kind::Refused, &[]),
    (Kind::PipeR, &[7]),
    (Kind::PipeW, &[7]),
    (Kind::Tcp, &[8]),
    (Kind::Tcp, &[0, 6]),
    (Kind::Unix, &[0, 7]),
];

fn deliver(sh: &Sh, key: usize, bits: u32, st: u32) -> Option<Event> {
    let (kind, acts) = STATES[st as usize % STATES.len()];
    let mut src = Source::new(kind);
    for a in acts {
        io::act(&mut src, *a);
    }
    let p = match sched::api(sched::OP_NEW, 0, Poller::new) {
        Ok(Ok(p)) => p,
        r => {
            viol(sh, vec!["C22"], format!("Poller::new: {:?}", r.map(|x| x.is_ok())));
            return None;
        }
    };
    let mut int = Event::new(key, bits & 1 != 0 || bits % 4 == 0, bits & 2 != 0);
    int.set_interrupt(bits & 4 != 0);
    int.set_priority(bits & 8 != 0);
    let mode = if bits & 16 != 0 { PollMode::Level } else { PollMode::Oneshot };
    let mut evs = Events::new();
    let r = sched::api(sched::OP_ADD, 0, || unsafe { p.add_with_mode(&src.borrow(), int, mode) });
    if !matches!(r, Ok(Ok(()))) {
        viol(sh, vec!["C07", "C18"], format!("add with key {key:#x}: {r:?}"));
        return None;
    }
    if bits & 32 != 0 {
        // the same through modify
        let r = sched::api(sched::OP_MODIFY, 0, || p.modify_with_mode(src.borrow(), int, mode));
        if !matches!(r, Ok(Ok(()))) {
            viol(sh, vec!["C06", "C18"], format!("modify with key {key:#x}: {r:?}"));
            return None;
        }
    }
    let t = src.truth();
    let r = sched::api(sched::OP_WAIT, 0, || p.wait(&mut evs, Some(Duration::from_millis(1))));
    let got: Vec<Event> = evs.iter().collect();
    let rd = t & (io::IN | io::HUP | io::ERR) != 0;
    let wr = t & (io::OUT | io::HUP | io::ERR) != 0;
    let due = (int.readable && rd) || (int.writable && wr);
    if let Some(e) = got.iter().find(|e| e.key != key) {
        viol(sh, vec!["C18", "C01"], format!("registered key {key:#x}, reported {:#x}", e.key));
    }
    if due && got.is_empty() {
        viol(sh, vec!["C02", "C18"], format!("source with key {key:#x} in state {t:#x} is not reported: {r:?}"));
    }
    if sched::draining() {
        return None;
    }
    let _ = sched::api(sched::OP_DELETE, 0, || p.delete(src.borrow()));
    let _ = sched::api(sched::OP_DROP, 0, move || drop(p));
    got.first().copied()
}

fn algebra(sh: &Sh, ops: &[[u32; 5]]) {
    let mut pool: Vec<(Event, Me)> = vec![];
    let new = |how: u32, key: usize, b: u32| -> (Event, Me) {
        let (e, r, w) = match how % 5 {
            0 => (Event::all(key), true, true),
            1 => (Event::readable(key), true, false),
            2 => (Event::writable(key), false, true),
            3 => (Event::none(key), false, false),
            _ => (Event::new(key, b & 1 != 0, b & 2 != 0), b & 1 != 0, b & 2 != 0),
        };
        (e, Me { key, r, w, int: false, pri: false, err: false, plain: true })
    };
    pool.push(new(4, 7, 3));
    for o in ops {
        if sched::draining() {
            return;
        }
        let i = o[1] as usize % pool.len();
        let (mut e, mut m) = pool[i];
        let val = o[2] & 1 != 0;
        let what = format!("op {} on value {i} {m:?}", o[0] % eop::N);
        match o[0] % eop::N {
            eop::NEW => {
                let (a, b) = new(o[2], key_of(o[3], o[4]), o[1]);
                e = a;
                m = b;
                // equality compares every part
                if m.key == key_of(o[3], o[4]) && (e != Event::new(m.key, m.r, m.w) || e == Event::new(m.key ^ 1, m.r, m.w) || e == Event::new(m.key, !m.r, m.w) || e == Event::new(m.key, m.r, !m.w)) {
                    viol(sh, vec!["C18"], format!("equality of {e:?} is wrong"));
                }
                label(sh, "constructed");
            }
            eop::SET_INT => {
                e.set_interrupt(val);
                m.int = val;
                label(sh, if m.plain { "set" } else { "set-on-delivered" });
            }
            eop::SET_PRI => {
                e.set_priority(val);
                m.pri = val;
                label(sh, if m.plain { "set" } else { "set-on-delivered" });
            }
            eop::WITH_INT => {
                let old = e;
                e = e.with_interrupt();
                m.int = true;
                check_ev(sh, "with_interrupt (original)", &old, &pool[i].1);
            }
            eop::WITH_PRI => {
                let old = e;
                e = e.with_priority();
                m.pri = true;
                check_ev(sh, "with_priority (original)", &old, &pool[i].1);
            }
            eop::CLEAR | eop::NO_EXTRA => {
                label(sh, if m.plain { "clear" } else { "clear-delivered" });
                if o[0] % eop::N == eop::CLEAR {
                    e.clear_extra();
                } else {
                    e = e.with_no_extra();
                }
                m.int = false;
                m.pri = false;
                m.err = false;
                m.plain = true;
                #[allow(deprecated)]
                let cf = e.is_connect_failed();
                if cf == Some(true) {
                    viol(sh, vec!["C18"], "is_connect_failed after clearing all extra information".into());
                }
                if e != Event::new(m.key, m.r, m.w) || Event::new(m.key, m.r, m.w) != e {
                    viol(sh, vec!["C18"], format!("{e:?} with no extra information differs from a new event with the same key and directions"));
                }
            }
            eop::COPY => {
                let c = e;
                if c != e {
                    viol(sh, vec!["C18"], format!("a copy of {e:?} differs from it"));
                }
                let k = o[2] as usize % pool.len();
                pool[k] = (c, m);
            }
            eop::DELIVER => {
                let key = key_of(o[3], o[4]);
                if let Some(d) = deliver(sh, key, o[1], o[2]) {
                    label(sh, "delivered");
                    e = d;
                    m = Me {
                        key,
                        r: d.readable,
                        w: d.writable,
                        int: d.is_interrupt(),
                        pri: d.is_priority(),
                        err: d.is_err() == Some(true),
                        plain: false,
                    };
                    if m.int || m.pri || m.err {
                        label(sh, "delivered-with-flags");
                    }
                } else if sched::draining() {
                    return;
                }
            }
            eop::TOGGLE => {
                let old = e;
                if val {
                    e.set_interrupt(!m.int);
                    e.set_interrupt(m.int);
                } else {
                    e.set_priority(!m.pri);
                    e.set_priority(m.pri);
                }
                let _ = old;
            }
            eop::FIELDS => {
                e.key = key_of(o[3], o[4]);
                e.readable = val;
                e.writable = o[2] & 2 != 0;
                m.key = e.key;
                m.r = val;
                m.w = o[2] & 2 != 0;
            }
            eop::TRIP => {
                let key = key_of(o[3], o[4]);
                label(sh, "round-trip");
                if let Some(d) = deliver(sh, key, 19 + (o[1] & 32), 1) {
                    let mut c = d;
                    c.clear_extra();
                    if c != Event::all(key) {
                        viol(sh, vec!["C18"], format!("readable and writable source with key {key:#x} reported as {d:?}"));
                    }
                }
            }
            _ => {
                let r = sched::api(sched::OP_NEW, 0, Poller::new);
                if let Ok(Ok(p)) = r {
                    let src = Source::new(Kind::Unix);
                    let mut ev = e;
                    ev.key = usize::MAX;
                    let r = sched::api(sched::OP_ADD, 0, || unsafe { p.add(&src.borrow(), ev) });
                    let ok = matches!(&r, Ok(Err(e)) if e.kind() == ErrorKind::InvalidInput);
                    if !ok {
                        viol(sh, vec!["C18", "C07"], format!("add with key usize::MAX: {r:?}"));
                        return;
                    }
                    let r = sched::api(sched::OP_DELETE, 0, || p.delete(src.borrow()));
                    let ok = matches!(&r, Ok(Err(e)) if e.kind() == ErrorKind::NotFound);
                    if !ok {
                        viol(sh, vec!["C07"], format!("a source whose add failed can be deleted: {r:?}"));
                        return;
                    }
                    let _ = sched::api(sched::OP_DROP, 0, move || drop(p));
                    label(sh, "reserved-key");
                }
            }
        }
        say(sh, || format!("{what} -> {e:?}"));
        check_ev(sh, &what, &e, &m);
        // Values built in different ways are equal exactly if they say the same.
        for (x, y) in &pool {
            if y.plain && m.plain && (*x == e) != (*y == m) {
                viol(sh, vec!["C18"], format!("{x:?} == {e:?} is {}", *x == e));
                break;
            }
        }
        let _ = format!("{e:?}");
        if pool.len() < 6 && matches!(o[0] % eop::N, eop::NEW | eop::DELIVER) {
            pool.push((e, m));
        } else {
            pool[i] = (e, m);
        }
    }
    if let Some(fd) = sched::st().owned.first() {
        viol(sh, vec!["C22"], format!("descriptor {fd} is still open"));
    }
}

pub fn run2(case: &Case, verbose: bool) -> RunOut {
    let ops = case.progs.first().cloned().unwrap_or_default();
    start(case, verbose, 0, move |sh| algebra(sh, &ops))
}

// ------------------------------------------------------------------------------------ engine 3

pub const ERRNOS: [i32; 6] = [libc::EMFILE, libc::ENOMEM, libc::ENFILE, libc::ENOSYS, libc::EINVAL, libc::EPERM];

/// The process's descriptors, from the kernel.
pub fn fds() -> Vec<(i32, u64)> {
    let mut v = vec![];
    for fd in 0..256 {
        let mut st: libc::stat = unsafe { std::mem::zeroed() };
        if unsafe { crate::sys::raw3(libc::SYS_fstat, fd as usize, &mut st as *mut _ as usize, 0) } == 0 {
            v.push((fd, st.st_ino));
        }
    }
    v
}

fn arm(f: &[(u32, i32)]) {
    let s = sched::st();
    s.faults.calls_seen = 0;
    s.faults.fail_nth = f.to_vec();
    s.faults.fail_hit.clear();
}

fn fmt_hits() -> String {
    sched::st().faults.fail_hit.iter().map(|x| format!("{} (errno {})", x.0, x.1)).collect::<Vec<_>>().join(", ")
}

struct Fc {
    deny: u32,
    kind: Kind,
    new: Vec<(u32, i32)>,
    add: Vec<(u32, i32)>,
    del: Vec<(u32, i32)>,
    keep: bool,
    rounds: u32,
}

fn one(sh: &Sh, c: &Fc) {
    let src = Source::new(c.kind);
    let before = fds();
    arm(&c.new);
    let r = sched::api(sched::OP_NEW, 0, Poller::new);
    let hits = sched::st().faults.fail_hit.clone();
    let calls = sched::st().faults.calls_seen;
    let hs = fmt_hits();
    arm(&[]);
    say(sh, || format!("new with denials {:#b}, failing {hs}: {:?} ({calls} calls)", c.deny, r.as_ref().map(|x| x.as_ref().map(|_| ()).map_err(|e| e.to_string()))));
    let r = match r {
        Ok(r) => r,
        Err(pn) => return viol(sh, vec!["C22", "C21"], format!("Poller::new panicked when {hs} failed: {pn}")),
    };
    let now = fds();
    if let Some(fd) = sched::st().bad_close.first() {
        return viol(sh, vec!["C22"], format!("Poller::new closed descriptor {fd} twice or one it does not own when {hs} failed"));
    }
    let p = match r {
        Err(e) => {
            label(sh, "failed-new");
            if hits.is_empty() {
                return viol(sh, vec!["C21", "C22"], format!("Poller::new fails although nothing but eventfd, timerfd or pipe flags was refused: {e}"));
            }
            if now != before {
                return viol(sh, vec!["C22"], format!("Poller::new failed ({e}; failing call: {hs}) and leaves descriptors {:?}", extra(&before, &now)));
            }
            // On ESP-IDF, a refusal comes with an explanation.
            let explained = IS_EVENTFD && e.kind() == std::io::ErrorKind::PermissionDenied && hits.iter().any(|h| h.1 == libc::EPERM);
            if !explained && !e.raw_os_error().is_some_and(|n| hits.iter().any(|h| h.1 == n) || n == libc::ENOSYS) {
                return viol(sh, vec!["C22"], format!("Poller::new returned {e} when {hs} failed"));
            }
            // refusals that must be tolerated
            if !IS_EVENTFD && hits.iter().all(|h| matches!(h.0, "eventfd" | "timerfd_create" | "pipe2") && matches!(h.1, libc::ENOSYS | libc::EINVAL | libc::EPERM)) {
                return viol(sh, vec!["C21"], format!("Poller::new fails when only {hs} is refused: {e}"));
            }
            return;
        }
        Ok(p) => p,
    };
    label(sh, if hits.is_empty() { "new" } else { "new-despite-fault" });
    if hits.iter().any(|h| matches!(h.0, "epoll_create1" | "epoll_ctl" | "pipe")) && !IS_POLL {
        return viol(sh, vec!["C22"], format!("Poller::new succeeded although {hs} failed"));
    }
    if IS_EVENTFD && !hits.is_empty() {
        return viol(sh, vec!["C22"], format!("Poller::new succeeded although {hs} failed"));
    }
    for (fd, _) in extra(&before, &now) {
        if unsafe { libc::fcntl(fd, libc::F_GETFD, 0) } & libc::FD_CLOEXEC == 0 {
            return viol(sh, vec!["C22", "C21"], format!("descriptor {fd} of a new poller is not close-on-exec (denials {:#b}; {hs})", c.deny));
        }
    }
    let mut evs = Events::new();
    let mut wait = |to: Duration| {
        evs.clear();
        let t0 = sched::now();
        let r = sched::api(sched::OP_WAIT, 0, || p.wait(&mut evs, Some(to)));
        (r, evs.iter().collect::<Vec<Event>>(), sched::now() - t0)
    };
    const T: &[&str] = &["C21", "C22"];
    for round in 0..1 + c.rounds % 3 {
        macro_rules! bad {
            ($t:expr, $($f:tt)*) => {{
                let mut t: Vec<&'static str> = T.to_vec();
                t.extend($t);
                return viol(sh, t, format!("{} (denials {:#b}, tolerated failures {hs}, round {round})", format!($($f)*), c.deny));
            }};
        }
        for _ in 0..1 + round * 40 {
            let r = sched::api(sched::OP_NOTIFY, 0, || p.notify());
            if !matches!(r, Ok(Ok(()))) {
                bad!(["C09"], "notify returned {r:?}");
            }
        }
        let (r, l, dt) = wait(Duration::from_secs(5));
        if sched::draining() {
            return;
        }
        if !matches!(r, Ok(Ok(0))) || !l.is_empty() || dt > 0 {
            bad!(["C09", "C10"], "a notified wait returned {r:?} with {} events after {dt} ns", l.len());
        }
        for to in [3_000_000u64, 1, 1_500_000, 0] {
            let (r, l, dt) = wait(Duration::from_nanos(to));
            if sched::draining() {
                return;
            }
            if !matches!(r, Ok(Ok(0))) || !l.is_empty() || dt < to as u128 {
                bad!(["C11"], "a wait of {to} ns returned {r:?} with {} events after {dt} ns", l.len());
            }
            if dt > to as u128 + 1_000_000 || (to == 0 && dt > 0) {
                bad!(["C12"], "a wait of {to} ns took {dt} ns");
            }
        }
        // a failing registration leaves nothing behind
        arm(&c.add);
        let ev = Event::all(42 + round as usize);
        let r = sched::api(sched::OP_ADD, 0, || unsafe { p.add(&src.borrow(), ev) });
        let ah = sched::st().faults.fail_hit.clone();
        arm(&[]);
        say(sh, || format!("add with failures {ah:?}: {r:?}"));
        match &r {
            Ok(Ok(())) => {}
            Ok(Err(e)) if ah.iter().any(|h| Some(h.1) == e.raw_os_error()) => {
                label(sh, "failed-add");
                let a = sched::api(sched::OP_MODIFY, 0, || p.modify(src.borrow(), ev));
                let b = sched::api(sched::OP_DELETE, 0, || p.delete(src.borrow()));
                let nf = |r: &Result<std::io::Result<()>, String>| matches!(r, Ok(Err(e)) if e.kind() == ErrorKind::NotFound);
                if !nf(&a) || !nf(&b) {
                    bad!(["C07"], "after a failed add modify returned {a:?} and delete {b:?}");
                }
                let (r, l, _) = wait(Duration::ZERO);
                if !matches!(r, Ok(Ok(0))) || !l.is_empty() {
                    bad!(["C07"], "after a failed add wait returned {r:?} {l:?}");
                }
                let r = sched::api(sched::OP_ADD, 0, || unsafe { p.add(&src.borrow(), ev) });
                if !matches!(r, Ok(Ok(()))) {
                    bad!(["C07"], "add after a failed add returned {r:?}");
                }
            }
            r => bad!(["C07"], "add returned {r:?}, injected {ah:?}"),
        }
        if sched::draining() {
            return;
        }
        let t = src.truth();
        if t & (io::IN | io::OUT | io::HUP | io::ERR) != 0 {
            let (r, l, dt) = wait(Duration::from_secs(1));
            if sched::draining() {
                return;
            }
            if !matches!(r, Ok(Ok(1))) || l.len() != 1 || l[0].key != ev.key || dt > 0 {
                bad!(["C02"], "a ready source is reported as {r:?} {l:?} after {dt} ns");
            }
            let r = sched::api(sched::OP_MODIFY, 0, || p.modify(src.borrow(), Event::all(77)));
            let (r2, l, _) = wait(Duration::from_secs(1));
            if sched::draining() {
                return;
            }
            if !matches!(r, Ok(Ok(()))) || !matches!(r2, Ok(Ok(1))) || l[0].key != 77 {
                bad!(["C06"], "modify returned {r:?}, then wait {r2:?} {l:?}");
            }
        }
        if !(c.keep && round == c.rounds % 3) {
            let r = sched::api(sched::OP_DELETE, 0, || p.delete(src.borrow()));
            if !matches!(r, Ok(Ok(()))) {
                bad!(["C08"], "delete returned {r:?}");
            }
        }
        if fds().len() != now.len() {
            return viol(sh, vec!["C22", "C23"], format!("using a poller left descriptors {:?}", extra(&now, &fds())));
        }
    }
    arm(&c.del);
    let r = sched::api(sched::OP_DROP, 0, move || drop(p));
    let dh = fmt_hits();
    arm(&[]);
    if let Err(pn) = r {
        return viol(sh, vec!["C22"], format!("drop panicked when {dh} failed: {pn}"));
    }
    if !dh.is_empty() {
        label(sh, "drop-with-failures");
    }
    let end = fds();
    if end != before {
        return viol(sh, vec!["C22"], format!("after the poller was dropped ({dh} failing) the descriptors differ: left {:?}, missing {:?}", extra(&before, &end), extra(&end, &before)));
    }
    if let Some(fd) = sched::st().bad_close.first() {
        viol(sh, vec!["C22"], format!("descriptor {fd} closed twice or not owned"));
    }
}

fn extra(a: &[(i32, u64)], b: &[(i32, u64)]) -> Vec<(i32, u64)> {
    b.iter().filter(|x| !a.contains(x)).copied().collect()
}

pub fn run3(case: &Case, verbose: bool) -> RunOut {
    let g = |i: usize| case.cfg.get(i).copied().unwrap_or(0);
    let f = |w: u32| -> Vec<(u32, i32)> {
        case.faults.iter().filter(|x| x[0] % 3 == w).map(|x| (x[1] % 16, ERRNOS[x[2] as usize % ERRNOS.len()])).collect()
    };
    let c = Fc {
        deny: g(0) % 8,
        kind: io::KINDS[g(1) as usize % io::KINDS.len()],
        new: f(0),
        // registration fails for lack of memory or of watches
        add: f(1).into_iter().map(|x| (x.0 % 3, if x.1 == libc::EMFILE { libc::ENOSPC } else { libc::ENOMEM })).collect(),
        del: f(2).into_iter().map(|x| (x.0 % 6, x.1)).collect(),
        keep: g(2) % 2 == 1,
        rounds: g(3),
    };
    let deny = c.deny;
    start(case, verbose, deny, move |sh| one(sh, &c))
}

/// Every single failure and every pair of failures while a poller is created, for every
/// combination of refused facilities.
pub fn fault_grid() -> Vec<Case> {
    let mut v = vec![];
    let mk = |deny: u32, f: Vec<[u32; 3]>, keep: u32| Case { engine: 3, cfg: vec![deny, 0, keep, 0], progs: vec![], sched: vec![], faults: f };
    for deny in 0..8 {
        v.push(mk(deny, vec![], 0));
        for n in 0..13u32 {
            for e in 0..ERRNOS.len() as u32 {
                v.push(mk(deny, vec![[0, n, e]], n % 2));
            }
            for k in 0..n {
                v.push(mk(deny, vec![[0, k, (n + k) % 6], [0, n, 0]], 1));
                v.push(mk(deny, vec![[0, k, 3], [0, n, 3]], 0));
            }
        }
        for n in 0..3 {
            v.push(mk(deny, vec![[1, n, 0]], 0));
            v.push(mk(deny, vec![[1, n, 1]], 0));
        }
        for n in 0..6 {
            for k in 0..=n {
                v.push(mk(deny, vec![[2, n, 1], [2, k, 5]], 1));
            }
        }
    }
    v
}

#[allow(dead_code)]
fn _slack() -> u128 {
    seq::slack()
}
