//! Concurrency engine: several threads share pollers under the deterministic scheduler. The
//! history (call and return of every operation, with virtual times) is judged by rules that hold
//! in every interleaving; nothing here depends on how the library is written.

use crate::case::Case;
use crate::io::{self, Kind, Source};
use crate::sched::{self, IdleAction, IdleInfo, St, Viol};
use crate::seq::{self, show, RunOut};
use polling::{Event, Events, PollMode, Poller};
use std::collections::BTreeMap;
use std::io::ErrorKind;
use std::num::NonZeroUsize;
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::Duration;

pub mod op {
    pub const WAIT: u32 = 0;
    pub const NOTIFY: u32 = 1;
    pub const ADD: u32 = 2;
    pub const MODIFY: u32 = 3;
    pub const DELETE: u32 = 4;
    pub const IO: u32 = 5;
    pub const SLEEP: u32 = 6;
    pub const FAILWAIT: u32 = 7;
    pub const INTR: u32 = 8;
    /// Registers and deregisters an own source many times.
    pub const CHURN: u32 = 9;
    pub const N: u32 = 10;
}

use seq::{IS_PIPE, IS_POLL};

const MS: u128 = 1_000_000;

pub const TIMEOUTS: [Option<Duration>; 8] = [
    None,
    Some(Duration::ZERO),
    Some(Duration::from_nanos(1)),
    Some(Duration::from_millis(1)),
    Some(Duration::from_millis(5)),
    Some(Duration::from_micros(50_300)),
    Some(Duration::from_secs(10)),
    None,
];

pub const SLEEPS: [u64; 6] = [1, 400_000, 1_000_000, 4_900_000, 20_000_000, 9_999_999_000];

#[derive(Clone, Debug)]
struct Arm {
    key: usize,
    p: usize,
    s: usize,
    r: bool,
    w: bool,
    hup: bool,
    pri: bool,
    mode: PollMode,
    inv: u64,
    ret: u64,
    failed: bool,
    delivered: u32,
    /// an event was reported that may stand for this or for another registration with the same key
    unsure: bool,
    /// return of the first successful call on the same source that surely came later
    sup: u64,
    /// readiness asked for that has held without interruption since the call returned
    persist: i16,
    by_modify: bool,
    during: bool,
}

impl Arm {
    fn asked(&self, t: i16) -> bool {
        self.mask() & t != 0
    }
    fn mask(&self) -> i16 {
        let mut m = 0;
        if self.r {
            m |= io::IN | io::PRI | io::HUP | io::ERR;
        }
        if self.w {
            m |= io::OUT | io::HUP | io::ERR;
        }
        if self.pri {
            m |= io::PRI;
        }
        if self.hup {
            m |= io::HUP;
        }
        m
    }
    fn may(&self, t: i16) -> bool {
        t & (self.mask() | io::HUP | io::ERR) != 0
    }
    fn edge(&self) -> bool {
        matches!(self.mode, PollMode::Edge | PollMode::EdgeOneshot)
    }
    fn oneshot(&self) -> bool {
        matches!(self.mode, PollMode::Oneshot | PollMode::EdgeOneshot)
    }
    fn must(&self, t: i16) -> bool {
        if self.failed || self.ret == 0 || self.unsure {
            return false;
        }
        match self.mode {
            PollMode::Level => self.asked(t),
            PollMode::Oneshot => self.delivered == 0 && self.asked(t),
            _ => self.delivered == 0 && self.persist & self.mask() & t != 0,
        }
    }
    fn tags(&self, v: &mut Vec<&'static str>) {
        match self.mode {
            PollMode::Level => v.push("C04"),
            PollMode::Edge | PollMode::EdgeOneshot => v.push("C05"),
            _ => {}
        }
        if self.by_modify {
            v.push("C06");
            if self.oneshot() {
                v.push("C03");
            }
        }
    }
}

#[derive(Clone, Debug)]
struct WOp {
    kind: u32,
    arm: usize,
    inv: u64,
    ret: u64,
    res: Option<Result<(), ErrorKind>>,
    unsupported: bool,
}

struct Wt {
    inv: u64,
    overlapped: bool,
    regop: bool,
    eintr0: u32,
    /// latest return time but for injected delays
    limit: Option<u128>,
}

#[derive(Default)]
struct Pm {
    /// (call, return) of notifications
    notes: Vec<(u64, u64)>,
    /// return of the last wait that may have consumed a notification
    consumer: u64,
    /// call of the latest wait that was surely accepted and returned
    accepted: u64,
    early: u64,
    failed_wait: bool,
    rejected: bool,
    eintr: bool,
    regop_during: bool,
    deleted: bool,
    failed_call: bool,
    /// a wait was ended by a notification
    notified: bool,
    /// a wait filled its container
    truncated: bool,
}

struct H {
    pollers: Vec<Option<Arc<Poller>>>,
    pm: Vec<Pm>,
    src: Vec<Source>,
    truth: Vec<Vec<(u64, i16)>>,
    arms: Vec<Arm>,
    /// possible registrations of (poller, source)
    cur: Vec<Vec<Vec<Option<usize>>>>,
    win: Vec<Vec<Vec<WOp>>>,
    /// when the latest window closed
    closed: Vec<Vec<u64>>,
    unknown: Vec<Vec<bool>>,
    /// waits in progress: (thread, poller) -> Wt
    waits: Vec<Option<(usize, Wt)>>,
    seq: u64,
    nkey: usize,
    running: usize,
    rescue: bool,
    rescues: u32,
    lab: BTreeMap<&'static str, u64>,
    log: Vec<String>,
    verbose: bool,
}

/// Scheduling points of the latest case up to the end of its programs.
/// Scheduling points (all, and those at synchronization operations) of the programs that ran last.
pub static PROG_POINTS: [std::sync::atomic::AtomicU64; 2] = [const { std::sync::atomic::AtomicU64::new(0) }; 2];

pub struct Sh {
    h: Mutex<H>,
    nt: usize,
    shared: bool,
    degraded: bool,
}

impl H {
    fn tick(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
    fn label(&mut self, l: &'static str) {
        *self.lab.entry(l).or_insert(0) += 1;
    }
    fn say(&mut self, s: impl FnOnce() -> String) {
        if self.verbose {
            let t = if sched::on_sim() { sched::tid() as i32 } else { -1 };
            let n = if sched::on_sim() { sched::st().points } else { 0 };
            let s = s();
            self.log.push(format!("[{n}] T{t} {s}"));
        }
    }
    fn now_truth(&self, s: usize) -> i16 {
        self.truth[s].last().unwrap().1
    }
    /// (or, and) of the truth since `inv`.
    fn truth_since(&self, s: usize, inv: u64) -> (i16, i16) {
        let (mut u, mut st) = (0, !0);
        for (q, t) in self.truth[s].iter().rev() {
            u |= t;
            st &= t;
            if *q < inv {
                break;
            }
        }
        (u, st)
    }
    fn must(&self, p: usize, s: usize) -> Option<usize> {
        if self.unknown[p][s] || !self.win[p][s].is_empty() || self.cur[p][s].is_empty() {
            return None;
        }
        let t = self.now_truth(s);
        if self.cur[p][s].iter().all(|c| c.is_some_and(|a| self.arms[a].must(t))) {
            self.cur[p][s][0]
        } else {
            None
        }
    }
    /// What happened before that a failure about registration `a` may be due to.
    fn ctx(&self, a: &Arm, v: &mut Vec<&'static str>) {
        a.tags(v);
        let m = &self.pm[a.p];
        for (c, t) in [
            (m.failed_wait, "C24"),
            (m.eintr, "C13"),
            (m.rejected, "C15"),
            (m.deleted, "C08"),
            (m.failed_call, "C07"),
            (m.notified, "C10"),
            (m.truncated, "C16"),
            (self.cur.iter().filter(|c| c[a.s].iter().any(|x| x.is_some())).count() > 1, "C20"),
        ] {
            if c {
                v.push(t);
            }
        }
    }
    fn due(&self, p: usize) -> Option<usize> {
        (0..self.src.len()).find_map(|s| self.must(p, s))
    }
}

impl Sh {
    fn h(&self) -> MutexGuard<'_, H> {
        self.h.try_lock().expect("history lock")
    }
    fn viol(&self, mut tags: Vec<&'static str>, msg: String) {
        if self.degraded || IS_PIPE {
            tags.push("C21");
        }
        tags.sort();
        tags.dedup();
        self.h().say(|| format!("!! {tags:?} {msg}"));
        sched::violate(Viol { tags, msg });
    }
}

/// Which states can (poller, source) be in after the calls of a closed window?
fn linearize(start: &[Option<usize>], ops: &[WOp]) -> Vec<Option<usize>> {
    fn go(st: Option<usize>, left: &mut Vec<usize>, ops: &[WOp], out: &mut Vec<Option<usize>>) {
        if left.is_empty() {
            if !out.contains(&st) {
                out.push(st);
            }
            return;
        }
        for i in 0..left.len() {
            let o = left[i];
            // o may come first only if no other one returned before it was called
            if left.iter().any(|&q| q != o && ops[q].ret < ops[o].inv) {
                continue;
            }
            let res = ops[o].res.unwrap();
            let exp = match (ops[o].kind, st) {
                (op::ADD, None) => Ok(()),
                (op::ADD, Some(_)) => Err(ErrorKind::AlreadyExists),
                (_, Some(_)) => Ok(()),
                (_, None) => Err(ErrorKind::NotFound),
            };
            let fits = if ops[o].unsupported {
                res == Err(ErrorKind::Unsupported) || (exp.is_err() && res == exp)
            } else {
                res == exp
            };
            if !fits {
                continue;
            }
            let ns = if res.is_err() {
                st
            } else if ops[o].kind == op::DELETE {
                None
            } else {
                Some(ops[o].arm)
            };
            left.remove(i);
            go(ns, left, ops, out);
            left.insert(i, o);
        }
    }
    let mut out = vec![];
    for s in start {
        let mut left: Vec<usize> = (0..ops.len()).collect();
        go(*s, &mut left, ops, &mut out);
    }
    out
}

fn mode_of(c: u32) -> PollMode {
    match c % 8 {
        0..=3 => PollMode::Oneshot,
        4 | 5 => PollMode::Level,
        6 => PollMode::Edge,
        _ => PollMode::EdgeOneshot,
    }
}

fn reg_op(sh: &Sh, kind: u32, p: usize, s: usize, b: u32, c: u32) {
    let mut h = sh.h();
    let Some(poller) = h.pollers[p].clone() else { return };
    let mode = mode_of(c);
    let inv = h.tick();
    let unsupported =
        kind != op::DELETE && matches!(mode, PollMode::Edge | PollMode::EdgeOneshot) && !poller.supports_edge();
    let arm = h.arms.len();
    let mut ev = Event::none(0);
    let during = h.waits.iter().flatten().any(|w| w.0 == p);
    for w in h.waits.iter_mut().flatten() {
        if w.0 == p {
            w.1.regop = true;
        }
    }
    if during {
        h.pm[p].regop_during = true;
        h.label("regop-during-wait");
    }
    if kind != op::DELETE {
        let b = if b % 4 == 0 && b % 16 / 4 == 0 { b + 1 } else { b };
        h.nkey += 1;
        // Sometimes the key that the source had, or has.
        let old = h.arms.iter().rfind(|a| a.p == p && a.s == s).map(|a| a.key);
        let key = match old {
            Some(k) if c / 8 % 2 == 1 => {
                h.label("same-key");
                k
            }
            _ => h.nkey,
        };
        ev = Event::new(key, b & 1 != 0, b & 2 != 0);
        ev.set_interrupt(b & 4 != 0);
        ev.set_priority(b & 8 != 0);
        h.arms.push(Arm {
            key: ev.key,
            p,
            s,
            r: ev.readable,
            w: ev.writable,
            hup: b & 4 != 0,
            pri: b & 8 != 0,
            mode,
            inv,
            ret: 0,
            failed: false,
            delivered: 0,
            unsure: false,
            sup: u64::MAX,
            persist: 0,
            by_modify: kind == op::MODIFY,
            during,
        });
    }
    h.win[p][s].push(WOp { kind, arm, inv, ret: 0, res: None, unsupported });
    let wi = inv;
    let what = format!(
        "{} p{p} s{s}{}",
        ["", "", "add", "modify", "delete"][kind as usize],
        if kind == op::DELETE { String::new() } else { format!(" {} {mode:?}", show(&ev)) }
    );
    h.say(|| format!("{what} ..."));
    let src = h.src[s].borrow();
    let v0 = seq::slack();
    let t0 = sched::now();
    drop(h);
    let res = sched::api([0, 0, sched::OP_ADD, sched::OP_MODIFY, sched::OP_DELETE][kind as usize], p as u32, || match kind {
        op::ADD => {
            if mode == PollMode::Oneshot {
                unsafe { poller.add(&src, ev) }
            } else {
                unsafe { poller.add_with_mode(&src, ev, mode) }
            }
        }
        op::MODIFY => {
            if mode == PollMode::Oneshot {
                poller.modify(src, ev)
            } else {
                poller.modify_with_mode(src, ev, mode)
            }
        }
        _ => poller.delete(src),
    });
    if sched::draining() {
        return;
    }
    let dt = sched::now() - t0;
    let extra = seq::slack() - v0;
    let mut h = sh.h();
    let ret = h.tick();
    h.say(|| format!("{what} -> {res:?}"));
    let mut ctx = vec!["C07", "C14"];
    if kind == op::MODIFY {
        ctx.push("C06");
    }
    if kind == op::DELETE {
        ctx.push("C08");
    }
    let res = match res {
        Err(pn) => {
            drop(h);
            return sh.viol(ctx, format!("{what} panicked: {pn}"));
        }
        Ok(r) => r,
    };
    if dt > extra {
        drop(h);
        return sh.viol(vec!["C14", "C23"], format!("{what} took {dt} ns"));
    }
    let rk = res.map_err(|e| e.kind());
    if rk.is_ok() {
        for a in h.arms.iter_mut() {
            if a.p == p && a.s == s && a.ret != 0 && a.ret < inv && a.sup == u64::MAX && !a.failed {
                a.sup = ret;
            }
        }
        h.label(["", "", "add", "modify", "delete"][kind as usize]);
        if kind == op::DELETE {
            h.pm[p].deleted = true;
        }
    } else {
        h.pm[p].failed_call = true;
        h.label("failed-regop");
    }
    if kind != op::DELETE {
        let t = h.now_truth(s);
        let a = &mut h.arms[arm];
        // a later key may have been pushed by another thread, `arm` is still ours
        a.ret = ret;
        a.failed = rk.is_err();
        a.persist = t;
        if rk.is_err() && a.delivered > 0 {
            drop(h);
            return sh.viol(vec!["C01", "C07"], format!("{what} failed but its key has been reported"));
        }
    }
    let w = &mut h.win[p][s];
    let me = w.iter_mut().find(|o| o.inv == wi).unwrap();
    me.ret = ret;
    me.res = Some(rk);
    if w.iter().all(|o| o.ret != 0) {
        let ops = std::mem::take(&mut h.win[p][s]);
        if h.unknown[p][s] || ops.len() > 7 {
            h.unknown[p][s] = true;
            return;
        }
        if ops.len() > 1 {
            h.label("racing-regops");
        }
        let out = linearize(&h.cur[p][s], &ops);
        if out.is_empty() {
            let start = h.cur[p][s].clone();
            let d: Vec<String> = ops
                .iter()
                .map(|o| format!("{}={:?}", ["", "", "add", "modify", "delete"][o.kind as usize], o.res.unwrap()))
                .collect();
            drop(h);
            return sh.viol(
                ctx,
                format!("results {} fit no order of the calls (s{s} on p{p} {} before)", d.join(", "), if start[0].is_some() { "registered" } else { "not registered" }),
            );
        }
        h.cur[p][s] = out;
        h.closed[p][s] = ret;
    }
}

fn io_op(sh: &Sh, s: usize, a: u32) {
    let mut h = sh.h();
    let a = a % io::NACT;
    let before = h.src[s].truth();
    if !io::act(&mut h.src[s], a) {
        return;
    }
    let after = h.src[s].truth();
    let q = h.tick();
    h.say(|| format!("io s{s} {} {before:#x} -> {after:#x}", io::ACT_NAMES[a as usize]));
    if before != after {
        h.truth[s].push((q, after));
        h.label("io");
    }
    for arm in h.arms.iter_mut() {
        if arm.s == s {
            arm.persist &= after;
        }
    }
}

fn notify_op(sh: &Sh, p: usize) {
    let mut h = sh.h();
    let Some(poller) = h.pollers[p].clone() else { return };
    let inv = h.tick();
    let i = h.pm[p].notes.len();
    h.pm[p].notes.push((inv, 0));
    h.say(|| format!("notify p{p} ..."));
    if h.waits.iter().flatten().any(|w| w.0 == p) {
        h.label("notify-during-wait");
    }
    h.label("notify");
    drop(h);
    let (t0, v0) = (sched::now(), seq::slack());
    let r = sched::api(sched::OP_NOTIFY, p as u32, || poller.notify());
    if sched::draining() {
        return;
    }
    let dt = sched::now() - t0;
    let extra = seq::slack() - v0;
    let mut h = sh.h();
    let ret = h.tick();
    h.pm[p].notes[i].1 = ret;
    h.say(|| format!("notify p{p} -> {r:?}"));
    drop(h);
    match r {
        Ok(Ok(())) => {
            if dt > extra {
                sh.viol(vec!["C09", "C23"], format!("notify took {dt} ns"));
            }
        }
        r => sh.viol(vec!["C09"], format!("notify returned {r:?}")),
    }
}

struct Cont {
    ev: Events,
    /// Do not clear before the next wait.
    keep: bool,
}

/// The kernel wait, if any, that a thread is blocked in for poller p (its unique number).
fn blocked_wait(p: usize, but: usize) -> Option<(usize, u64)> {
    let s = sched::st();
    s.th.iter().enumerate().find_map(|(i, t)| match &t.st {
        St::Kernel(k) if i != but && k.is_wait && t.op == sched::OP_WAIT && t.op_poller == p as u32 => Some((i, k.id)),
        _ => None,
    })
}

/// What is wrong with event `e` of a wait on `p` called at `inv` if it stands for registration `i`.
fn judge(h: &H, p: usize, inv: u64, got: &[usize], i: usize, e: &Event) -> Option<(Vec<&'static str>, String)> {
    macro_rules! fail {
        ($tags:expr, $($f:tt)*) => {
            return Some(($tags, format!($($f)*)))
        };
    }
    let a = h.arms[i].clone();
    if a.p != p {
        fail!(vec!["C01", "C20"], "event {} belongs to another poller", show(e));
    }
    if a.failed {
        fail!(vec!["C01", "C07"], "event {} carries the key of a failed call", show(e));
    }
    if a.sup < inv {
        let mut t = vec!["C01", "C14", "C06", "C08"];
        h.ctx(&a, &mut t);
        fail!(t, "event {} of s{}: replaced or deleted before this wait was called", show(e), a.s);
    }
    if got.contains(&i) {
        fail!(vec!["C01", "C03"], "event {} reported twice by one wait", show(e));
    }
    if a.oneshot() && a.delivered > 0 {
        let mut t = vec!["C03", "C14"];
        h.ctx(&a, &mut t);
        fail!(t, "oneshot registration of s{} reported again: {}", a.s, show(e));
    }
    let (u, st) = h.truth_since(a.s, inv);
    if !a.may(u) {
        let mut t = vec!["C01"];
        h.ctx(&a, &mut t);
        fail!(t, "s{} is reported ({}) but not ready: kernel {u:#x}", a.s, show(e));
    }
    let bad = u & (io::HUP | io::ERR) != 0;
    let sbad = st & (io::HUP | io::ERR) != 0;
    let rd = bad || (a.r && u & (io::IN | io::PRI) != 0) || (a.pri && u & io::PRI != 0);
    let wr = bad || (a.w && u & io::OUT != 0);
    if (e.readable && !rd) || (e.writable && !wr) {
        fail!(vec!["C01", "C06"], "event {} of s{} claims readiness that was not asked for or not there: kernel {u:#x}", show(e), a.s);
    }
    if (a.r && (sbad || st & io::IN != 0) && !e.readable) || (a.w && (sbad || st & io::OUT != 0) && !e.writable) {
        fail!(vec!["C02", "C06"], "event {} of s{} omits a ready direction: kernel {st:#x}", show(e), a.s);
    }
    if (e.is_interrupt() && u & io::HUP == 0)
        || (!e.is_interrupt() && st & io::HUP != 0)
        || (e.is_priority() && (u & io::PRI == 0 || !(a.r || a.pri)))
        || (!e.is_priority() && st & io::PRI != 0 && (a.r || a.pri))
        || (e.is_err() == Some(true) && u & io::ERR == 0)
        || (e.is_err() != Some(true) && st & io::ERR != 0)
    {
        fail!(vec!["C19"], "event {} of s{} misstates the extra information: kernel {st:#x}..{u:#x}", show(e), a.s);
    }
    None
}

fn wait_op(sh: &Sh, p: usize, cont: &mut Cont, timeout: Option<Duration>, fail: Option<i32>) -> Vec<usize> {
    let me = sched::tid();
    let mut h = sh.h();
    let Some(poller) = h.pollers[p].clone() else { return vec![] };
    if !std::mem::take(&mut cont.keep) {
        cont.ev.clear();
    }
    let old: Vec<Event> = cont.ev.iter().collect();
    let inv = h.tick();
    let mut overlapped = false;
    for w in h.waits.iter_mut().flatten() {
        if w.0 == p {
            w.1.overlapped = true;
            overlapped = true;
        }
    }
    if overlapped {
        h.label("concurrent-waits");
    }
    let holder = blocked_wait(p, me);
    let limit = timeout.map(|t| (sched::now() + t.as_nanos() + MS).saturating_sub(seq::slack()));
    let due0 = h.due(p);
    h.waits[me] = Some((p, Wt { inv, overlapped, regop: false, eintr0: sched::st().eintr_delivered, limit }));
    h.say(|| format!("wait p{p} {timeout:?} ..."));
    drop(h);
    let (t0, v0) = (sched::now(), seq::slack());
    if let Some(e) = fail {
        sched::set_fail(me, e);
    }
    let res = sched::api(sched::OP_WAIT, p as u32, || poller.wait(&mut cont.ev, timeout));
    let hit = !sched::clear_fail(me) && fail.is_some();
    if sched::draining() {
        return vec![];
    }
    let dt = sched::now() - t0;
    let extra = seq::slack() - v0;
    let mut h = sh.h();
    let ret = h.tick();
    let (_, w) = h.waits[me].take().unwrap();
    let eintr = sched::st().eintr_delivered > w.eintr0;
    if eintr {
        h.pm[p].eintr = true;
        h.label("interrupted-wait");
    }
    let list: Vec<Event> = cont.ev.iter().collect();
    h.say(|| {
        format!(
            "wait p{p} -> {} after {dt} ns: {}",
            match &res {
                Ok(Ok(n)) => format!("Ok({n})"),
                Ok(Err(e)) => format!("Err({e})"),
                Err(p) => format!("panic {p}"),
            },
            list.iter().map(show).collect::<Vec<_>>().join(", ")
        )
    });
    let mut ctx: Vec<&'static str> = vec![];
    if eintr {
        ctx.push("C13");
    }
    if w.regop {
        ctx.push("C14");
    }
    if h.pm[p].failed_wait {
        ctx.push("C24");
    }
    macro_rules! fail {
        ($tags:expr, $($f:tt)*) => {{
            let msg = format!($($f)*);
            drop(h);
            let mut t: Vec<&'static str> = $tags;
            t.extend(ctx);
            sh.viol(t, msg);
            return vec![];
        }};
    }
    // A thread that was inside the kernel wait for all of this call turns it away.
    let rejected = holder.is_some() && blocked_wait(p, me) == holder;
    let n = match res {
        Err(pn) => fail!(vec!["C02", "C09", "C12", "C14", "C15"], "wait panicked: {pn}"),
        Ok(Err(e)) => {
            if hit && e.raw_os_error() == fail {
                h.pm[p].failed_wait = true;
                h.label("failed-wait");
                return vec![];
            }
            let mut t = vec!["C12", "C09", "C14"];
            if e.kind() == ErrorKind::Interrupted {
                t.push("C13");
            }
            if w.overlapped {
                t.push("C15");
            }
            fail!(t, "wait failed: {e}")
        }
        Ok(Ok(n)) => n,
    };
    if hit {
        fail!(vec!["C24"], "wait returned Ok({n}) although the system failed it");
    }
    if cont.ev.len() != list.len() || cont.ev.is_empty() != list.is_empty() {
        fail!(vec!["C17"], "len {} / is_empty {} disagree with {} iterated events", cont.ev.len(), cont.ev.is_empty(), list.len());
    }
    if rejected && !old.is_empty() {
        h.label("rejected-with-old-events");
        if !list.is_empty() && list != old {
            fail!(vec!["C15"], "a wait that was turned away changes the events of its container");
        }
    }
    // Events of an earlier wait may stay in a container that was not cleared, before the new ones.
    let kept = if rejected && list == old { list.len() } else if list.len() == old.len() + n && list[..old.len()] == old[..] { old.len() } else { 0 };
    let list = list[kept..].to_vec();
    if list.len() != n && !(rejected && n > 0) {
        fail!(vec![if w.overlapped { "C15" } else { "C17" }, "C17"], "wait returned {n} but the container has {} new events ({} old)", list.len(), old.len());
    }
    if !IS_POLL && n > cont.ev.capacity().get() {
        fail!(vec!["C16"], "{n} events in a buffer of capacity {}", cont.ev.capacity());
    }
    if rejected {
        h.pm[p].rejected = true;
        h.label("rejected-wait");
        if n > 0 || dt > extra {
            fail!(vec!["C15"], "a wait made while another thread is blocked in wait returned {n} events after {dt} ns");
        }
        return vec![];
    }
    let t_ns = timeout.map(|t| t.as_nanos());
    if let Some(t) = t_ns {
        if dt > t + MS + extra || (t == 0 && dt > extra) {
            fail!(vec!["C12"], "wait({timeout:?}) returned after {dt} ns (injected delays {extra} ns)");
        }
    }
    // --- events
    let mut got = vec![];
    let mut more: Vec<usize> = vec![];
    for e in &list {
        if e.key == usize::MAX {
            fail!(vec!["C10"], "a notification shows up as an event");
        }
        let c: Vec<usize> = (0..h.arms.len()).rev().filter(|&i| h.arms[i].key == e.key).collect();
        if c.is_empty() {
            fail!(vec!["C01", "C18"], "event {} carries a key never registered", show(e));
        }
        let good: Vec<usize> = c.iter().copied().filter(|&i| judge(&h, p, w.inv, &got, i, e).is_none()).collect();
        let Some(&i) = good.first() else {
            let (t, msg) = judge(&h, p, w.inv, &got, c[0], e).unwrap();
            fail!(t, "{msg}");
        };
        let sure = good.len() == 1;
        for &j in &good {
            if sure {
                h.arms[j].delivered += 1;
            } else {
                h.arms[j].unsure = h.arms[j].mode != PollMode::Level;
                h.label("ambiguous-key");
            }
        }
        let a = h.arms[i].clone();
        if a.during {
            h.label("event-of-reg-during-wait");
        }
        if a.inv > w.inv {
            h.label("woken-by-regop");
        }
        if a.by_modify && a.oneshot() {
            h.label("redelivered-after-modify");
        }
        got.push(i);
        more.extend(&good);
        // Seeing it settles which of racing calls came last.
        if sure && h.win[p][a.s].is_empty() && h.closed[p][a.s] < w.inv && h.cur[p][a.s].contains(&Some(i)) {
            h.cur[p][a.s] = vec![Some(i)];
        }
    }
    h.label("wait");
    if n > 0 {
        h.pm[p].truncated |= n >= cont.ev.capacity().get();
        h.label("wait-with-events");
        if dt > extra {
            h.label("woken-by-io");
        }
    }
    // --- early empty returns are backed by notifications
    if n == 0 && t_ns.is_none_or(|t| dt < t) {
        if !w.overlapped {
            h.pm[p].early += 1;
            let acc = h.pm[p].accepted;
            let backed = h.pm[p].notes.iter().any(|x| x.0 < ret && (x.1 == 0 || x.1 > acc));
            if !backed || h.pm[p].early > h.pm[p].notes.len() as u64 {
                let (early, notes) = (h.pm[p].early, h.pm[p].notes.len());
                let mut t = vec!["C10", "C11"];
                if h.pm[p].rejected {
                    t.push("C15");
                }
                fail!(t, "wait({timeout:?}) returned empty after {dt} ns without a notification to end it ({early} such returns, {notes} notifications)");
            }
            h.pm[p].notified = true;
            h.label("wait-ended-by-notify");
        }
    } else if n == 0 {
        h.label("timeout-elapsed");
    }
    // --- a notification that was already there, or a source that was ready, ends the wait at once
    if dt > extra && !w.overlapped {
        let pend = h.pm[p].notes.iter().any(|x| x.1 != 0 && x.1 < w.inv && x.0 > h.pm[p].consumer);
        if pend {
            fail!(vec!["C09"], "wait took {dt} ns although a notification was pending");
        }
        if let Some(d) = due0 {
            // nobody else can take it, unless it was modified or deleted meanwhile
            if h.arms[d].sup == u64::MAX && !w.regop && h.truth_since(h.arms[d].s, w.inv).1 & h.arms[d].mask() != 0 {
                let mut t = vec!["C02"];
                h.ctx(&h.arms[d], &mut t);
                fail!(t, "wait took {dt} ns although s{} was ready", h.arms[d].s);
            }
        }
    }
    h.pm[p].consumer = ret;
    if !w.overlapped {
        h.pm[p].accepted = w.inv;
    }
    got.extend(more);
    got
}

fn hook(sh: &Sh, i: &IdleInfo) -> IdleAction {
    let h = sh.h();
    let mk = |h: MutexGuard<'_, H>, mut tags: Vec<&'static str>, msg: String| {
        if sh.degraded || IS_PIPE {
            tags.push("C21");
        }
        let mut h = h;
        tags.sort();
        tags.dedup();
        h.say(|| format!("!! {tags:?} {msg}"));
        IdleAction::Violation(Viol { tags, msg })
    };
    let mut any_wait = false;
    let mut seen: Vec<u32> = vec![];
    let mut futex_wait = None;
    for (t, th) in i.th.iter().enumerate() {
        match th.op {
            0 => {}
            sched::OP_WAIT => {
                let kernel = matches!(&th.st, St::Kernel(k) if k.is_wait);
                if !kernel {
                    futex_wait = Some(t);
                }
                if seen.contains(&th.op_poller) {
                    return mk(h, vec!["C15"], "two threads are blocked in wait on one poller".into());
                }
                seen.push(th.op_poller);
                any_wait = true;
            }
            o => {
                let tags = match o {
                    sched::OP_NOTIFY => vec!["C09", "C23"],
                    sched::OP_NEW | sched::OP_DROP => vec!["C22"],
                    _ => vec!["C14", "C23"],
                };
                return mk(h, tags, format!("thread {t} is blocked in call {o} (3=add 4=modify 5=delete 2=notify)"));
            }
        }
    }
    if let Some(t) = futex_wait {
        let p = i.th[t].op_poller as usize;
        let mut tags = vec!["C14", "C12", "C02", "C09"];
        if h.pm[p].rejected {
            tags.push("C15");
        }
        return mk(h, tags, format!("thread {t} is stuck inside wait, not waiting for I/O"));
    }
    for (t, th) in i.th.iter().enumerate() {
        if th.op != sched::OP_WAIT {
            continue;
        }
        let p = th.op_poller as usize;
        let Some((_, w)) = &h.waits[t] else { continue };
        let mut ctx: Vec<&'static str> = vec![];
        if sched::st().eintr_delivered > w.eintr0 || h.pm[p].eintr {
            ctx.push("C13");
        }
        if w.regop || h.pm[p].regop_during {
            ctx.push("C14");
        }
        if h.pm[p].failed_wait {
            ctx.push("C24");
        }
        if h.pm[p].rejected || w.overlapped {
            ctx.push("C15");
        }
        if h.pm[p].notes.iter().any(|x| x.1 != 0 && x.0 > h.pm[p].consumer) {
            ctx.push("C09");
            return mk(h, ctx, format!("wait of thread {t} stays blocked although a notification was sent"));
        }
        if let Some(d) = h.due(p) {
            let a = h.arms[d].clone();
            ctx.push("C02");
            h.ctx(&a, &mut ctx);
            if a.inv > w.inv || a.during {
                ctx.push("C14");
            }
            let msg = format!("wait of thread {t} stays blocked although s{} is ready (kernel {:#x}, {:?})", a.s, h.now_truth(a.s), a.mode);
            return mk(h, ctx, msg);
        }
        if let Some(lim) = w.limit {
            let lim = lim + seq::slack();
            if i.next.is_none_or(|n| n > lim) {
                ctx.push("C12");
                return mk(h, ctx, format!("wait of thread {t} stays blocked past its deadline"));
            }
        }
    }
    if i.next.is_none() {
        if any_wait {
            let mut h = h;
            h.rescue = true;
            h.rescues += 1;
            return IdleAction::Wake(sh.nt);
        }
    }
    IdleAction::Continue
}

fn program(sh: &Sh, t: usize, prog: &[[u32; 5]], cap: usize) {
    let mut cont = Cont { ev: Events::with_capacity(NonZeroUsize::new(cap).unwrap()), keep: false };
    for o in prog {
        if sched::draining() {
            break;
        }
        sched::op_boundary();
        let (np, ns) = {
            let h = sh.h();
            (h.pollers.len(), h.src.len())
        };
        let p = (o[1] as usize / 64) % np;
        let own: Vec<usize> = (0..ns).filter(|s| sh.shared || s % sh.nt == t).collect();
        match o[0] % op::N {
            op::WAIT => {
                cont.keep = o[3] % 2 == 1;
                wait_op(sh, p, &mut cont, TIMEOUTS[o[2] as usize % TIMEOUTS.len()], None);
            }
            op::FAILWAIT => {
                let e = [libc::ENOMEM, libc::EINVAL, libc::EFAULT, libc::EIO][o[3] as usize % 4];
                wait_op(sh, p, &mut cont, TIMEOUTS[o[2] as usize % TIMEOUTS.len()], Some(e));
            }
            op::NOTIFY => notify_op(sh, p),
            k @ (op::ADD | op::MODIFY | op::DELETE) => {
                if !own.is_empty() {
                    let s = own[(o[1] as usize % 64) % own.len()];
                    reg_op(sh, k, p, s, o[2], o[3]);
                }
            }
            op::CHURN => {
                // (races for a shared source would make the search for an order of the calls long)
                if !own.is_empty() && !sh.shared {
                    let s = own[(o[1] as usize % 64) % own.len()];
                    sh.h().label("churn");
                    for _ in 0..8 + o[2] % 40 {
                        if sched::draining() {
                            break;
                        }
                        if o[3] % 3 == 0 {
                            reg_op(sh, op::MODIFY, p, s, 1 + o[2], o[3]);
                        } else {
                            reg_op(sh, op::ADD, p, s, 1 + o[2], o[3]);
                            reg_op(sh, op::DELETE, p, s, 0, 0);
                        }
                        if o[3] % 5 == 0 {
                            notify_op(sh, p);
                        }
                    }
                }
            }
            op::IO => io_op(sh, (o[1] as usize % 64) % ns, o[2]),
            op::SLEEP => {
                let to = sched::now() + SLEEPS[o[1] as usize % SLEEPS.len()] as u128;
                sched::sleep_until(to);
            }
            op::INTR => {
                let t = o[1] as usize % sh.nt;
                if !sched::interrupt(t) {
                    sched::interrupt_next(t, 1 + o[2] % 3);
                }
            }
            _ => {}
        }
    }
    let mut h = sh.h();
    h.running -= 1;
    h.say(|| "done".into());
    if h.running == 0 {
        drop(h);
        sched::ext_wake(sh.nt);
    }
}

fn janitor(sh: &Sh) {
    loop {
        if sched::draining() {
            return;
        }
        let mut h = sh.h();
        if h.rescue {
            h.rescue = false;
            drop(h);
            let ps: Vec<usize> = sched::st()
                .th
                .iter()
                .filter(|t| t.op == sched::OP_WAIT)
                .map(|t| t.op_poller as usize)
                .collect();
            for p in ps {
                sh.h().say(|| "(nothing else can happen)".into());
                notify_op(sh, p);
            }
            continue;
        }
        if h.running == 0 {
            break;
        }
        drop(h);
        sched::ext_wait();
    }
    let s = sched::st();
    PROG_POINTS[0].store(s.points - s.armed_at.0, std::sync::atomic::Ordering::Relaxed);
    PROG_POINTS[1].store(s.sync_points - s.armed_at.1, std::sync::atomic::Ordering::Relaxed);
    epilogue(sh);
}

/// With all threads done, the poller must be in exactly the state the calls imply.
fn epilogue(sh: &Sh) {
    let mut cont = Cont { ev: Events::with_capacity(NonZeroUsize::new(64).unwrap()), keep: false };
    let (np, ns) = {
        let mut h = sh.h();
        h.say(|| "--- epilogue".into());
        (h.pollers.len(), h.src.len())
    };
    // Nobody is inside a call: what is queued stays until a wait takes it, and then as much again.
    let q = sched::queued();
    if q > 16 {
        return sh.viol(vec!["C23"], format!("{q} bytes are left in a descriptor of the poller after all calls"));
    }
    for p in 0..np {
        if sched::draining() {
            return;
        }
        // everything due is reported by one wait, after at most one ended by a notification
        let due: Vec<usize> = {
            let h = sh.h();
            (0..ns).filter_map(|s| h.must(p, s)).collect()
        };
        let mut got = wait_op(sh, p, &mut cont, Some(Duration::ZERO), None);
        if sched::draining() {
            return;
        }
        got.extend(wait_op(sh, p, &mut cont, Some(Duration::ZERO), None));
        if sched::draining() {
            return;
        }
        let missing = {
            let h = sh.h();
            due.iter().copied().find(|d| !got.iter().any(|g| h.arms[*g].s == h.arms[*d].s))
        };
        if let Some(d) = missing {
            let h = sh.h();
            let a = h.arms[d].clone();
            let mut t = vec!["C02", "C14"];
            h.ctx(&a, &mut t);
            drop(h);
            return sh.viol(t, format!("at the end s{} is ready and registered but never reported", a.s));
        }
        if !due.is_empty() {
            sh.h().label("due-at-end");
        }
        // nothing is left over that would end a wait
        let level = {
            let h = sh.h();
            (0..ns).any(|s| {
                h.unknown[p][s]
                    || h.cur[p][s].iter().any(|c| c.is_some_and(|a| h.arms[a].mode == PollMode::Level && h.arms[a].may(h.now_truth(s))))
            })
        };
        if !level {
            wait_op(sh, p, &mut cont, Some(Duration::from_millis(3)), None);
        }
        notify_op(sh, p);
        wait_op(sh, p, &mut cont, Some(Duration::from_secs(10)), None);
        if sched::draining() {
            return;
        }
        // re-arm everything and compare with the kernel
        for s in 0..ns {
            let reg = {
                let h = sh.h();
                (h.unknown[p][s], h.cur[p][s].clone())
            };
            if reg.0 || reg.1.iter().all(|c| c.is_none()) {
                continue;
            }
            if reg.1.iter().all(|c| c.is_some()) {
                reg_op(sh, op::MODIFY, p, s, 3, 0);
            }
        }
        let due: Vec<usize> = {
            let h = sh.h();
            (0..ns).filter_map(|s| h.must(p, s)).collect()
        };
        let got = wait_op(sh, p, &mut cont, Some(Duration::ZERO), None);
        if sched::draining() {
            return;
        }
        let missing = {
            let h = sh.h();
            due.iter().copied().find(|d| !got.contains(d))
        };
        if let Some(d) = missing {
            let h = sh.h();
            let a = h.arms[d].clone();
            let mut t = vec!["C02", "C03", "C06", "C14"];
            h.ctx(&a, &mut t);
            drop(h);
            let s = a.s;
            return sh.viol(t, format!("s{s} was re-armed at the end but is not reported"));
        }
        for s in 0..ns {
            let all = {
                let h = sh.h();
                !h.unknown[p][s] && h.cur[p][s].iter().all(|c| c.is_some())
            };
            if all {
                reg_op(sh, op::DELETE, p, s, 0, 0);
                if sched::draining() {
                    return;
                }
            }
        }
        let clean = {
            let h = sh.h();
            (0..ns).all(|s| !h.unknown[p][s] && h.cur[p][s].iter().all(|c| c.is_none()))
        };
        if clean {
            wait_op(sh, p, &mut cont, Some(Duration::from_millis(3)), None);
        }
    }
    for p in 0..np {
        let pl = sh.h().pollers[p].take();
        if let Some(pl) = pl {
            if let Err(e) = sched::api(sched::OP_DROP, p as u32, move || drop(pl)) {
                sh.viol(vec!["C22"], format!("drop panicked: {e}"));
            }
        }
    }
    let tampered = sh.h().src.iter().position(|s| s.tampered());
    if let Some(b) = tampered {
        sh.viol(vec!["C22"], format!("a poller changed the flags of source s{b}"));
    }
    if let Some(fd) = sched::st().bad_close.first() {
        sh.viol(vec!["C22"], format!("a poller closed descriptor {fd}, which it does not own"));
    }
    if let Some(fd) = sched::st().owned.first() {
        sh.viol(vec!["C22"], format!("descriptor {fd} is still open after the pollers were dropped"));
    }
}

pub const KINDS: [Kind; 5] = [Kind::Unix, Kind::PipeR, Kind::PipeW, Kind::Event, Kind::Dgram];

pub fn run(case: &Case, verbose: bool) -> RunOut {
    let g = |i: usize| case.cfg.get(i).copied().unwrap_or(0);
    let np = 1 + g(0) as usize % 2;
    let cap = [64, 1, 2, 3, 1024][g(1) as usize % 5];
    let tick = seq::TICKS[g(2) as usize % seq::TICKS.len()];
    let deny = g(3);
    let shared = g(4) % 2 == 1;
    let kinds: Vec<Kind> = if case.cfg.len() > 5 {
        case.cfg[5..].iter().take(8).map(|k| KINDS[*k as usize % KINDS.len()]).collect()
    } else {
        vec![Kind::Unix]
    };
    let src: Vec<Source> = kinds.iter().map(|k| Source::new(*k)).collect();
    let ns = src.len();
    let nt = case.progs.len().clamp(1, 6);
    let truth = src.iter().map(|s| vec![(0, s.truth())]).collect();
    let sh = Arc::new(Sh {
        h: Mutex::new(H {
            pollers: vec![None; np],
            pm: (0..np).map(|_| Pm::default()).collect(),
            src,
            truth,
            arms: vec![],
            cur: vec![vec![vec![None]; ns]; np],
            win: vec![vec![vec![]; ns]; np],
            closed: vec![vec![0; ns]; np],
            unknown: vec![vec![false; ns]; np],
            waits: (0..=nt).map(|_| None).collect(),
            seq: 0,
            nkey: 100,
            running: nt,
            rescue: false,
            rescues: 0,
            lab: BTreeMap::new(),
            log: vec![],
            verbose,
        }),
        nt,
        shared,
        degraded: deny != 0,
    });
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..nt {
        let prog = case.progs.get(t).cloned().unwrap_or_default();
        let sh = sh.clone();
        bodies.push(Box::new(move || {
            if t == 0 {
                for p in 0..np {
                    match sched::api(sched::OP_NEW, p as u32, Poller::new) {
                        Ok(Ok(pl)) => sh.h().pollers[p] = Some(Arc::new(pl)),
                        r => sh.viol(vec!["C22"], format!("Poller::new returned {:?}", r.map(|x| x.is_ok()))),
                    }
                }
                sched::arm_schedule();
            } else {
                // the pollers exist by now: thread 0 runs first and is not preempted before
                debug_assert!(sched::draining() || sh.h().pollers[0].is_some());
            }
            program(&sh, t, &prog, cap)
        }));
    }
    let s2 = sh.clone();
    bodies.push(Box::new(move || janitor(&s2)));
    let s3 = sh.clone();
    let setup = sched::Setup {
        tick,
        sched: case.sched.iter().map(|x| (x[0], x[1])).collect(),
        deferred: true,
        coarse: case.faults.iter().any(|f| f[0] == 3),
        every: case.faults.iter().find(|f| f[0] == 4).map_or(0, |f| 1 + f[1] as u64 % 200),
        stalls: vec![],
        stall_gaps: case
            .faults
            .iter()
            .filter(|f| f[0] == 2)
            .map(|f| (f[1] as u64, seq::STALLS[f[2] as usize % seq::STALLS.len()]))
            .collect(),
        faults: sched::Faults {
            deny_eventfd: deny & 1 != 0 && !crate::seq::IS_EVENTFD,
            deny_timerfd: deny & 2 != 0,
            deny_pipe2: deny & 4 != 0,
            eintr: case.faults.iter().filter(|f| f[0] == 0).map(|f| (f[1], EINTR_DT[f[2] as usize % EINTR_DT.len()])).collect(),
            spurious: case.faults.iter().filter(|f| f[0] == 1).map(|f| f[1]).collect(),
            ..Default::default()
        },
        limit: 2_000_000,
        ..Default::default()
    };
    let outcome = sched::run(setup, bodies, Some(Box::new(move |i| hook(&s3, i))));
    let mut h = match sh.h.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    let mut viol = outcome.violation.clone();
    if viol.is_none() && outcome.aborted {
        viol = Some(Viol { tags: vec!["INTERNAL"], msg: "case aborted without a recorded reason".into() });
    }
    if deny != 0 || IS_PIPE {
        h.label("degraded");
    }
    if outcome.preempted > 0 {
        h.label("preempted");
    }
    if outcome.eintr > 0 {
        h.label("signal");
    }
    let labels = std::mem::take(&mut h.lab);
    let log = std::mem::take(&mut h.log);
    RunOut { viol, labels, outcome, log }
}

pub const EINTR_DT: [u64; 5] = [0, 1, 300_000, 900_000, 6_000_000];
