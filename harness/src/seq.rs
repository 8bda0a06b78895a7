//! Sequential, model-based engine: one thread runs a generated history of operations against
//! real descriptors; while it is blocked in `wait`, a second thread performs generated actions at
//! chosen virtual times. A reference model plus what the kernel itself says about each descriptor
//! decide what every wait must, may and must not report, and when it must return.

use crate::case::Case;
use crate::io::{self, Kind, Source};
use crate::sched::{self, IdleAction, IdleInfo, Outcome, St, Viol};
use polling::{Event, Events, PollMode, Poller};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::io::ErrorKind;
use std::num::NonZeroUsize;
#[cfg(not(polling_test_poll_backend))]
use std::os::fd::AsRawFd;
use std::os::fd::{FromRawFd, OwnedFd};
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::Duration;

pub const IS_POLL: bool = cfg!(polling_test_poll_backend);
/// The poll backend of a system on which it is notified by an event descriptor and nothing else.
pub const IS_EVENTFD: bool = cfg!(any(pollsim_espidf, pollsim_hermit));
pub const IS_PIPE: bool = cfg!(polling_test_epoll_pipe);

pub mod op {
    pub const WAIT: u32 = 0;
    pub const ADD: u32 = 1;
    pub const MODIFY: u32 = 2;
    pub const DELETE: u32 = 3;
    pub const NOTIFY: u32 = 4;
    pub const IO: u32 = 5;
    pub const REOPEN: u32 = 6;
    pub const SWEEP: u32 = 7;
    pub const BADKEY: u32 = 8;
    pub const SLEEP: u32 = 9;
    pub const FAILWAIT: u32 = 10;
    pub const NEWPOLLER: u32 = 11;
    pub const EINTR: u32 = 12;
    pub const WAIT2: u32 = 13;
    pub const NEST: u32 = 14;
    pub const BULK: u32 = 15;
    pub const CLEAR: u32 = 16;
    pub const N: u32 = 17;
}

const SEC: u128 = 1_000_000_000;
const MS: u128 = 1_000_000;
const DAYS24: u128 = 24 * 86400 * SEC;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tri {
    No,
    May,
    Must,
}

#[derive(Clone, Debug)]
struct Arm {
    key: usize,
    poller: usize,
    src: usize,
    r: bool,
    w: bool,
    hup: bool,
    pri: bool,
    mode: PollMode,
    armed: bool,
    /// shares its key with another registration, one of which was reported
    unsure: bool,
    delivered: bool,
    pending: Tri,
    returned: bool,
    failed: bool,
    inv: u64,
    sup: u64,
    by_modify: bool,
    readd: bool,
    recycled: bool,
    after_failed: bool,
    during: bool,
    delivered_before: bool,
}

impl Arm {
    fn asked(&self, t: i16) -> bool {
        (self.r && t & (io::IN | io::PRI | io::HUP | io::ERR) != 0)
            || (self.w && t & (io::OUT | io::HUP | io::ERR) != 0)
            || (self.pri && t & io::PRI != 0)
            || (self.hup && t & io::HUP != 0)
    }
    fn may(&self, t: i16) -> bool {
        self.asked(t) || t & (io::HUP | io::ERR) != 0
    }
    fn oneshot(&self) -> bool {
        matches!(self.mode, PollMode::Oneshot | PollMode::EdgeOneshot)
    }
    fn edge(&self) -> bool {
        matches!(self.mode, PollMode::Edge | PollMode::EdgeOneshot)
    }
}

struct WaitCtx {
    poller: usize,
    start: u128,
    timeout: Option<u128>,
    slack0: u128,
    inv: u64,
    union: Vec<i16>,
    stable: Vec<i16>,
    last: Vec<i16>,
    ops_done: u32,
    eintr: u32,
    eintr0: u32,
    regop: bool,
    notified_during: bool,
    rescued: bool,
}

struct M {
    pollers: Vec<Option<Arc<Poller>>>,
    src: Vec<Source>,
    nested: Vec<Option<usize>>,
    regs: Vec<Vec<Option<usize>>>,
    ever: Vec<Vec<bool>>,
    arms: Vec<Arm>,
    notify: Vec<Tri>,
    notify_total: Vec<u64>,
    early: Vec<u64>,
    spare: Option<Events>,
    deleted: Vec<bool>,
    failed_op: Vec<bool>,
    failed_wait: Vec<bool>,
    truncated: Vec<bool>,
    notified_wait: Vec<bool>,
    /// The poller of the latest wait.
    last_wait: Option<usize>,
    rejected: Vec<bool>,
    seq: u64,
    nkey: usize,
    keys: HashSet<usize>,
    wait: Option<WaitCtx>,
    queue: VecDeque<(u128, [u32; 5])>,
    stop: bool,
    rescue: bool,
    exit: bool,
    recycled: Vec<Event>,
    lab: BTreeMap<&'static str, u64>,
    log: Vec<String>,
    verbose: bool,
    deny: u32,
}

pub struct Sh {
    m: Mutex<M>,
    cfg: Cfg,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub pollers: usize,
    pub cap: Option<usize>,
    pub tick: u64,
    pub deny: u32,
    pub kinds: Vec<Kind>,
}

pub const CAPS: [usize; 9] = [0, 1, 2, 3, 4, 5, 7, 16, 64];
pub const TICKS: [u64; 5] = [0, 1, 70, 1000, 90_000];

pub fn decode_cfg(c: &Case) -> Cfg {
    let g = |i: usize| c.cfg.get(i).copied().unwrap_or(0);
    let cap = CAPS[g(1) as usize % CAPS.len()];
    let kinds: Vec<Kind> =
        c.cfg.iter().skip(4).map(|k| io::KINDS[*k as usize % io::KINDS.len()]).collect();
    Cfg {
        pollers: 1 + g(0) as usize % 3,
        cap: if cap == 0 { None } else { Some(cap) },
        tick: TICKS[g(2) as usize % TICKS.len()],
        deny: g(3) % 8,
        kinds: if kinds.is_empty() { vec![Kind::Unix] } else { kinds },
    }
}

pub const DURS: [Option<Duration>; 24] = [
    Some(Duration::ZERO),
    Some(Duration::from_nanos(1)),
    Some(Duration::from_nanos(999)),
    Some(Duration::from_micros(1)),
    Some(Duration::from_micros(500)),
    Some(Duration::from_nanos(999_999)),
    Some(Duration::from_millis(1)),
    Some(Duration::from_nanos(1_000_001)),
    Some(Duration::from_micros(1500)),
    Some(Duration::from_nanos(10_000_001)),
    Some(Duration::from_secs(1)),
    Some(Duration::from_nanos(999_999_999_999)),
    Some(Duration::from_millis(65_536)),
    Some(Duration::from_nanos(2_147_483_648)),
    Some(Duration::from_nanos(4_294_967_297)),
    None,
    Some(Duration::from_secs(86400 * 23)),
    Some(Duration::from_millis(i32::MAX as u64)),
    Some(Duration::from_millis(u32::MAX as u64 + 1)),
    Some(Duration::from_secs(10_000_000_000)),
    Some(Duration::from_secs(i64::MAX as u64 / 2)),
    Some(Duration::from_secs(i64::MAX as u64)),
    Some(Duration::from_millis(u64::MAX)),
    Some(Duration::MAX),
];

/// Lengths at which some representation of a duration ends, in nanoseconds.
pub const EDGES: [u128; 18] = [
    (1 << 31) * 1000,
    (1 << 32) * 1000,
    (1 << 15) * MS,
    (1 << 16) * MS,
    (1 << 31) * MS,
    (1 << 32) * MS,
    (1 << 16) * SEC,
    (1 << 31) * SEC,
    (1 << 32) * SEC,
    1 << 31,
    1 << 32,
    1 << 53,
    1 << 63,
    1 << 64,
    (1 << 63) * 1000,
    (1 << 64) * 1000,
    (1 << 63) * MS,
    SEC,
];

pub fn decode_timeout(b: u32, c: u32) -> Option<Duration> {
    if (b as usize) < DURS.len() {
        return DURS[b as usize];
    }
    if b >= 36 {
        // at such a length, or next to it
        let e = EDGES[(b as usize - 36) % EDGES.len()];
        let n = match c % 8 {
            0 | 1 => e - 1,
            2 | 3 => e,
            4 => e + 1,
            5 => e - MS,
            6 => e + 500_000,
            _ => e - 600_000,
        };
        return Some(Duration::new((n / SEC) as u64, (n % SEC) as u32));
    }
    // arbitrary nanosecond durations over many magnitudes
    let mag = (b as usize - DURS.len()) % 12;
    let base = 10u64.pow(mag as u32);
    Some(Duration::from_nanos(base + (c as u64 * 7919) % (9 * base)))
}

fn vkey(n: usize, pat: u32) -> usize {
    match pat % 9 {
        0 | 1 => n,
        2 => usize::MAX - 1 - n,
        3 => n << 32,
        4 => (1 << 63) | n,
        5 => n << 48 | n,
        6 => n.wrapping_mul(0x9e37_79b9_7f4a_7c15),
        7 => (1 << 31) | (n << 33),
        _ => (usize::MAX >> 1) - n,
    }
}

impl M {
    fn fresh_key(&mut self, pat: u32) -> usize {
        loop {
            let k = vkey(self.nkey, pat);
            self.nkey += 1;
            if k != usize::MAX && self.keys.insert(k) {
                return k;
            }
        }
    }

    fn label(&mut self, l: &'static str) {
        *self.lab.entry(l).or_insert(0) += 1;
    }

    fn say(&mut self, s: impl FnOnce() -> String) {
        if self.verbose {
            let t = s();
            self.log.push(t);
        }
    }

    fn tick(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }

    fn truths(&self) -> Vec<i16> {
        self.src.iter().map(|s| s.truth()).collect()
    }

    /// Re-samples every descriptor during a wait.
    fn sample(&mut self, after_op: bool) {
        let t = self.truths();
        if let Some(w) = &mut self.wait {
            for i in 0..t.len() {
                if i >= w.union.len() {
                    w.union.push(t[i]);
                    w.stable.push(t[i]);
                    w.last.push(t[i]);
                } else {
                    w.union[i] |= t[i];
                    if after_op && w.ops_done == 0 {
                        w.stable[i] = t[i];
                    } else {
                        w.stable[i] &= t[i];
                    }
                    w.last[i] = t[i];
                }
            }
            if after_op {
                w.ops_done += 1;
            }
        }
    }

    fn must(&self, a: &Arm, t: i16) -> bool {
        a.returned
            && !a.failed
            && a.armed
            && !a.unsure
            && a.sup == u64::MAX
            && a.asked(t)
            && (!a.edge() || a.pending == Tri::Must)
    }

    fn shared(&self, s: usize) -> bool {
        self.regs.iter().filter(|r| r.get(s).is_some_and(|x| x.is_some())).count() > 1
    }

    /// Property tags that the context of a failure about registration `a` adds.
    fn ctx(&self, a: &Arm) -> Vec<&'static str> {
        let mut v: Vec<&'static str> = vec![];
        let p = a.poller;
        if a.by_modify {
            v.push("C06");
            if a.mode == PollMode::Oneshot && a.delivered_before {
                v.push("C03");
            }
        }
        if a.recycled {
            v.push("C06");
        }
        match a.mode {
            PollMode::Level => v.push("C04"),
            PollMode::Edge | PollMode::EdgeOneshot => v.push("C05"),
            _ => {}
        }
        if a.readd || self.deleted[p] {
            v.push("C08");
        }
        if a.after_failed || self.failed_op[p] {
            v.push("C07");
        }
        if self.failed_wait[p] {
            v.push("C24");
        }
        if self.truncated[p] {
            v.push("C16");
        }
        if self.notified_wait[p] {
            v.push("C10");
        }
        if self.rejected[p] {
            v.push("C15");
        }
        if self.shared(a.src) || self.nested[a.src].is_some() {
            v.push("C20");
        }
        if (a.hup || a.pri) && !a.r && !a.w {
            v.push("C19");
        }
        if a.during {
            v.push("C14");
        }
        if let Some(w) = &self.wait {
            if w.eintr > 0 || sched::st().eintr_delivered > w.eintr0 {
                v.push("C13");
            }
            if w.regop {
                v.push("C14");
            }
        }
        v
    }
}

impl Sh {
    fn m(&self) -> MutexGuard<'_, M> {
        self.m.try_lock().expect("model lock")
    }

    fn viol(&self, mut tags: Vec<&'static str>, msg: String) {
        if self.cfg.deny != 0 || IS_PIPE {
            tags.push("C21");
        }
        tags.sort();
        tags.dedup();
        let mut m = self.m();
        m.say(|| format!("!! {tags:?} {msg}"));
        drop(m);
        sched::violate(Viol { tags, msg });
    }
}

fn mode_of(c: u32) -> (PollMode, bool) {
    match c % 6 {
        0 | 5 => (PollMode::Oneshot, true),
        1 => (PollMode::Oneshot, false),
        2 => (PollMode::Level, false),
        3 => (PollMode::Edge, false),
        _ => (PollMode::EdgeOneshot, false),
    }
}

/// Builds the interest in one of several equivalent ways.
fn interest(m: &M, key: usize, b: u32) -> (Event, bool) {
    let bits = b % 16;
    let how = (b / 16) % 8;
    if how == 7 && !m.recycled.is_empty() {
        let mut e = m.recycled[(b / 128) as usize % m.recycled.len()];
        e.key = key;
        if b & 1 != 0 {
            e.readable = b & 2 != 0;
            e.writable = b & 4 != 0;
        }
        return (e, true);
    }
    let (r, w) = (bits & 1 != 0, bits & 2 != 0);
    let mut e = match how {
        0 | 1 => Event::new(key, r, w),
        _ => match (r, w) {
            (true, true) => Event::all(key),
            (true, false) => Event::readable(key),
            (false, true) => Event::writable(key),
            _ => Event::none(key),
        },
    };
    let (h, p) = (bits & 4 != 0, bits & 8 != 0);
    match how {
        0 | 2 => {
            if h {
                e = e.with_interrupt();
            }
            if p {
                e = e.with_priority();
            }
        }
        1 | 3 => {
            e.set_priority(p);
            e.set_interrupt(h);
        }
        4 => {
            e.set_priority(true);
            e.set_interrupt(true);
            e.set_priority(p);
            e.set_interrupt(h);
        }
        _ => {
            e = e.with_priority().with_interrupt().with_no_extra();
            if p {
                e = e.with_priority();
            }
            if h {
                e = e.with_interrupt();
            }
        }
    }
    (e, false)
}

fn name_mode(m: PollMode) -> &'static str {
    match m {
        PollMode::Oneshot => "oneshot",
        PollMode::Level => "level",
        PollMode::Edge => "edge",
        _ => "edge-oneshot",
    }
}

/// add / modify / delete with model bookkeeping. `kind` is an op code.
fn reg_op(sh: &Sh, kind: u32, o: [u32; 5], badkey: bool, during: bool) {
    let mut m = sh.m();
    let np = m.pollers.len();
    let p = (o[1] as usize / 64) % np;
    let s = (o[1] as usize % 64) % m.src.len();
    let Some(poller) = m.pollers[p].clone() else { return };
    if m.nested[s].is_some_and(|i| i <= p) {
        return; // no cycles: a poller is only added to pollers of a lower index
    }
    let (mut mode, default_api) = mode_of(o[3] % 16);
    if m.nested[s].is_some() && matches!(mode, PollMode::Edge | PollMode::EdgeOneshot) {
        mode = PollMode::Level;
    }
    let default_api = default_api && mode == PollMode::Oneshot;
    let pat = o[3] % 4096 / 16;
    let refused = [None, Some(libc::ENOSPC), Some(libc::ENOMEM), Some(libc::EPERM)][o[3] as usize / 4096 % 4];
    let cur = m.regs[p][s];
    // A new key, or one used before: by this source, by another registered one, by anything.
    let last = m.arms.iter().rposition(|a| a.poller == p && a.src == s && !a.failed);
    let old = match pat / 9 % 8 {
        4 | 5 => last,
        6 => (0..m.src.len()).map(|k| (k + o[2] as usize) % m.src.len()).filter(|k| *k != s).find_map(|k| m.regs[p][k]),
        7 if !m.arms.is_empty() => Some((o[2] as usize * 37 + s) % m.arms.len()),
        _ => None,
    }
    .map(|i| m.arms[i].clone())
    .filter(|a| a.key != usize::MAX);
    let key = match &old {
        _ if badkey => usize::MAX,
        Some(a) => a.key,
        None => m.fresh_key(pat),
    };
    let (mut ev, recycled) = interest(&m, key, o[2]);
    ev.key = key;
    let mut default_api = default_api;
    if let (Some(a), 5, false) = (&old, pat / 9 % 8, badkey) {
        // Exactly the registration it has, or had.
        ev = Event::new(key, a.r, a.w);
        ev.set_interrupt(a.hup);
        ev.set_priority(a.pri);
        mode = a.mode;
        default_api &= mode == PollMode::Oneshot;
    }
    let recycled = recycled && !(old.is_some() && pat / 9 % 8 == 5);
    let inv = m.tick();
    let edge = matches!(mode, PollMode::Edge | PollMode::EdgeOneshot);
    let unsupported = (edge && !poller.supports_edge()) || (mode == PollMode::Level && !poller.supports_level());

    if kind == op::DELETE {
        m.say(|| format!("delete p{p} s{s} (registered: {})", cur.is_some()));
        drop(m);
        let src = sh.m().src[s].borrow();
        let res = sched::api(sched::OP_DELETE, p as u32, || poller.delete(src));
        let mut m = sh.m();
        let end = m.tick();
        let over = during && m.wait.is_none();
        let _ = over;
        match (res, cur) {
            (Err(pn), _) => {
                drop(m);
                sh.viol(vec!["C07", "C08", "C14"], format!("delete panicked: {pn}"))
            }
            (Ok(Ok(())), Some(a)) => {
                m.arms[a].sup = end;
                m.regs[p][s] = None;
                m.deleted[p] = true;
                m.label("delete");
                if during {
                    m.label("delete-during-wait");
                    if let Some(w) = &mut m.wait {
                        w.regop = true;
                    }
                }
            }
            (Ok(Err(e)), None) if e.kind() == ErrorKind::NotFound => {
                m.failed_op[p] = true;
                m.label("failed-delete");
            }
            (Ok(r), c) => {
                let mut t = vec!["C07", "C08"];
                if during {
                    t.push("C14");
                }
                drop(m);
                sh.viol(t, format!("delete of a {} source returned {r:?}", if c.is_some() { "registered" } else { "non-registered" }))
            }
        }
        return;
    }

    let is_add = kind == op::ADD;
    let mut errs: Vec<ErrorKind> = vec![];
    if badkey {
        errs.push(ErrorKind::InvalidInput);
    }
    if unsupported {
        errs.push(ErrorKind::Unsupported);
    }
    if is_add && cur.is_some() {
        errs.push(ErrorKind::AlreadyExists);
    }
    if !is_add && cur.is_none() {
        errs.push(ErrorKind::NotFound);
    }
    let ok = errs.is_empty();
    let id = m.arms.len();
    let readd = m.ever[p][s] && is_add;
    let delivered_before = cur.is_some_and(|a| m.arms[a].delivered || m.arms[a].delivered_before);
    m.arms.push(Arm {
        key,
        poller: p,
        src: s,
        r: ev.readable,
        w: ev.writable,
        hup: ev.is_interrupt(),
        pri: ev.is_priority(),
        mode,
        armed: true,
        unsure: false,
        delivered: false,
        pending: Tri::May,
        returned: false,
        failed: !ok,
        inv,
        sup: u64::MAX,
        by_modify: !is_add,
        readd,
        recycled,
        after_failed: false,
        during,
        delivered_before,
    });
    m.say(|| {
        format!(
            "{} p{p} s{s} key={key:#x} {}{}{}{} {}{}{}",
            if is_add { "add" } else { "modify" },
            if ev.readable { "r" } else { "" },
            if ev.writable { "w" } else { "" },
            if ev.is_interrupt() { "h" } else { "" },
            if ev.is_priority() { "p" } else { "" },
            name_mode(mode),
            if recycled { " recycled" } else { "" },
            if ok { String::new() } else { format!(" expect {errs:?}") }
        )
    });
    let src = m.src[s].borrow();
    let raw = m.src[s].fd();
    drop(m);
    sched::st().faults.fail_ctl = refused.map(|e| (sched::tid(), e));
    let res = sched::api(if is_add { sched::OP_ADD } else { sched::OP_MODIFY }, p as u32, || {
        if is_add {
            if default_api {
                unsafe { poller.add(&src, ev) }
            } else if o[2] & 1 != 0 {
                unsafe { poller.add_with_mode(raw, ev, mode) }
            } else {
                unsafe { poller.add_with_mode(&src, ev, mode) }
            }
        } else if default_api {
            poller.modify(src, ev)
        } else {
            poller.modify_with_mode(src, ev, mode)
        }
    });
    let refused = refused.filter(|_| sched::st().faults.fail_ctl.take().is_none());
    let mut m = sh.m();
    let end = m.tick();
    let mut ctx: Vec<&'static str> = vec!["C07"];
    if during {
        ctx.push("C14");
        if let Some(w) = &mut m.wait {
            w.regop = true;
        }
    }
    if m.ever[p][s] && is_add {
        ctx.push("C08");
    }
    if edge {
        ctx.push("C05");
    }
    if mode == PollMode::Level {
        ctx.push("C04");
    }
    if !is_add {
        ctx.push("C06");
    }
    if m.regs.iter().enumerate().any(|(q, r)| q != p && r[s].is_some()) {
        ctx.push("C20");
    }
    if badkey || pat % 9 > 1 {
        ctx.push("C18");
    }
    match res {
        Err(pn) => {
            drop(m);
            sh.viol(ctx, format!("registration call panicked: {pn}"))
        }
        Ok(Ok(())) if ok => {
            if let Some(a) = cur {
                m.arms[a].sup = end;
            }
            m.regs[p][s] = Some(id);
            m.ever[p][s] = true;
            let t = m.src[s].truth();
            let a = m.arms[id].clone();
            // Activity notices of TCP may arrive any time.
            let pend = if m.src[s].kind == Kind::Tcp && !a.asked(t) {
                Tri::May
            } else if a.asked(t) {
                Tri::Must
            } else if a.may(t) {
                Tri::May
            } else {
                Tri::No
            };
            if edge {
                m.arms[id].pending = pend;
            }
            m.arms[id].returned = true;
            m.label(if is_add { "add" } else { "modify" });
            m.label(match mode {
                PollMode::Oneshot => "mode-oneshot",
                PollMode::Level => "mode-level",
                PollMode::Edge => "mode-edge",
                _ => "mode-edge-oneshot",
            });
            if let Some(a) = cur {
                if m.arms[a].mode != mode {
                    m.label("mode-switch");
                }
                if m.arms[a].delivered {
                    m.label("rearm");
                }
            }
            if readd {
                m.label("re-add");
            }
            if recycled {
                m.label("recycled-interest");
            }
            if let Some(o) = &old {
                m.label(if o.src == s && o.poller == p {
                    "same-key"
                } else if o.sup == u64::MAX && o.poller == p {
                    "shared-key"
                } else {
                    "old-key"
                });
                if o.src == s && o.poller == p && pat / 9 % 8 == 5 {
                    m.label("same-registration");
                }
            }
            if during {
                m.label("regop-during-wait");
            }
        }
        Ok(Err(e)) if (!ok && errs.contains(&e.kind())) || (refused.is_some() && e.raw_os_error() == refused) => {
            m.arms[id].failed = true;
            m.failed_op[p] = true;
            if let Some(a) = cur {
                m.arms[a].after_failed = true;
            }
            if refused.is_some() {
                m.label("refused-regop");
                m.say(|| format!("  refused by the system: {e}"));
            }
            m.label(if unsupported { "failed-unsupported" } else { "failed-regop" });
        }
        Ok(r) => {
            drop(m);
            sh.viol(
                ctx,
                format!(
                    "{} returned {r:?}, expected {}",
                    if is_add { "add" } else { "modify" },
                    if ok { "Ok".to_string() } else { format!("one of {errs:?}") }
                ),
            )
        }
    }
}

fn io_op(sh: &Sh, o: [u32; 5]) {
    let mut m = sh.m();
    let s = (o[1] as usize % 64) % m.src.len();
    if m.nested[s].is_some() {
        return;
    }
    let a = o[2] % io::NACT;
    let before = m.src[s].truth();
    let touched = io::act(&mut m.src[s], a);
    let after = m.src[s].truth();
    m.say(|| format!("io s{s} {} truth {before:#x} -> {after:#x}{}", io::ACT_NAMES[a as usize], if touched { "" } else { " (no effect)" }));
    if !touched {
        return;
    }
    m.label("io");
    if before & (io::IN | io::HUP) == 0 && after & io::IN != 0 {
        m.label("became-readable");
    }
    if after & io::PRI != 0 {
        m.label("priority-data");
    }
    if after & io::HUP != 0 {
        m.label("hangup");
    }
    if after & io::ERR != 0 {
        m.label("error-state");
    }
    let rd = io::IN | io::PRI | io::HUP | io::ERR;
    let wd = io::OUT | io::HUP | io::ERR;
    for arm in m.arms.iter_mut() {
        if arm.src != s || arm.sup != u64::MAX || arm.failed || !arm.edge() {
            continue;
        }
        let tr = (arm.r && before & rd == 0 && after & rd != 0)
            || (arm.w && before & wd == 0 && after & wd != 0)
            || (arm.hup && before & io::HUP == 0 && after & io::HUP != 0)
            || (arm.pri && before & io::PRI == 0 && after & io::PRI != 0);
        if tr {
            arm.pending = Tri::Must;
        } else if arm.pending == Tri::No {
            arm.pending = Tri::May;
        }
    }
}

fn notify_op(sh: &Sh, o: [u32; 5]) {
    let p = {
        let m = sh.m();
        o[1] as usize % m.pollers.len()
    };
    for _ in 0..1 + o[2] % 3 {
        let mut m = sh.m();
        let Some(poller) = m.pollers[p].clone() else { return };
        m.say(|| format!("notify p{p}"));
        let before = m.wait.is_some();
        m.notify_total[p] += 1;
        drop(m);
        let r = sched::api(sched::OP_NOTIFY, p as u32, || poller.notify());
        let mut m = sh.m();
        m.label("notify");
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                drop(m);
                sh.viol(vec!["C09", "C23"], format!("notify failed: {e}"));
                return;
            }
            Err(pn) => {
                drop(m);
                sh.viol(vec!["C09"], format!("notify panicked: {pn}"));
                return;
            }
        }
        let after = m.wait.is_some();
        if before && !after {
            m.notify[p] = Tri::May;
        } else {
            m.notify[p] = Tri::Must;
        }
        if let Some(w) = &mut m.wait {
            if w.poller == p {
                w.notified_during = true;
                m.label("notify-during-wait");
            }
        }
    }
}

/// Removes source `s` from every poller, closes it and opens another with the same descriptor
/// number.
fn reopen_op(sh: &Sh, o: [u32; 5]) {
    let (s, np) = {
        let m = sh.m();
        (o[1] as usize % m.src.len(), m.pollers.len())
    };
    if sh.m().nested[s].is_some() {
        return;
    }
    for p in 0..np {
        if sh.m().regs[p][s].is_some() {
            reg_op(sh, op::DELETE, [op::DELETE, (p * 64 + s) as u32, 0, 0, 0], false, false);
        }
    }
    if sched::draining() {
        return;
    }
    let mut m = sh.m();
    let kind = io::KINDS[o[2] as usize % io::KINDS.len()];
    let fd = m.src[s].fd();
    m.say(|| format!("reopen s{s} as {kind:?} on the same descriptor"));
    m.label("reopen");
    // Close first so that the number is free; the replacement takes it with dup3.
    let dummy = unsafe { OwnedFd::from_raw_fd(libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 200)) };
    let old = std::mem::replace(&mut m.src[s].near, dummy);
    m.src[s].far = None;
    m.src[s].extra.clear();
    drop(old);
    let new = Source::new_at(kind, fd);
    m.src[s] = new;
    for p in 0..np {
        m.ever[p][s] = true;
    }
}

#[cfg(not(polling_test_poll_backend))]
fn nest_op(sh: &Sh, o: [u32; 5]) {
    let mut m = sh.m();
    let np = m.pollers.len();
    if np < 2 || m.src.len() >= 24 {
        return;
    }
    // Inner pollers have a higher index than the ones they are added to, so no cycles arise.
    let inner = 1 + o[1] as usize % (np - 1);
    if m.nested.contains(&Some(inner)) {
        return;
    }
    let Some(pl) = m.pollers[inner].clone() else { return };
    use std::os::fd::AsFd;
    let d = unsafe { libc::fcntl(pl.as_fd().as_raw_fd(), libc::F_DUPFD_CLOEXEC, 3) };
    let near = unsafe { OwnedFd::from_raw_fd(d) };
    let s = Source::from_nested(near);
    m.src.push(s);
    m.nested.push(Some(inner));
    for r in m.regs.iter_mut() {
        r.push(None);
    }
    for r in m.ever.iter_mut() {
        r.push(false);
    }
    if let Some(w) = &mut m.wait {
        w.union.push(0);
        w.stable.push(0);
        w.last.push(0);
    }
    let si = m.src.len() - 1;
    m.say(|| format!("nest p{inner} as source s{si}"));
    m.label("nested-poller");
}

#[cfg(polling_test_poll_backend)]
fn nest_op(_: &Sh, _: [u32; 5]) {}

fn new_poller(sh: &Sh) -> Option<Arc<Poller>> {
    let owned0 = sched::st().owned.len();
    let r = sched::api(sched::OP_NEW, 0, Poller::new);
    match r {
        Ok(Ok(p)) => {
            for fd in &sched::st().owned[owned0..] {
                let f = unsafe { libc::fcntl(*fd, libc::F_GETFD, 0) };
                if f >= 0 && f & libc::FD_CLOEXEC == 0 {
                    sh.viol(vec!["C22"], format!("descriptor {fd} of a new poller is not close-on-exec"));
                }
            }
            Some(Arc::new(p))
        }
        Ok(Err(e)) => {
            sh.viol(vec!["C22"], format!("Poller::new failed: {e}"));
            None
        }
        Err(pn) => {
            sh.viol(vec!["C22"], format!("Poller::new panicked: {pn}"));
            None
        }
    }
}

fn drop_poller(sh: &Sh, p: usize) {
    let pl = sh.m().pollers[p].take();
    if let Some(pl) = pl {
        let end = sh.m().tick();
        {
            let mut m = sh.m();
            for a in m.arms.iter_mut() {
                if a.poller == p && a.sup == u64::MAX {
                    a.sup = end;
                }
            }
            for r in m.regs[p].iter_mut() {
                *r = None;
            }
            for r in m.ever[p].iter_mut() {
                *r = false;
            }
        }
        // The sources must outlive nothing: they stay open.
        if let Err(pn) = sched::api(sched::OP_DROP, p as u32, move || drop(pl)) {
            sh.viol(vec!["C22"], format!("drop panicked: {pn}"));
        }
        let m = sh.m();
        let bad = m.src.iter().position(|s| unsafe { libc::fcntl(s.fd(), libc::F_GETFD, 0) } < 0);
        let tampered = m.src.iter().position(|s| s.tampered());
        drop(m);
        if let Some(b) = bad {
            sh.viol(vec!["C22"], format!("dropping a poller closed source s{b}"));
        } else if let Some(b) = tampered {
            sh.viol(vec!["C22"], format!("a poller changed the flags of source s{b}"));
        }
        if let Some(fd) = sched::st().bad_close.first().copied() {
            sh.viol(vec!["C22"], format!("a poller closed descriptor {fd}, which it does not own"));
        }
        if let Some(fd) = first_owned_left(sh) {
            sh.viol(vec!["C22"], format!("descriptor {fd} is still open after the poller was dropped"));
        }
    }
}

/// With no poller left, nothing that a poller opened may be open.
fn first_owned_left(sh: &Sh) -> Option<i32> {
    if sh.m().pollers.iter().any(|p| p.is_some()) {
        return None;
    }
    sched::st().owned.first().copied()
}

struct Cont {
    ev: Events,
    old: Vec<Event>,
    /// Requested capacity.
    want: usize,
}

pub fn slack() -> u128 {
    let s = sched::st();
    s.ticked + s.stalled
}

/// What is wrong with event `e` if it stands for registration `i`.
fn judge(m: &M, w: &WaitCtx, i: usize, e: &Event) -> Option<(Vec<&'static str>, String)> {
    macro_rules! fail {
        ($tags:expr, $($f:tt)*) => {
            return Some(($tags, format!($($f)*)))
        };
    }
    let a = m.arms[i].clone();
    let s = a.src;
    let (u, st) = (w.union[s], w.stable[s]);
    if a.oneshot() && !a.armed {
        let mut t = vec!["C01", "C03"];
        if a.edge() {
            t.push("C05");
        }
        t.extend(m.ctx(&a));
        fail!(t, "oneshot registration of s{s} (already delivered) reported again: {}", show(e));
    }
    if a.edge() && a.pending == Tri::No && u == st && w.ops_done == 0 {
        let mut t = vec!["C05"];
        t.extend(m.ctx(&a));
        fail!(t, "edge registration of s{s} reported without new activity: {}", show(e));
    }
    if !a.may(u) {
        let mut t = vec!["C01"];
        t.extend(m.ctx(&a));
        fail!(t, "source s{s} ({:?}) is reported ({}) but not ready: kernel says {u:#x}, interest {}{}", m.src[s].kind, show(e), if a.r { "r" } else { "" }, if a.w { "w" } else { "" });
    }
    let bad = u & (io::HUP | io::ERR) != 0;
    let rd_ok = bad || (a.r && u & (io::IN | io::PRI) != 0) || (a.pri && u & io::PRI != 0);
    let wr_ok = bad || (a.w && u & io::OUT != 0);
    if (e.readable && !rd_ok) || (e.writable && !wr_ok) {
        let mut t = vec!["C01"];
        t.extend(m.ctx(&a));
        fail!(t, "event {} of s{s} claims readiness that was not asked for or is not there: kernel {u:#x}, interest {}{}", show(e), if a.r { "r" } else { "" }, if a.w { "w" } else { "" });
    }
    let sbad = st & (io::HUP | io::ERR) != 0;
    if (a.r && (sbad || st & io::IN != 0) && !e.readable) || (a.w && (sbad || st & io::OUT != 0) && !e.writable) {
        let mut t = vec!["C02"];
        t.extend(m.ctx(&a));
        fail!(t, "event {} of s{s} omits a ready direction: kernel {st:#x}, interest {}{}", show(e), if a.r { "r" } else { "" }, if a.w { "w" } else { "" });
    }
    let pri_asked = a.r || a.pri;
    let mut ex: Option<String> = None;
    if e.is_interrupt() && u & io::HUP == 0 {
        ex = Some("is_interrupt without hang-up".into());
    }
    if !e.is_interrupt() && st & io::HUP != 0 {
        ex = Some("hang-up not reported by is_interrupt".into());
    }
    if e.is_priority() && (u & io::PRI == 0 || !pri_asked) {
        ex = Some("is_priority without (requested) urgent data".into());
    }
    if !e.is_priority() && st & io::PRI != 0 && pri_asked {
        ex = Some("urgent data not reported by is_priority".into());
    }
    if e.is_err() == Some(true) && u & io::ERR == 0 {
        ex = Some("is_err without error".into());
    }
    if e.is_err() != Some(true) && st & io::ERR != 0 {
        ex = Some("error condition not reported by is_err".into());
    }
    #[allow(deprecated)]
    let cf = e.is_connect_failed();
    if st & (io::ERR | io::HUP) == (io::ERR | io::HUP) && cf != Some(true) && m.src[s].kind == Kind::Refused {
        ex = Some("refused connection not reported by is_connect_failed".into());
    }
    if u & (io::ERR | io::HUP) == 0 && cf != Some(false) {
        ex = Some("is_connect_failed on a healthy source".into());
    }
    if let Some(x) = ex {
        fail!(vec!["C19"], "event {} of s{s}: {x} (kernel {st:#x}..{u:#x})", show(e));
    }
    None
}

/// Assigns to every event its own registration.
fn assign(cands: &[Vec<usize>], got: &mut Vec<usize>) -> bool {
    let Some(c) = cands.get(got.len()) else { return true };
    for &i in c {
        if !got.contains(&i) {
            got.push(i);
            if assign(cands, got) {
                return true;
            }
            got.pop();
        }
    }
    false
}

fn check_room(sh: &Sh, c: &Cont) {
    let has = c.ev.capacity().get();
    if has < c.want {
        sh.viol(vec!["C17"], format!("a container of requested capacity {} has capacity {has}", c.want));
    }
}

/// One `wait` with everything that is checked about it. Returns the arms it reported.
#[allow(clippy::too_many_arguments)]
fn do_wait(
    sh: &Sh,
    p: usize,
    cont: &mut Cont,
    clear: bool,
    timeout: Option<Duration>,
    during: Vec<(u128, [u32; 5])>,
    stall: Option<(u64, u64)>,
    fail: Option<i32>,
) -> Vec<usize> {
    let Some(poller) = sh.m().pollers[p].clone() else { return vec![] };
    if clear {
        cont.ev.clear();
        cont.old.clear();
        if cont.ev.len() != 0 || !cont.ev.is_empty() || cont.ev.iter().count() != 0 {
            sh.viol(vec!["C17"], "a cleared container is not empty".into());
        }
        check_room(sh, cont);
    }
    let t_ns = timeout.map(|t| t.as_nanos());
    let cap0 = cont.ev.capacity().get();
    let t0 = sched::now();
    // A deadline past the end of the clock means waiting without limit.
    let eff = t_ns.filter(|t| (t0 + t) / SEC < i64::MAX as u128);
    let notify_before;
    let s0 = slack();
    let r0;
    {
        let mut m = sh.m();
        r0 = m.truths();
        notify_before = m.notify[p];
        let inv = m.tick();
        let n = during.len();
        m.say(|| {
            format!(
                "wait p{p} timeout {timeout:?}{}{}{}",
                if clear { "" } else { " (not cleared)" },
                if n > 0 { format!(" with {n} actions during") } else { String::new() },
                fail.map_or(String::new(), |e| format!(" failing with errno {e}")),
            )
        });
        m.wait = Some(WaitCtx {
            poller: p,
            start: t0,
            timeout: eff,
            slack0: s0,
            inv,
            union: r0.clone(),
            stable: r0.clone(),
            last: r0.clone(),
            ops_done: 0,
            eintr: 0,
            eintr0: sched::st().eintr_delivered,
            regop: false,
            notified_during: false,
            rescued: false,
        });
        m.queue = during.into_iter().collect();
        m.stop = false;
        m.rescue = false;
    }
    if let Some((g, ns)) = stall {
        let s = sched::st();
        let pt = s.points + g;
        s.stalls.push((pt, ns));
    }
    if let Some(e) = fail {
        sched::set_fail(0, e);
    }
    if !sh.m().queue.is_empty() {
        sched::ext_wake(1);
    }
    let res = sched::api(sched::OP_WAIT, p as u32, || poller.wait(&mut cont.ev, timeout));
    let t1 = sched::now();
    let extra = slack() - s0;
    sched::st().stalls.truncate(sched::st().stall_i);
    // Quiesce the second thread.
    sh.m().stop = true;
    loop {
        let s = sched::st();
        match &mut s.th[1].st {
            St::Ext { woken: false } | St::Finished => break,
            St::Sleep(t) => *t = 0,
            _ => {}
        }
        if s.draining {
            break;
        }
        if sched::stuck(1) {
            let mut m = sh.m();
            m.say(|| format!("<- {res:?}"));
            m.wait = None;
            drop(m);
            sh.viol(vec!["C14", "C23"], format!("another thread stays blocked in call {} after wait returned (3=add 4=modify 5=delete 2=notify)", s.th[1].op));
            return vec![];
        }
        sched::yield_now();
    }
    if sched::draining() {
        sh.m().wait = None;
        return vec![];
    }
    sh.m().sample(false);
    let fail_used = !sched::clear_fail(0) && fail.is_some();

    let mut m = sh.m();
    let rest: Vec<_> = m.queue.drain(..).collect();
    let mut w = m.wait.take().unwrap();
    w.eintr = w.eintr.max(sched::st().eintr_delivered - w.eintr0);
    let alternating = m.last_wait.replace(p).is_some_and(|l| l != p);
    let blocked = w.ops_done > 0 || t1 > t0 + extra;
    let eintr = w.eintr > 0;
    let notified = notify_before != Tri::No || w.notified_during;
    let reused = !clear && !cont.old.is_empty();
    macro_rules! fail {
        ($tags:expr, $($f:tt)*) => {{
            let msg = format!($($f)*);
            m.wait = None;
            drop(m);
            let mut t: Vec<&'static str> = $tags;
            if reused {
                t.push("C17");
            }
            sh.viol(t, msg);
            return vec![];
        }};
    }
    let n = match res {
        Err(pn) => {
            let mut t = vec!["C12", "C02", "C09"];
            if w.regop {
                t.push("C14");
            }
            if eintr {
                t.push("C13");
            }
            if m.deleted[p] {
                t.push("C08");
            }
            fail!(t, "wait({timeout:?}) panicked: {pn}")
        }
        Ok(Err(e)) => {
            if fail_used && e.raw_os_error() == fail {
                m.say(|| format!("  -> Err({e}) as injected"));
                m.failed_wait[p] = true;
                m.label("failed-wait");
                drop(m);
                cont.ev.clear();
                cont.old.clear();
                run_rest(sh, rest);
                return vec![];
            }
            let mut t = vec!["C12"];
            if notified {
                t.push("C09");
            }
            if eintr || e.kind() == ErrorKind::Interrupted {
                t.push("C13");
            }
            if w.regop {
                t.push("C14");
            }
            if fail_used || m.failed_wait[p] {
                t.push("C24");
            }
            if r0.iter().enumerate().any(|(s, t)| m.regs[p][s].is_some_and(|a| m.must(&m.arms[a], *t))) {
                t.push("C02");
            }
            fail!(t, "wait({timeout:?}) failed: {e}")
        }
        Ok(Ok(n)) => {
            if fail_used {
                fail!(vec!["C24"], "wait returned Ok({n}) although the system failed it");
            }
            n
        }
    };
    let list: Vec<Event> = cont.ev.iter().collect();
    m.say(|| format!("  -> {n} events after {} ns: {}", t1 - t0, list.iter().map(show).collect::<Vec<_>>().join(", ")));
    if cont.ev.len() != list.len() || cont.ev.is_empty() != list.is_empty() {
        fail!(vec!["C17"], "len {} / is_empty {} disagree with {} iterated events", cont.ev.len(), cont.ev.is_empty(), list.len());
    }
    let new: Vec<Event> = if list.len() == n {
        list.clone()
    } else if !clear && list.len() == cont.old.len() + n && list[..cont.old.len()] == cont.old[..] {
        list[cont.old.len()..].to_vec()
    } else {
        fail!(vec!["C17"], "wait returned {n} but the container holds {} events ({} before)", list.len(), cont.old.len());
    };
    cont.old = list;
    let cap = cont.ev.capacity().get();
    if !IS_POLL && n > cap {
        fail!(vec!["C16", "C17"], "{n} events in a buffer of capacity {cap}");
    }

    // --- every reported event is genuine
    // Keys may be shared: look for registrations that the events can stand for.
    let mut got: Vec<usize> = vec![];
    let mut cands: Vec<Vec<usize>> = vec![];
    for e in &new {
        if e.key == usize::MAX {
            fail!(vec!["C10"], "a notification shows up as an event");
        }
        // The ones that must be reported first, then the latest first.
        let mut c: Vec<usize> = (0..m.arms.len())
            .filter(|&i| {
                let a = &m.arms[i];
                a.key == e.key && a.poller == p && !a.failed && a.sup > w.inv
            })
            .collect();
        c.sort_by_key(|&i| {
            let a = &m.arms[i];
            (!m.must(a, r0[a.src]), std::cmp::Reverse(i))
        });
        if c.is_empty() {
            let known = m.arms.iter().rfind(|a| a.key == e.key && a.poller == p).or(m.arms.iter().rfind(|a| a.key == e.key)).cloned();
            match known {
                Some(a) if a.poller != p => fail!(vec!["C01", "C20"], "event {} belongs to another poller", show(e)),
                Some(a) if a.failed => fail!(vec!["C01", "C07"], "event {} carries the key of a failed call", show(e)),
                Some(a) => {
                    let gone = m.regs[p][a.src].is_none();
                    let mut t = vec!["C01", if gone { "C08" } else { "C06" }];
                    t.extend(m.ctx(&a));
                    if m.ever[p][a.src] {
                        t.push("C08");
                    }
                    fail!(t, "event {} carries an old key of source s{}", show(e), a.src)
                }
                None => fail!(vec!["C01", "C18"], "event {} carries a key never registered", show(e)),
            }
        }
        let good: Vec<usize> = c.iter().copied().filter(|&i| judge(&m, &w, i, e).is_none()).collect();
        if good.is_empty() {
            let (t, msg) = judge(&m, &w, c[0], e).unwrap();
            fail!(t, "{msg}");
        }
        cands.push(good);
    }
    if !assign(&cands, &mut got) {
        // (The number of tries is bounded: keys are shared by few.)
        let a = m.arms[cands.iter().find(|c| cands.iter().filter(|d| d[0] == c[0]).count() > 1).map_or(cands[0][0], |c| c[0])].clone();
        let mut t = vec!["C01"];
        if a.oneshot() {
            t.push("C03");
        }
        t.extend(m.ctx(&a));
        fail!(t, "key {:#x} (source s{}) is reported more often by one wait than it is registered", a.key, a.src);
    }
    // Registrations that the events might stand for as well.
    let mut other: Vec<usize> = vec![];
    for (k, c) in cands.iter().enumerate() {
        for &i in c {
            if !got.contains(&i) {
                other.extend([i, got[k]].iter().filter(|&&j| m.arms[j].sup == u64::MAX));
            }
        }
    }
    for &i in &got {
        let u = w.union[m.arms[i].src];
        if u & io::HUP != 0 {
            m.label("event-hup");
        }
        if u & io::ERR != 0 {
            m.label("event-err");
        }
        if u & io::PRI != 0 {
            m.label("event-pri");
        }
    }

    // --- nothing that must be reported is missing
    // (poll() reports everything in one go at present; a full buffer would excuse it too.)
    let room = if IS_POLL { n < cap0 || n > cap0 } else { n + 2 < cap };
    let missing: Vec<usize> = (0..m.src.len())
        .filter_map(|s| m.regs[p][s])
        .filter(|&i| {
            let a = &m.arms[i];
            !got.contains(&i)
                && a.inv < w.inv
                && w.ops_done == 0
                && m.must(a, r0[a.src])
                && m.must(a, w.last[a.src])
                && a.asked(r0[a.src] & w.last[a.src])
        })
        .collect();
    // Of registrations that share a key, as many must be reported.
    let surely = missing.iter().copied().find(|&i| {
        let k = m.arms[i].key;
        let have = new.iter().filter(|e| e.key == k).count();
        let due = missing.iter().chain(&got).filter(|&&j| {
            let a = &m.arms[j];
            a.key == k && a.inv < w.inv && m.must(a, r0[a.src]) && m.must(a, w.last[a.src]) && a.asked(r0[a.src] & w.last[a.src])
        });
        !other.contains(&i) || have < due.count()
    });
    if !missing.is_empty() {
        if let (true, false, Some(i)) = (room, notified, surely) {
            let a = m.arms[i].clone();
            let mut t = vec!["C02"];
            t.extend(m.ctx(&a));
            if eintr {
                t.push("C13");
            }
            if !clear {
                t.push("C17");
            }
            fail!(t, "source s{} ({:?}, {}) is ready (kernel {:#x}) but not reported", a.src, m.src[a.src].kind, name_mode(a.mode), r0[a.src]);
        }
        let elapsed = eff.is_some_and(|t| t > 0 && t1 - t0 >= t);
        if n == 0 && !notified && !(elapsed && cap <= 2) {
            fail!(vec!["C16", "C02"], "ready sources but an empty result from a buffer of capacity {cap}");
        }
        if !room {
            m.truncated[p] = true;
            m.label("truncated");
        }
        if notified {
            m.label("ready-unreported-at-notify");
        }
    }

    // --- timing
    let dt = t1 - t0;
    let must0 = (0..m.src.len()).any(|s| m.regs[p][s].is_some_and(|i| m.must(&m.arms[i], r0[s]) && m.arms[i].inv < w.inv) && m.regs[p][s].is_some());
    if n == 0 && !notified {
        let early = match eff {
            None => t_ns.is_none_or(|t| dt < t),
            Some(t) => dt < t.min(DAYS24),
        };
        if early {
            let mut t = vec!["C11", "C10"];
            if eintr {
                t.push("C13");
            }
            if w.regop {
                t.push("C14");
            }
            if m.failed_wait[p] {
                t.push("C24");
            }
            if alternating {
                t.push("C20");
            }
            if m.rejected[p] {
                t.push("C15");
            }
            if m.notify_total[p] > 60 {
                t.push("C23");
            }
            fail!(t, "wait({timeout:?}) returned empty after {dt} ns without event or notification");
        }
    }
    if let Some(t) = eff {
        let lim = t + MS + extra;
        if dt > lim {
            let mut tg = vec!["C12"];
            if eintr {
                tg.push("C13");
            }
            if w.regop {
                tg.push("C14");
            }
            if alternating {
                tg.push("C20");
            }
            fail!(tg, "wait({timeout:?}) returned after {dt} ns (injected delays {extra} ns)");
        }
        if t == 0 && dt > extra {
            fail!(vec!["C12"], "a zero-timeout wait took {dt} ns");
        }
    }
    if notify_before == Tri::Must && (dt > extra || blocked) {
        let mut t = vec!["C09"];
        for (c, x) in [(m.failed_wait[p], "C24"), (eintr, "C13"), (m.rejected[p], "C15"), (m.notify_total[p] > 60, "C23")] {
            if c {
                t.push(x);
            }
        }
        fail!(t, "wait took {dt} ns although a notification was pending");
    }
    if must0 && dt > extra && !w.notified_during && w.ops_done == 0 {
        let mut t = vec!["C02"];
        if let Some(i) = (0..m.src.len()).filter_map(|s| m.regs[p][s]).find(|&i| m.must(&m.arms[i], r0[m.arms[i].src]) && m.arms[i].inv < w.inv) {
            t.extend(m.ctx(&m.arms[i]));
        }
        fail!(t, "wait took {dt} ns although a source was ready");
    }

    // --- update the model
    for &i in &got {
        let tcp = m.src[m.arms[i].src].kind == Kind::Tcp;
        let a = &mut m.arms[i];
        if other.contains(&i) {
            a.unsure = a.mode != PollMode::Level;
        } else if a.oneshot() {
            a.armed = false;
        }
        a.delivered = true;
        a.pending = if a.edge() && !tcp && w.ops_done == 0 { Tri::No } else { Tri::May };
    }
    for &i in &other {
        m.arms[i].unsure = m.arms[i].mode != PollMode::Level;
        m.arms[i].pending = Tri::May;
    }
    if !other.is_empty() {
        m.label("ambiguous-key");
    }
    // Edges that were found not ready may have been consumed.
    for i in 0..m.arms.len() {
        if m.arms[i].poller == p && m.arms[i].edge() && !got.contains(&i) && m.arms[i].pending == Tri::Must && w.ops_done == 0 && !m.arms[i].asked(r0[m.arms[i].src]) {
            m.arms[i].pending = Tri::May;
        }
    }
    for e in &new {
        if m.recycled.len() < 8 {
            m.recycled.push(*e);
        } else {
            let k = m.seq as usize % 8;
            m.recycled[k] = *e;
        }
    }
    if notified {
        m.notified_wait[p] = true;
        if n == 0 {
            m.label("wait-ended-by-notify");
        } else {
            m.label("notify-with-events");
            if blocked {
                m.label("notify-and-events-wake");
            }
        }
        if blocked {
            m.label("notify-wakes-blocked");
        }
    }
    m.notify[p] = Tri::No;
    m.label("wait");
    if n > 0 {
        m.label("wait-with-events");
        if w.ops_done > 0 {
            m.label("woken-by-io");
        }
    } else if !notified {
        m.label("timeout-elapsed");
        if (0..m.src.len()).any(|s| m.regs[p][s].is_some_and(|i| !m.arms[i].armed && m.arms[i].asked(r0[s]))) {
            m.label("disarmed-ready-silent");
        }
        if (0..m.src.len()).any(|s| m.regs[p][s].is_some_and(|i| m.arms[i].edge() && m.arms[i].armed && m.arms[i].pending == Tri::No && m.arms[i].asked(r0[s]))) {
            m.label("edge-silent");
        }
    }
    for &i in &got {
        let a = m.arms[i].clone();
        match a.mode {
            PollMode::Level => {
                if a.delivered {
                    m.label("level-event");
                }
            }
            PollMode::Oneshot => m.label("oneshot-event"),
            _ => m.label("edge-event"),
        }
        if a.by_modify && a.delivered_before {
            m.label("redelivered-after-modify");
        }
        if a.readd {
            m.label("event-after-readd");
        }
        if a.during {
            m.label("event-of-reg-during-wait");
        }
        if m.shared(a.src) {
            m.label("event-shared-source");
        }
    }
    if eintr {
        m.label("interrupted-wait");
        if w.eintr > 1 {
            m.label("interrupted-many");
        }
    }
    if extra > 0 && stall.is_some() {
        m.label("stalled-wait");
    }
    if m.failed_wait[p] && (n > 0 || notified) {
        m.label("progress-after-failed-wait");
    }
    if m.deny != 0 || IS_PIPE {
        m.label("degraded");
    }
    if w.regop {
        m.label("wait-with-regops");
    }
    if !clear {
        m.label("uncleared-container");
    }
    drop(m);
    run_rest(sh, rest);
    check_poller_fd(sh, p);
    got.extend(other);
    got
}

fn run_rest(sh: &Sh, rest: Vec<(u128, [u32; 5])>) {
    for (_, o) in rest {
        if sched::draining() {
            return;
        }
        exec(sh, o, false);
    }
}

/// Where the poller exposes a descriptor, it is readable while there is something to report.
#[cfg(not(polling_test_poll_backend))]
fn check_poller_fd(sh: &Sh, p: usize) {
    let m = sh.m();
    let Some(pl) = m.pollers[p].clone() else { return };
    let t = m.truths();
    let due = (0..m.src.len()).find(|&s| m.regs[p][s].is_some_and(|i| m.must(&m.arms[i], t[s])));
    let notified = m.notify[p] == Tri::Must;
    drop(m);
    if (due.is_some() || notified) && crate::sys::poll1(pl.as_raw_fd(), io::IN, 0) & io::IN == 0 {
        let mut t = vec!["C20"];
        if notified {
            t.push("C09");
        } else {
            t.push("C02");
        }
        sh.viol(t, format!("the poller's own descriptor is not readable although {}", if notified { "a notification is pending".into() } else { format!("s{} is to be reported", due.unwrap()) }));
    }
}

#[cfg(polling_test_poll_backend)]
fn check_poller_fd(_: &Sh, _: usize) {}

pub fn show(e: &Event) -> String {
    format!(
        "{:#x}:{}{}{}{}{}",
        e.key,
        if e.readable { "r" } else { "" },
        if e.writable { "w" } else { "" },
        if e.is_interrupt() { "h" } else { "" },
        if e.is_priority() { "p" } else { "" },
        if e.is_err() == Some(true) { "e" } else { "" }
    )
}

fn sweep(sh: &Sh, p: usize, cont: &mut Cont) {
    let (due, turns, cap) = {
        let mut m = sh.m();
        m.say(|| format!("sweep p{p}"));
        let t = m.truths();
        let regs: Vec<usize> = (0..m.src.len()).filter_map(|s| m.regs[p][s]).collect();
        // Whatever may be reported takes its turn, too.
        let turns = regs.iter().filter(|&&i| m.arms[i].armed && m.arms[i].may(t[m.arms[i].src])).count();
        let due: Vec<usize> = regs.into_iter().filter(|&i| m.must(&m.arms[i], t[m.arms[i].src])).collect();
        (due, turns, cont.ev.capacity().get())
    };
    let rounds = (turns + 2).div_ceil(cap) + 1;
    let mut left = due.clone();
    for _ in 0..rounds {
        if sched::draining() {
            return;
        }
        let got = do_wait(sh, p, cont, true, Some(Duration::ZERO), vec![], None, None);
        left.retain(|i| !got.contains(i));
        if left.is_empty() {
            break;
        }
    }
    if sched::draining() {
        return;
    }
    if !due.is_empty() {
        sh.m().label(if due.len() + 2 > cap { "sweep-small-buffer" } else { "sweep" });
    }
    if let Some(&i) = left.first() {
        let m = sh.m();
        let a = m.arms[i].clone();
        let mut t = vec!["C16", "C02"];
        t.extend(m.ctx(&a));
        drop(m);
        sh.viol(t, format!("s{} stays unreported after {rounds} waits with capacity {cap} and {} ready registrations", a.src, due.len()));
    }
}

/// Operations that both threads may perform.
fn exec(sh: &Sh, o: [u32; 5], during: bool) {
    match o[0] % op::N {
        op::ADD => reg_op(sh, op::ADD, o, false, during),
        op::MODIFY => reg_op(sh, op::MODIFY, o, false, during),
        op::DELETE => reg_op(sh, op::DELETE, o, false, during),
        op::BADKEY => reg_op(sh, if o[3] & 1024 != 0 { op::MODIFY } else { op::ADD }, o, true, during),
        op::NOTIFY => notify_op(sh, o),
        op::IO => io_op(sh, o),
        op::EINTR if during => {
            // Mostly a single one, sometimes a storm with a nanosecond (or more) in between.
            for k in 0..[1, 1, 1, 2, 5, 20, 70, 300, 1100][o[1] as usize % 9] {
                if k > 0 {
                    sched::sleep_until(sched::now() + [1, 1, 999, 30_000][o[2] as usize % 4]);
                }
                if sched::draining() || !sched::interrupt(0) {
                    break;
                }
                let mut m = sh.m();
                m.say(|| "signal".into());
                if k == 19 {
                    m.label("signal-storm");
                }
                if let Some(w) = &mut m.wait {
                    w.eintr += 1;
                }
            }
        }
        op::EINTR => {
            let n = [1, 1, 1, 2, 5, 20, 70, 300, 1100][o[1] as usize % 9];
            sh.m().say(|| format!("{n} signals as a wait looks for events"));
            sched::interrupt_next(0, n);
        }
        op::WAIT2 if during => {
            let p = match &sh.m().wait {
                Some(w) => w.poller,
                None => return,
            };
            let Some(pl) = sh.m().pollers[p].clone() else { return };
            let to = decode_timeout(o[1] % 40, o[2]);
            // Every other time with a container that may hold events of an earlier wait.
            let mut spare = if o[3] % 2 == 1 { sh.m().spare.take() } else { None };
            let used = spare.is_some();
            let mut ev = spare.take().unwrap_or_else(|| Events::with_capacity(NonZeroUsize::new(8).unwrap()));
            let old: Vec<Event> = ev.iter().collect();
            let t0 = sched::now();
            let s0 = slack();
            let r = sched::api(sched::OP_WAIT, p as u32, || pl.wait(&mut ev, to));
            let left: Vec<Event> = ev.iter().collect();
            let agree = ev.len() == left.len() && ev.is_empty() == left.is_empty();
            let left = left.len();
            let same = ev.iter().eq(old.iter().copied());
            let mut m = sh.m();
            if !old.is_empty() {
                m.label("rejected-with-old-events");
            }
            if used {
                m.spare = Some(ev);
            }
            m.say(|| format!("second wait p{p} -> {r:?}"));
            m.label("rejected-wait");
            m.rejected[p] = true;
            let dt = sched::now() - t0;
            let over = m.wait.is_none();
            drop(m);
            let clean = matches!(r, Ok(Ok(0))) && (left == 0 || same) && agree;
            if over || !clean || dt > slack() - s0 {
                sh.viol(
                    vec!["C15"],
                    format!("a concurrent wait returned {r:?} after {dt} ns; its container holds {left} events, {} before", old.len()),
                );
            }
        }
        op::NEST => nest_op(sh, o),
        op::REOPEN if !during => reopen_op(sh, o),
        op::BULK if !during => bulk(sh, o),
        op::SLEEP if !during => {
            let t = sched::now() + [1, 1000, 900_000, 5_000_000, 3_600_000_000_000][o[1] as usize % 5];
            sched::sleep_until(t);
        }
        _ => {}
    }
}

/// Many calls in a row without any wait (C23).
fn bulk(sh: &Sh, o: [u32; 5]) {
    let (np, ns) = {
        let mut m = sh.m();
        m.label("bulk");
        let v = m.verbose;
        if v {
            m.log.push(format!("bulk kind {}", o[2] % 10));
        }
        m.verbose = false;
        (m.pollers.len(), m.src.len())
    };
    let verbose = sh.m().log.len() > 1;
    let p = o[1] as usize % np;
    let kind = o[2] % 10;
    // Notifications are cheap: enough of them to fill a small pipe, now and then.
    let mut n = if kind == 0 && o[3] % 4 == 0 { 4200 } else { 50 + o[3] % 2000 };
    if kind >= 4 && kind < 7 {
        n = 10 + o[3] % 150;
    }
    if o[3] >= 2000 {
        // Enumerated: where counters of eight and sixteen bits end.
        n = [255, 256, 257, 65_535, 65_536, 65_537][o[3] as usize % 6];
    }
    let mut cont = Cont { ev: Events::new(), old: vec![], want: 1 };
    let many = n > 4000 || (kind == 6 && n > 250);
    if many {
        crate::alloc::start();
    }
    for k in 0..n {
        if sched::draining() {
            break;
        }
        let a = (p * 64 + (k as usize + o[1] as usize) % ns) as u32;
        match (kind, k % 4) {
            // the life of a busy poller
            (7, 0 | 2) => notify_op(sh, [0, p as u32, 0, 0, 0]),
            (7, 1) => reg_op(sh, op::MODIFY, [0, a, 1 + k % 3, k % 2, 0], false, false),
            (7, _) => {
                do_wait(sh, p, &mut cont, true, Some(Duration::ZERO), vec![], None, None);
            }
            // waits, notified waits, pollers
            (4, _) => {
                do_wait(sh, p, &mut cont, true, Some(Duration::ZERO), vec![], None, None);
            }
            (5, 0) => {
                do_wait(sh, p, &mut cont, true, Some(Duration::from_nanos(900_001)), vec![], None, None);
            }
            (5, 1) => {
                // turned-away waits while another thread waits
                let w2 = (0..1 + k % 5).map(|j| (sched::now() + j as u128 * 1000, [op::WAIT2, k % 40, k, 0, 1])).collect();
                do_wait(sh, p, &mut cont, true, Some(Duration::from_millis(2)), w2, None, None);
            }
            (5, _) => notify_op(sh, [0, p as u32, k, 0, 0]),
            (6, _) => {
                let r = sched::api(sched::OP_NEW, 9, Poller::new);
                let Ok(Ok(x)) = r else {
                    sh.viol(vec!["C22", "C23"], "Poller::new failed".into());
                    break;
                };
                let _ = sched::api(sched::OP_NOTIFY, 9, || x.notify());
                let src = sh.m().src[0].borrow();
                let a = sched::api(sched::OP_ADD, 9, || unsafe { x.add(&src, Event::all(3)) });
                if !matches!(a, Ok(Ok(()))) {
                    sh.viol(vec!["C07", "C20", "C23"], format!("add to a fresh poller: {a:?}"));
                }
                let _ = sched::api(sched::OP_DROP, 9, move || drop(x));
            }
            (0, _) | (8, 0 | 2) => notify_op(sh, [0, p as u32, 0, 0, 0]),
            (8, _) => {
                do_wait(sh, p, &mut cont, true, Some(Duration::ZERO), vec![], None, None);
            }
            (9, 0 | 2) => reg_op(sh, op::ADD, [0, (p * 64) as u32, 1 + k % 3, 2, 0], false, false),
            (1, _) => reg_op(sh, op::MODIFY, [0, a, 1 + k % 3, k % 2, 0], false, false),
            (2, 0) => notify_op(sh, [0, p as u32, 0, 0, 0]),
            (2, 1) | (3, 0) => reg_op(sh, op::ADD, [0, (p * 64) as u32, 3, 0, 0], false, false),
            (2, 2) | (3, 1) => reg_op(sh, op::MODIFY, [0, (p * 64) as u32, 1 + k % 3, 2, 0], false, false),
            (3, 2) => reg_op(sh, op::ADD, [0, a, 1, 0, 0], true, false),
            _ => reg_op(sh, op::DELETE, [0, (p * 64) as u32, 0, 0, 0], false, false),
        }
    }
    sh.m().verbose = verbose;
    if many {
        let held = crate::alloc::stop();
        if held > if kind == 6 { 8 << 10 } else { 32 << 10 } && !sched::draining() {
            sh.viol(vec!["C23"], format!("{n} calls in a row have left {held} bytes allocated"));
        }
    }
}

fn actor(sh: &Sh) {
    loop {
        if sched::draining() {
            return;
        }
        let mut m = sh.m();
        if m.exit {
            return;
        }
        if m.rescue {
            m.rescue = false;
            let p = m.wait.as_ref().map_or(0, |w| w.poller);
            m.say(|| "(nothing else can happen: notify)".into());
            drop(m);
            notify_op(sh, [0, p as u32, 0, 0, 0]);
            continue;
        }
        let next = m.queue.front().copied();
        if m.stop || m.wait.is_none() || next.is_none() {
            drop(m);
            sched::ext_wait();
            continue;
        }
        drop(m);
        let (t, o) = next.unwrap();
        sched::sleep_until(t);
        if sched::draining() {
            return;
        }
        let mut m = sh.m();
        if m.stop || m.wait.is_none() {
            continue;
        }
        m.queue.pop_front();
        m.say(|| "during:".into());
        drop(m);
        exec(sh, o, true);
        if sched::draining() {
            return;
        }
        sh.m().sample(true);
    }
}

fn hook(sh: &Sh, i: &IdleInfo) -> IdleAction {
    let main = &i.th[0];
    let act = &i.th[1];
    if main.op == 0 && act.op == 0 {
        return IdleAction::Continue;
    }
    let mk = |sh: &Sh, mut tags: Vec<&'static str>, msg: String| {
        if sh.cfg.deny != 0 || IS_PIPE {
            tags.push("C21");
        }
        let mut m = sh.m();
        m.say(|| format!("!! {tags:?} {msg}"));
        IdleAction::Violation(Viol { tags, msg })
    };
    for (who, t) in [("the only", main), ("another", act)] {
        if t.op != 0 && t.op != sched::OP_WAIT {
            let during = main.op == sched::OP_WAIT;
            let mut tags = match t.op {
                sched::OP_NOTIFY => vec!["C09", "C23"],
                sched::OP_NEW | sched::OP_DROP => vec!["C22"],
                _ => vec!["C23"],
            };
            if during && t.op != sched::OP_NOTIFY {
                tags.push("C14");
            }
            return mk(sh, tags, format!("{who} thread is blocked in call {} (3=add 4=modify 5=delete 2=notify)", t.op));
        }
    }
    if act.op == sched::OP_WAIT {
        return mk(sh, vec!["C15"], "a concurrent wait blocks instead of returning at once".into());
    }
    if main.op != sched::OP_WAIT {
        return IdleAction::Continue;
    }
    let m = sh.m();
    let Some(w) = &m.wait else { return IdleAction::Continue };
    let p = w.poller;
    let mut ctx: Vec<&'static str> = vec![];
    if w.eintr > 0 || sched::st().eintr_delivered > w.eintr0 {
        ctx.push("C13");
    }
    if w.regop {
        ctx.push("C14");
    }
    if m.failed_wait[p] {
        ctx.push("C24");
    }
    if m.rejected[p] {
        ctx.push("C15");
    }
    if m.notify[p] == Tri::Must {
        ctx.push("C09");
        if m.notify_total[p] > 60 {
            ctx.push("C23");
        }
        drop(m);
        return mk(sh, ctx, "wait stays blocked although a notification was sent".into());
    }
    let t = m.truths();
    let due = (0..m.src.len()).filter_map(|s| m.regs[p][s]).find(|&i| m.must(&m.arms[i], t[m.arms[i].src]));
    if let Some(d) = due {
        let a = m.arms[d].clone();
        ctx.push("C02");
        ctx.extend(m.ctx(&a));
        let msg = format!(
            "wait stays blocked although s{} ({:?}, {}, kernel {:#x}) is ready",
            a.src,
            m.src[a.src].kind,
            name_mode(a.mode),
            t[a.src]
        );
        drop(m);
        return mk(sh, ctx, msg);
    }
    if let Some(to) = w.timeout {
        let lim = w.start + to + MS + (slack() - w.slack0);
        if i.next.is_none_or(|n| n > lim) {
            ctx.push("C12");
            let msg = format!("wait with timeout {to} ns stays blocked past its deadline");
            drop(m);
            return mk(sh, ctx, msg);
        }
    } else if i.next.is_none() {
        drop(m);
        let mut m = sh.m();
        if let Some(w) = &mut m.wait {
            if !w.rescued {
                w.rescued = true;
                m.rescue = true;
                return IdleAction::Wake(1);
            }
        }
    }
    IdleAction::Continue
}

pub struct RunOut {
    pub viol: Option<Viol>,
    pub labels: BTreeMap<&'static str, u64>,
    pub outcome: Outcome,
    pub log: Vec<String>,
}

fn dt_of(d: u32, timeout: Option<u128>) -> u128 {
    let t = timeout.unwrap_or(1_000_000);
    match d % 12 {
        0 | 1 => 0,
        2 => 1,
        3 => 1000,
        4 => 400_000,
        5 => MS,
        6 => t / 2,
        7 => t.saturating_sub(1),
        8 => t / 10,
        9 => t.saturating_sub(600_000),
        10 => t / 3,
        _ => 2_300_000,
    }
    .min(400 * 86400 * SEC)
}

pub const STALLS: [u64; 6] = [1, 900, 300_000, 1_300_000, 40_000_000, 2_000_000_000];

pub fn run(case: &Case, verbose: bool) -> RunOut {
    let cfg = decode_cfg(case);
    let src: Vec<Source> = cfg.kinds.iter().map(|k| Source::new(*k)).collect();
    let ns = src.len();
    let np = cfg.pollers;
    let mut conts: Vec<Cont> = (0..3)
        .map(|i| {
            let ev = match cfg.cap {
                None if i == 1 => Events::default(),
                None => Events::new(),
                Some(c) => Events::with_capacity(NonZeroUsize::new(c + if i == 2 { 1 } else { 0 }).unwrap()),
            };
            Cont { ev, old: vec![], want: cfg.cap.unwrap_or(1) + if i == 2 && cfg.cap.is_some() { 1 } else { 0 } }
        })
        .collect();
    let sh = Arc::new(Sh {
        m: Mutex::new(M {
            pollers: vec![None; np],
            nested: vec![None; ns],
            src,
            regs: vec![vec![None; ns]; np],
            ever: vec![vec![false; ns]; np],
            arms: vec![],
            notify: vec![Tri::No; np],
            notify_total: vec![0; np],
            early: vec![0; np],
            spare: None,
            deleted: vec![false; np],
            failed_op: vec![false; np],
            failed_wait: vec![false; np],
            truncated: vec![false; np],
            notified_wait: vec![false; np],
            last_wait: None,
            rejected: vec![false; np],
            seq: 0,
            nkey: 0,
            keys: HashSet::new(),
            wait: None,
            queue: VecDeque::new(),
            stop: false,
            rescue: false,
            exit: false,
            recycled: vec![],
            lab: BTreeMap::new(),
            log: vec![],
            verbose,
            deny: cfg.deny,
        }),
        cfg: cfg.clone(),
    });
    let _ = sh.m().early.len();
    let ops: Vec<[u32; 5]> = case.progs.first().cloned().unwrap_or_default();
    let sh2 = sh.clone();
    let capreq = cfg.cap.unwrap_or(if cfg!(pollsim_espidf) { 32 } else { 1024 });
    let main = move || {
        let sh = &*sh2;
        for (i, c) in conts.iter().enumerate() {
            if c.ev.capacity().get() < capreq + if i == 2 && cfg.cap.is_some_and(|c| c != 1024) { 1 } else { 0 } {
                sh.viol(vec!["C17"], format!("capacity {} is less than requested", c.ev.capacity()));
            }
        }
        {
            let mut m = sh.m();
            let k: Vec<String> = m.src.iter().map(|s| format!("{:?}", s.kind)).collect();
            m.say(|| format!("sources {k:?}"));
        }
        for p in 0..np {
            let pl = new_poller(sh);
            sh.m().pollers[p] = pl;
        }
        let first = sh.m().pollers[0].clone();
        if let Some(pl) = first {
            let (l, e) = (pl.supports_level(), pl.supports_edge());
            if l != true || e == IS_POLL {
                sh.viol(vec!["C04", "C05"], format!("supports_level {l}, supports_edge {e}"));
            }
        }
        let mut i = 0;
        while i < ops.len() && !sched::draining() {
            let o = ops[i];
            i += 1;
            match o[0] % op::N {
                k @ (op::WAIT | op::FAILWAIT) => {
                    let p = o[1] as usize % np;
                    let ci = (o[1] as usize / 8) % 3;
                    let clear = (o[1] / 24) % 4 != 3;
                    let timeout = decode_timeout(o[2] % 80, o[3]);
                    let tn = timeout.map(|t| t.as_nanos());
                    let mut t = sched::now();
                    let mut during = vec![];
                    while i < ops.len() && ops[i][4] % 16 > 0 && ops[i][0] % op::N != op::WAIT && ops[i][0] % op::N != op::FAILWAIT {
                        t += dt_of(ops[i][4] % 16, tn);
                        during.push((t, ops[i]));
                        i += 1;
                    }
                    let stall = if o[4] > 15 {
                        let z = o[4] / 16 - 1;
                        Some(((z / 6) as u64, STALLS[z as usize % 6]))
                    } else {
                        None
                    };
                    let fail = (k == op::FAILWAIT)
                        .then(|| [libc::ENOMEM, libc::EINVAL, libc::EFAULT, libc::EPERM, libc::EIO][o[3] as usize % 5]);
                    if k == op::FAILWAIT {
                        during.clear();
                    }
                    // Another container for waits that are turned away meanwhile.
                    let cj = (0..3).filter(|j| *j != ci).max_by_key(|j| conts[*j].ev.len()).unwrap();
                    let small = Events::with_capacity(NonZeroUsize::MIN);
                    sh.m().spare = Some(std::mem::replace(&mut conts[cj].ev, small));
                    do_wait(sh, p, &mut conts[ci], clear, timeout, during, stall, fail);
                    if let Some(ev) = sh.m().spare.take() {
                        conts[cj].ev = ev;
                        conts[cj].old = conts[cj].ev.iter().collect();
                    }
                }
                op::SWEEP => sweep(sh, o[1] as usize % np, &mut conts[(o[1] as usize / 8) % 3]),
                op::CLEAR => {
                    let c = &mut conts[o[1] as usize % 3];
                    c.old.clear();
                    if o[2] % 3 == 2 {
                        // A new one, of any size.
                        let want = (1usize << (o[3] % 20)) + (o[3] / 20) as usize % 3;
                        sh.m().say(|| format!("container of capacity {want}"));
                        c.ev = Events::with_capacity(NonZeroUsize::new(want).unwrap());
                        c.want = want;
                        let has = c.ev.capacity().get();
                        if has < want || !c.ev.is_empty() || c.ev.len() != 0 {
                            sh.viol(vec!["C17"], format!("a new container for {want} events has capacity {has}, len {}", c.ev.len()));
                        }
                        sh.m().label("sized-container");
                    }
                    c.ev.clear();
                    if !c.ev.is_empty() || c.ev.len() != 0 {
                        sh.viol(vec!["C17"], "clear leaves events".into());
                    }
                    check_room(sh, c);
                }
                op::NEWPOLLER => {
                    let p = o[1] as usize % np;
                    if sh.m().nested.contains(&Some(p)) {
                        continue;
                    }
                    sh.m().say(|| format!("replace p{p}"));
                    drop_poller(sh, p);
                    let pl = new_poller(sh);
                    let mut m = sh.m();
                    m.pollers[p] = pl;
                    m.notify[p] = Tri::No;
                    m.deleted[p] = false;
                    m.failed_op[p] = false;
                    m.failed_wait[p] = false;
                    m.label("new-poller");
                }
                _ => exec(sh, o, false),
            }
        }
        // Whatever the history did, the poller still works at its end.
        for p in 0..np {
            if sched::draining() {
                break;
            }
            sweep(sh, p, &mut conts[0]);
            notify_op(sh, [0, p as u32, 0, 0, 0]);
            if sched::draining() {
                break;
            }
            do_wait(sh, p, &mut conts[0], true, Some(Duration::from_secs(5)), vec![], None, None);
            if sched::draining() {
                break;
            }
            do_wait(sh, p, &mut conts[0], true, Some(Duration::from_millis(3)), vec![], None, None);
        }
        for p in 0..np {
            drop_poller(sh, p);
        }
        sh.m().exit = true;
        sched::ext_wake(1);
    };
    let sh3 = sh.clone();
    let act = move || actor(&sh3);
    let sh4 = sh.clone();
    let setup = sched::Setup {
        tick: cfg.tick,
        faults: sched::Faults {
            deny_eventfd: cfg.deny & 1 != 0 && !crate::seq::IS_EVENTFD,
            deny_timerfd: cfg.deny & 2 != 0,
            deny_pipe2: cfg.deny & 4 != 0,
            ..Default::default()
        },
        limit: 60_000_000,
        ..Default::default()
    };
    let outcome = sched::run(setup, vec![Box::new(main), Box::new(act)], Some(Box::new(move |i| hook(&sh4, i))));
    let mut m = match sh.m.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    let mut viol = outcome.violation.clone();
    if viol.is_none() && outcome.aborted {
        viol = Some(Viol { tags: vec!["INTERNAL"], msg: "case aborted without a recorded reason".into() });
    }
    let labels = std::mem::take(&mut m.lab);
    let log = std::mem::take(&mut m.log);
    RunOut { viol, labels, outcome, log }
}

