//! Engine 4: a poller with many sources (up to more than a thousand), changed in batches and in
//! scattered order. The sources are eventfds, whose readiness is known exactly: empty (writable),
//! counting (readable and writable) or full (readable).

use crate::case::Case;
use crate::sched;
use crate::seq::{RunOut, IS_POLL};
use crate::special::{label, say, start, viol, Sh};
use polling::{Event, Events, PollMode, Poller};
use std::num::NonZeroUsize;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::time::Duration;

pub mod cop {
    pub const ADD: u32 = 0;
    pub const MODIFY: u32 = 1;
    pub const DELETE: u32 = 2;
    pub const STATE: u32 = 3;
    pub const REOPEN: u32 = 4;
    pub const WAIT: u32 = 5;
    pub const SWEEP: u32 = 6;
    pub const NOTIFY: u32 = 7;
    pub const N: u32 = 8;
}

pub const SIZES: [usize; 8] = [3, 9, 18, 34, 70, 140, 300, 1100];
pub const CAPS: [usize; 8] = [1, 2, 3, 16, 33, 64, 128, 1024];

#[derive(Clone)]
struct Reg {
    key: usize,
    r: bool,
    w: bool,
    mode: PollMode,
    armed: bool,
    /// edge: something happened since the last report (`must`: something to read arrived)
    may: bool,
    must: bool,
    by_modify: bool,
    seen: bool,
}

struct Slot {
    fd: Option<OwnedFd>,
    rd: bool,
    wr: bool,
    reg: Option<Reg>,
    was: bool,
}

impl Reg {
    fn edge(&self) -> bool {
        matches!(self.mode, PollMode::Edge | PollMode::EdgeOneshot)
    }
    fn oneshot(&self) -> bool {
        matches!(self.mode, PollMode::Oneshot | PollMode::EdgeOneshot)
    }
}

impl Slot {
    fn ready(&self) -> bool {
        self.reg.as_ref().is_some_and(|g| (g.r && self.rd) || (g.w && self.wr))
    }
    fn may(&self) -> bool {
        self.ready() && self.reg.as_ref().is_some_and(|g| g.armed && (!g.edge() || g.may))
    }
    fn must(&self) -> bool {
        self.ready() && self.reg.as_ref().is_some_and(|g| g.armed && (!g.edge() || g.must))
    }
    fn tags(&self) -> Vec<&'static str> {
        let mut t = vec![];
        if let Some(g) = &self.reg {
            t.push(match g.mode {
                PollMode::Level => "C04",
                PollMode::Oneshot => "C03",
                _ => "C05",
            });
            if g.by_modify {
                t.push("C06");
            }
        }
        if self.was {
            t.push("C08");
        }
        t
    }
    fn fill(&mut self, to: u32) {
        let fd = self.fd.as_ref().unwrap().as_raw_fd();
        let mut v = 0u64;
        unsafe {
            crate::sys::raw3(libc::SYS_read, fd as usize, &mut v as *mut _ as usize, 8);
            v = [0, 1, u64::MAX - 1][to as usize % 3];
            if v > 0 {
                crate::sys::raw3(libc::SYS_write, fd as usize, &v as *const _ as usize, 8);
            }
        }
        self.rd = v > 0;
        self.wr = v < 2;
        let rd = self.rd;
        if let Some(g) = &mut self.reg {
            g.may = true;
            // Becoming readable is an arrival for a readable interest.
            g.must |= rd && g.r;
        }
    }
}

fn open(high: bool) -> Slot {
    let mut fd = unsafe { libc::eventfd(0, libc::EFD_CLOEXEC | libc::EFD_NONBLOCK) };
    assert!(fd >= 0);
    if high {
        let d = unsafe { libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 4000) };
        if d >= 0 {
            unsafe { libc::close(fd) };
            fd = d;
        }
    }
    Slot { fd: Some(unsafe { OwnedFd::from_raw_fd(fd) }), rd: false, wr: true, reg: None, was: false }
}

struct St {
    sl: Vec<Slot>,
    ev: Events,
    notified: bool,
    serial: usize,
    deletions: usize,
}

fn wait(sh: &Sh, p: &Poller, st: &mut St, to: Duration) -> Vec<usize> {
    let cap = st.ev.capacity().get();
    st.ev.clear();
    let due: Vec<usize> = (0..st.sl.len()).filter(|&i| st.sl[i].must()).collect();
    let t0 = sched::now();
    let r = sched::api(sched::OP_WAIT, 0, || p.wait(&mut st.ev, Some(to)));
    let dt = sched::now() - t0;
    if sched::draining() {
        return vec![];
    }
    let list: Vec<Event> = st.ev.iter().collect();
    say(sh, || format!("wait {to:?} -> {r:?} after {dt} ns: {} events, {} due", list.len(), due.len()));
    let n = match r {
        Ok(Ok(n)) => n,
        r => {
            viol(sh, vec!["C02", "C12", "C16"], format!("wait failed: {r:?}"));
            return vec![];
        }
    };
    if n != list.len() || st.ev.len() != n || st.ev.is_empty() != (n == 0) {
        viol(sh, vec!["C17"], format!("wait returned {n}, len {}, {} iterated", st.ev.len(), list.len()));
        return vec![];
    }
    if !IS_POLL && n > cap {
        viol(sh, vec!["C16"], format!("{n} events in a buffer of capacity {cap}"));
        return vec![];
    }
    let mut got = vec![];
    for e in &list {
        let Some(i) = st.sl.iter().position(|s| s.reg.as_ref().is_some_and(|g| g.key == e.key)) else {
            viol(sh, vec!["C01", "C06", "C08", "C18"], format!("{e:?} carries a key that is not registered"));
            return vec![];
        };
        let s = &mut st.sl[i];
        let mut t = vec!["C01"];
        t.extend(s.tags());
        if got.contains(&i) {
            viol(sh, t, format!("slot {i} is reported twice"));
            return vec![];
        }
        if !s.may() {
            viol(sh, t, format!("slot {i} (r {} w {}) is reported, but not due: {e:?}", s.rd, s.wr));
            return vec![];
        }
        let g = s.reg.as_mut().unwrap();
        if e.readable != (g.r && s.rd) || e.writable != (g.w && s.wr) || e.is_interrupt() || e.is_priority() || e.is_err() == Some(true) {
            t.extend(["C02", "C19"]);
            viol(sh, t, format!("slot {i} (r {} w {}) is reported wrongly: {e:?}", s.rd, s.wr));
            return vec![];
        }
        g.may = false;
        g.must = false;
        g.seen = true;
        if g.oneshot() {
            g.armed = false;
        }
        got.push(i);
    }
    let room = if IS_POLL { n != cap } else { n + 2 < cap };
    if !st.notified && (room || n == 0) {
        if let Some(&i) = due.iter().find(|i| !got.contains(i)) {
            let mut t = vec!["C02"];
            t.extend(st.sl[i].tags());
            if st.deletions > 0 {
                t.push("C08");
            }
            if due.len() > 8 || n == 0 {
                t.push("C16");
            }
            viol(sh, t, format!("slot {i} is due but not reported ({n} of {} are)", due.len()));
            return vec![];
        }
    }
    if n == 0 && !st.notified && due.is_empty() && dt < to.as_nanos() {
        viol(sh, vec!["C11"], format!("an empty result after {dt} ns"));
    }
    if dt > if st.notified || n > 0 { 0 } else { to.as_nanos() + 1_000_000 } {
        viol(sh, vec!["C12", "C02"], format!("the wait took {dt} ns"));
    }
    st.notified = false;
    if n > 0 {
        label(sh, "crowd-events");
    }
    if n > 30 {
        label(sh, "crowd-events-30");
    }
    if n > 200 {
        label(sh, "crowd-events-200");
    }
    if !room {
        label(sh, "crowd-truncated");
    }
    got
}

fn crowd(sh: &Sh, cfg: &[u32], ops: &[[u32; 5]]) {
    let g = |i: usize| cfg.get(i).copied().unwrap_or(0) as usize;
    let n = SIZES[g(0) % SIZES.len()];
    let high = g(2) & 1 != 0;
    let p = match sched::api(sched::OP_NEW, 0, Poller::new) {
        Ok(Ok(p)) => p,
        r => return viol(sh, vec!["C22"], format!("Poller::new: {:?}", r.map(|x| x.is_ok()))),
    };
    let mut st = St {
        sl: (0..n).map(|i| open(high && i % 3 == 1)).collect(),
        ev: Events::with_capacity(NonZeroUsize::new(CAPS[g(1) % CAPS.len()]).unwrap()),
        notified: false,
        serial: 1,
        deletions: 0,
    };
    say(sh, || format!("{n} sources, capacity {}", CAPS[g(1) % CAPS.len()]));
    if n > 60 {
        label(sh, "crowd-70");
    }
    for o in ops {
        if sched::draining() {
            return;
        }
        let kind = o[0] % cop::N;
        // Which slots: all, half, a few or one, from some start and in scattered order.
        let stride = [1, 7, 11, 13, 1, 17, 5, 19][o[2] as usize % 8];
        let count = match o[3] % 8 {
            0 | 1 => n,
            2 => n / 2,
            3 => n.min(9),
            4 => n / 4 + 1,
            _ => 1 + o[3] as usize / 8 % 4,
        }
        .max(1);
        let stride = if n % stride == 0 && stride > 1 { 1 } else { stride };
        let slots: Vec<usize> = (0..count).map(|j| (o[1] as usize + j * stride) % n).collect();
        match kind {
            cop::ADD | cop::MODIFY => {
                let bits = o[4] % 4;
                let mixed = o[4] & 64 != 0;
                say(sh, || format!("{} {count} from {} by {stride}, interest {}", ["add", "modify"][kind as usize], o[1] as usize % n, o[4]));
                for (j, &i) in slots.iter().enumerate() {
                    let s = &mut st.sl[i];
                    let m = if mixed { o[4] / 4 + j as u32 } else { o[4] / 4 };
                    let mode = match m % 8 {
                        0..=2 => PollMode::Oneshot,
                        3..=5 => PollMode::Level,
                        6 if !IS_POLL => PollMode::Edge,
                        _ if !IS_POLL => PollMode::EdgeOneshot,
                        _ => PollMode::Oneshot,
                    };
                    st.serial += 1;
                    let key = st.serial;
                    let mut e = Event::none(key);
                    let b = if mixed { bits + j as u32 } else { bits };
                    e.readable = b & 1 != 0;
                    e.writable = b & 2 != 0;
                    let fd = s.fd.as_ref().unwrap();
                    let r = if kind == cop::ADD {
                        sched::api(sched::OP_ADD, 0, || unsafe { p.add_with_mode(fd, e, mode) })
                    } else {
                        sched::api(sched::OP_MODIFY, 0, || p.modify_with_mode(fd, e, mode))
                    };
                    let want = match (kind == cop::ADD, s.reg.is_some()) {
                        (true, true) => Some(std::io::ErrorKind::AlreadyExists),
                        (false, false) => Some(std::io::ErrorKind::NotFound),
                        _ => None,
                    };
                    let got = match &r {
                        Ok(Ok(())) => Some(None),
                        Ok(Err(e)) => Some(Some(e.kind())),
                        Err(_) => None,
                    };
                    if got != Some(want) {
                        let mut t = vec!["C07"];
                        t.extend(if s.was { vec!["C08"] } else { vec![] });
                        return viol(sh, t, format!("slot {i}: {r:?}, expected {want:?}"));
                    }
                    if want.is_none() {
                        s.reg = Some(Reg {
                            key,
                            r: e.readable,
                            w: e.writable,
                            mode,
                            armed: true,
                            may: true,
                            must: true,
                            by_modify: kind == cop::MODIFY,
                            seen: false,
                        });
                        label(sh, if kind == cop::ADD { "add" } else { "modify" });
                    }
                }
            }
            cop::DELETE => {
                say(sh, || format!("delete {count} from {} by {stride}", o[1] as usize % n));
                for &i in &slots {
                    let s = &mut st.sl[i];
                    let fd = s.fd.as_ref().unwrap();
                    let r = sched::api(sched::OP_DELETE, 0, || p.delete(fd));
                    let ok = match (&r, s.reg.is_some()) {
                        (Ok(Ok(())), true) => true,
                        (Ok(Err(e)), false) => e.kind() == std::io::ErrorKind::NotFound,
                        _ => false,
                    };
                    if !ok {
                        return viol(sh, vec!["C07", "C08"], format!("delete of slot {i} (registered: {}): {r:?}", s.reg.is_some()));
                    }
                    if s.reg.take().is_some() {
                        s.was = true;
                        st.deletions += 1;
                        label(sh, "delete");
                    }
                }
            }
            cop::STATE => {
                say(sh, || format!("state {} for {count} from {} by {stride}", o[4] % 4, o[1] as usize % n));
                for (j, &i) in slots.iter().enumerate() {
                    let to = if o[4] % 4 == 3 { j as u32 } else { o[4] % 4 };
                    st.sl[i].fill(to);
                }
            }
            cop::REOPEN => {
                let free: Vec<usize> = slots.iter().copied().filter(|&i| st.sl[i].reg.is_none()).collect();
                say(sh, || format!("close and open again {}", free.len()));
                for &i in &free {
                    st.sl[i].fd = None;
                }
                for &i in free.iter().rev() {
                    let was = st.sl[i].was;
                    st.sl[i] = open(high && i % 3 == 1);
                    st.sl[i].was = was;
                }
            }
            cop::WAIT => {
                let to = [Duration::ZERO, Duration::ZERO, Duration::from_millis(2), Duration::from_nanos(1)][o[4] as usize % 4];
                wait(sh, &p, &mut st, to);
            }
            cop::SWEEP => {
                let mut left: Vec<usize> = (0..n).filter(|&i| st.sl[i].must()).collect();
                let all = left.len();
                // Whatever may be reported takes its turn, too.
                let turns = st.sl.iter().filter(|s| s.may()).count();
                let cap = st.ev.capacity().get();
                let rounds = (turns + 2).div_ceil(cap) + 1 + st.notified as usize;
                if rounds > 300 {
                    continue;
                }
                for _ in 0..rounds {
                    if left.is_empty() || sched::draining() {
                        break;
                    }
                    let got = wait(sh, &p, &mut st, Duration::ZERO);
                    left.retain(|i| !got.contains(i));
                }
                if sched::draining() {
                    return;
                }
                if let Some(&i) = left.first() {
                    let mut t = vec!["C16", "C02"];
                    t.extend(st.sl[i].tags());
                    return viol(sh, t, format!("{} of {all} due sources, such as slot {i}, stay unreported after {rounds} waits with capacity {cap}", left.len()));
                }
                if all + 2 > cap {
                    label(sh, "crowd-sweep-small");
                }
            }
            _ => {
                let r = sched::api(sched::OP_NOTIFY, 0, || p.notify());
                if !matches!(r, Ok(Ok(()))) {
                    return viol(sh, vec!["C09", "C23"], format!("notify: {r:?}"));
                }
                st.notified = true;
            }
        }
    }
    if sched::draining() {
        return;
    }
    for s in &mut st.sl {
        if s.reg.take().is_some() {
            let fd = s.fd.as_ref().unwrap();
            let r = sched::api(sched::OP_DELETE, 0, || p.delete(fd));
            if !matches!(r, Ok(Ok(()))) {
                return viol(sh, vec!["C07", "C08"], format!("delete: {r:?}"));
            }
        }
    }
    let _ = sched::api(sched::OP_DROP, 0, move || drop(p));
}

pub fn run(case: &Case, verbose: bool) -> RunOut {
    let ops = case.progs.first().cloned().unwrap_or_default();
    let cfg = case.cfg.clone();
    start(case, verbose, 0, move |sh| crowd(sh, &cfg, &ops))
}
