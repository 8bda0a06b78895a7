//! Deterministic scheduler: real threads, one of which runs at a time (it holds "the token"), a
//! virtual clock that advances only when every thread is blocked (or by injected stalls), and
//! scheduling points at every basic block of the library and around every system call it makes.
//!
//! The library runs unmodified. Its blocking system calls (epoll_wait, poll, futex, blocking
//! reads and writes, sleeps) arrive here through `interpose.rs`.

use crate::sys;
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicU8, AtomicUsize, Ordering};
use std::sync::Arc;

pub const NOTID: usize = usize::MAX;
pub const MAXT: usize = 8;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(NOTID) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static CORE: Cell<*const Core> = const { Cell::new(std::ptr::null()) };
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub tags: Vec<&'static str>,
    pub msg: String,
}

#[derive(Clone, Debug)]
pub struct KWait {
    pub fds: Vec<libc::pollfd>,
    pub deadline: Option<u128>,
    pub intr_at: Option<u128>,
    pub intr: bool,
    pub forced: bool,
    /// true for epoll_wait/poll (as opposed to a blocking read or write)
    pub is_wait: bool,
    /// unique number of this blocking call
    pub id: u64,
}

#[derive(Clone, Debug)]
pub enum St {
    Runnable,
    Running,
    Kernel(KWait),
    Futex { addr: usize, deadline: Option<u128>, woken: bool, timed_out: bool },
    Sleep(u128),
    Ext { woken: bool },
    Finished,
}

pub struct Th {
    pub st: St,
    /// Small integer describing the API call in progress (0 = none), set by `api`.
    pub op: u32,
    /// poller index the call is on
    pub op_poller: u32,
    pub op_points: u64,
    pub solo: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Faults {
    pub deny_eventfd: bool,
    pub deny_timerfd: bool,
    pub deny_pipe2: bool,
    /// One-shot failures (errno `.1`) of the next kernel wait of thread `.0`.
    pub fail_wait: Vec<(usize, i32)>,
    /// The same for the next registration (not removal) of thread `.0` with the system.
    pub fail_ctl: Option<(usize, i32)>,
    /// Fail the n-th (0-based) resource-related system call of the next API calls.
    pub fail_nth: Vec<(u32, i32)>,
    pub calls_seen: u32,
    pub fail_hit: Vec<(&'static str, i32)>,
    /// (n-th blocking kernel wait, delay): interrupt it after that delay.
    pub eintr: Vec<(u32, u64)>,
    pub waits_blocked: u32,
    /// n-th futex waits that return spuriously.
    pub spurious: Vec<u32>,
    pub futex_waits: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Timer {
    pub deadline: Option<u128>,
    pub interval: u128,
    /// what the clock of the timer shows when the monotonic one shows zero
    pub base: u128,
}

pub enum IdleAction {
    Continue,
    Wake(usize),
    Violation(Viol),
}

pub struct IdleInfo<'a> {
    pub now: u128,
    pub next: Option<u128>,
    pub th: &'a [Th],
}

pub struct State {
    pub th: Vec<Th>,
    pub now: u128,
    pub tick: u64,
    pub ticked: u128,
    pub stalled: u128,
    pub points: u64,
    pub sync_points: u64,
    pub armed_at: (u64, u64),
    /// gaps of the schedule are counted in synchronization points
    pub coarse: bool,
    /// after the schedule, preempt this often (0: never)
    pub every: u64,
    pub next_preempt: u64,
    pub sched: Vec<(u32, u32)>,
    pub sched_i: usize,
    /// (absolute point, ns), ascending
    pub stalls: Vec<(u64, u64)>,
    pub stall_i: usize,
    pub timers: BTreeMap<i32, Timer>,
    pub faults: Faults,
    pub hook: Option<Box<dyn FnMut(&IdleInfo) -> IdleAction>>,
    pub violation: Option<Viol>,
    pub draining: bool,
    pub forced: u32,
    pub switches: u64,
    pub preempted: u64,
    pub idle_rounds: u64,
    pub limit: u64,
    pub aborted: bool,
    pub owned: Vec<i32>,
    pub bad_close: Vec<i32>,
    pub eintr_delivered: u32,
    /// (thread, number of signals that interrupt its next waits).
    pub pending_signals: Vec<(usize, u32)>,
    pub syscalls: u64,
    pub blocks: u64,
    pub stall_gaps: Vec<(u64, u64)>,
}

impl State {
    /// Where the schedule is: all points, or only those at synchronization operations.
    fn position(&self) -> u64 {
        if self.coarse {
            self.sync_points
        } else {
            self.points
        }
    }

    fn preempt_now(&mut self) -> Option<u32> {
        let at = self.position();
        if at < self.next_preempt {
            return None;
        }
        // Once the schedule is over, take turns.
        let choice = self.sched.get(self.sched_i).map_or(self.sched_i as u32 / 3, |x| x.1);
        self.sched_i += 1;
        self.next_preempt = match self.sched.get(self.sched_i) {
            Some(x) => at + 1 + x.0 as u64,
            None if self.every > 0 => at + self.every,
            None => u64::MAX,
        };
        Some(choice)
    }
}

pub struct Core {
    st: UnsafeCell<State>,
    park: [AtomicU32; MAXT],
    pub done: AtomicU32,
}

unsafe impl Send for Core {}
unsafe impl Sync for Core {}

pub static COV: [AtomicU8; 8192] = [const { AtomicU8::new(0) }; 8192];
pub static NGUARDS: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(s: *mut u32, e: *mut u32) {
    if s == e || *s != 0 {
        return;
    }
    let n = e.offset_from(s);
    for i in 0..n {
        *s.offset(i) = (NGUARDS.fetch_add(1, Ordering::Relaxed) + 1) as u32;
    }
}

/// The addresses of the blocks, in the order of the guards.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(s: *const usize, e: *const usize) {
    PCS.store(s as usize, Ordering::Relaxed);
    PCS_END.store(e as usize, Ordering::Relaxed);
}

static PCS: AtomicUsize = AtomicUsize::new(0);
static PCS_END: AtomicUsize = AtomicUsize::new(0);

/// Finds the blocks that begin a synchronization operation (entries of atomic, mutex and condition
/// variable functions), by the names in the symbol table of this program. Should the compiler name
/// them otherwise, only system calls are left as coarse scheduling points.
pub fn find_sync_points() -> usize {
    let (b, e) = (PCS.load(Ordering::Relaxed), PCS_END.load(Ordering::Relaxed));
    let exe = match std::fs::read("/proc/self/exe") {
        Ok(x) if b != 0 => x,
        _ => return 0,
    };
    let u = |o: usize, n: usize| exe.get(o..o + n).map_or(0, |x| x.iter().rev().fold(0u64, |a, c| a << 8 | *c as u64)) as usize;
    let (shoff, shent, shnum) = (u(0x28, 8), u(0x3a, 2), u(0x3c, 2));
    let mut names: std::collections::HashMap<usize, String> = Default::default();
    let mut here = 0;
    for i in 0..shnum {
        let h = shoff + i * shent;
        if u(h + 4, 4) != 2 {
            continue;
        }
        let (off, size, link) = (u(h + 0x18, 8), u(h + 0x20, 8), u(h + 0x28, 4));
        let stroff = u(shoff + link * shent + 0x18, 8);
        for k in 0..size / 24 {
            let y = off + k * 24;
            let (name, value) = (u(y, 4), u(y + 8, 8));
            let at = stroff + name;
            let len = exe.get(at..).and_then(|x| x.iter().position(|c| *c == 0)).unwrap_or(0);
            let n = String::from_utf8_lossy(&exe[at..at + len]).into_owned();
            if n == "__sanitizer_cov_pcs_init" {
                here = value;
            }
            names.insert(value, n);
        }
    }
    let bias = (__sanitizer_cov_pcs_init as *const () as usize).wrapping_sub(here);
    let mut found = 0;
    for k in 0..(e - b) / 16 {
        let (pc, entry) = unsafe { (*((b + 16 * k) as *const usize), *((b + 16 * k + 8) as *const usize) & 1) };
        if entry == 0 || k + 1 >= SYNC.len() {
            continue;
        }
        let n = match names.get(&pc.wrapping_sub(bias)) {
            Some(n) => n,
            None => continue,
        };
        let has = |x: &str| n.contains(x);
        let atomic = has("6atomic") && !has("atomic_") && !has("3new") && !has("5fence") && !has("8get_mut");
        let lock = (has("5mutex") || has("6rwlock") || has("7condvar"))
            && ["4lock", "8try_lock", "4wait", "12wait_timeout", "10notify_one", "10notify_all", "4read", "5write", "4drop4Drop4drop"].iter().any(|x| has(x))
            && !has("drop_glue");
        if atomic || lock {
            SYNC[k + 1].store(1, Ordering::Relaxed);
            found += 1;
        }
    }
    found
}

static SYNC: [AtomicU8; 8192] = [const { AtomicU8::new(0) }; 8192];

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = *g as usize;
    if id < COV.len() {
        COV[id].store(1, Ordering::Relaxed);
    }
    if ACTIVE.with(|a| a.get()) {
        point_at(id < SYNC.len() && SYNC[id].load(Ordering::Relaxed) != 0);
    }
}

pub fn covered() -> usize {
    COV.iter().filter(|c| c.load(Ordering::Relaxed) != 0).count()
}

/// Is the calling thread inside a library call made under the scheduler?
pub fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

pub fn tid() -> usize {
    TID.with(|t| t.get())
}

fn core() -> &'static Core {
    unsafe { &*CORE.with(|c| c.get()) }
}

/// The scheduler state; only the token holder may call this.
#[allow(clippy::mut_from_ref)]
pub fn st() -> &'static mut State {
    unsafe { &mut *core().st.get() }
}

pub fn on_sim() -> bool {
    TID.with(|t| t.get()) != NOTID
}

/// Runs `f` with interception switched off.
pub fn passive<R>(f: impl FnOnce() -> R) -> R {
    let old = ACTIVE.with(|a| a.replace(false));
    let r = f();
    ACTIVE.with(|a| a.set(old));
    r
}

pub const OP_WAIT: u32 = 1;
pub const OP_NOTIFY: u32 = 2;
pub const OP_ADD: u32 = 3;
pub const OP_MODIFY: u32 = 4;
pub const OP_DELETE: u32 = 5;
pub const OP_NEW: u32 = 6;
pub const OP_DROP: u32 = 7;

/// Performs a library call: interception and scheduling points are on while `f` runs. Panics of
/// the library are returned as Err.
pub fn api<R>(op: u32, poller: u32, f: impl FnOnce() -> R) -> Result<R, String> {
    let me = tid();
    {
        let s = st();
        s.th[me].op = op;
        s.th[me].op_poller = poller;
        s.th[me].op_points = 0;
        s.th[me].solo = 0;
    }
    ACTIVE.with(|a| a.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ACTIVE.with(|a| a.set(false));
    st().th[me].op = 0;
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

fn advance(s: &mut State, to: u128) {
    if to > s.now {
        s.now = to;
    }
    fire_timers(s);
}

pub fn fire_timers(s: &mut State) {
    let now = s.now;
    for (fd, t) in s.timers.iter_mut() {
        if let Some(d) = t.deadline {
            if d <= now {
                let v: u64 = 1;
                unsafe { sys::raw3(libc::SYS_write, *fd as usize, &v as *const u64 as usize, 8) };
                t.deadline = if t.interval > 0 { Some(d + t.interval) } else { None };
            }
        }
    }
}

fn ready(s: &State, t: &Th) -> bool {
    match &t.st {
        St::Runnable => true,
        St::Running => false,
        St::Kernel(k) => {
            if k.forced || k.intr || s.draining {
                return true;
            }
            if k.deadline.is_some_and(|d| d <= s.now) || k.intr_at.is_some_and(|d| d <= s.now) {
                return true;
            }
            let mut fds = k.fds.clone();
            for f in fds.iter_mut() {
                f.revents = 0;
            }
            let r = unsafe { sys::raw3(libc::SYS_poll, fds.as_mut_ptr() as usize, fds.len(), 0) };
            r > 0
        }
        St::Futex { deadline, woken, .. } => *woken || deadline.is_some_and(|d| d <= s.now),
        St::Sleep(t) => *t <= s.now || s.draining,
        St::Ext { woken } => *woken || s.draining,
        St::Finished => false,
    }
}

fn next_time(s: &State) -> Option<u128> {
    let mut m: Option<u128> = None;
    let mut put = |t: Option<u128>| {
        if let Some(t) = t {
            m = Some(m.map_or(t, |x| x.min(t)));
        }
    };
    for t in &s.th {
        match &t.st {
            St::Kernel(k) => {
                put(k.deadline);
                put(k.intr_at);
            }
            St::Futex { deadline, .. } => put(*deadline),
            St::Sleep(t) => put(Some(*t)),
            _ => {}
        }
    }
    for t in s.timers.values() {
        put(t.deadline);
    }
    m
}

/// Chooses who runs next; `None` means all threads have finished (or the case was aborted).
fn pick(s: &mut State, me: usize, choice: Option<u32>) -> Option<usize> {
    loop {
        let n = s.th.len();
        let mut c: Vec<usize> = Vec::new();
        for i in 1..=n {
            let i = (me + i) % n;
            if ready(s, &s.th[i]) {
                c.push(i);
            }
        }
        if !c.is_empty() {
            return Some(match choice {
                Some(k) => c[k as usize % c.len()],
                None => c[0],
            });
        }
        if s.th.iter().all(|t| matches!(t.st, St::Finished)) {
            return None;
        }
        s.idle_rounds += 1;
        if s.idle_rounds > 100_000 {
            s.aborted = true;
            return None;
        }
        let next = next_time(s);
        let mut acted = false;
        if s.violation.is_none() {
            if let Some(mut h) = s.hook.take() {
                let a = passive(|| h(&IdleInfo { now: s.now, next, th: &s.th }));
                s.hook = Some(h);
                match a {
                    IdleAction::Continue => {}
                    IdleAction::Wake(t) => {
                        if let St::Ext { woken } = &mut s.th[t].st {
                            *woken = true;
                            acted = true;
                        }
                    }
                    IdleAction::Violation(v) => {
                        s.violation = Some(v);
                        s.draining = true;
                        acted = true;
                    }
                }
            }
        }
        if acted {
            if s.draining {
                // Only futex waiters can be left: nothing can release them.
                if !s.th.iter().any(|t| ready(s, t)) {
                    s.aborted = true;
                    return None;
                }
            }
            continue;
        }
        match next {
            Some(t) => advance(s, t),
            None => {
                s.forced += 1;
                let mut any = false;
                for t in s.th.iter_mut() {
                    if let St::Kernel(k) = &mut t.st {
                        k.forced = true;
                        any = true;
                    }
                    if let St::Ext { woken } = &mut t.st {
                        *woken = true;
                        any = true;
                    }
                }
                if !any || s.forced > 200 {
                    s.aborted = true;
                    return None;
                }
            }
        }
    }
}

fn park_until_running(me: usize) {
    let c = core();
    loop {
        let v = c.park[me].load(Ordering::Acquire);
        if v == 1 {
            c.park[me].store(0, Ordering::Relaxed);
            return;
        }
        for _ in 0..50 {
            std::hint::spin_loop();
        }
        if c.park[me].load(Ordering::Acquire) == 0 {
            sys::futex_wait(c.park[me].as_ptr(), 0);
        }
    }
}

fn unpark(t: usize) {
    let c = core();
    c.park[t].store(1, Ordering::Release);
    sys::futex_wake(c.park[t].as_ptr(), 1);
}

fn finish_case(code: u32) {
    let c = core();
    c.done.store(code, Ordering::Release);
    sys::futex_wake(c.done.as_ptr(), 1);
}

fn park_forever() -> ! {
    let z = AtomicU32::new(0);
    loop {
        sys::futex_wait(z.as_ptr(), 0);
    }
}

/// Gives up the token in state `new`; returns when this thread runs again. The final state (for
/// instance a kernel wait that became ready) is left in `th[me].st` for the caller to inspect.
fn switch(new: St, choice: Option<u32>) -> St {
    let me = tid();
    let s = st();
    s.th[me].st = new;
    match pick(s, me, choice) {
        None => {
            finish_case(2);
            park_forever();
        }
        Some(n) if n == me => {}
        Some(n) => {
            s.switches += 1;
            s.th[n].solo = 0;
            unpark(n);
            park_until_running(me);
        }
    }
    let s = st();
    std::mem::replace(&mut s.th[me].st, St::Running)
}

fn preempt(choice: u32) {
    let me = tid();
    let s = st();
    // Anybody else to run right now? (No idle processing on a mere preemption.)
    let n = s.th.len();
    let c: Vec<usize> = (1..n).map(|i| (me + i) % n).filter(|&i| ready(s, &s.th[i])).collect();
    if c.is_empty() {
        return;
    }
    let t = c[choice as usize % c.len()];
    s.preempted += 1;
    s.switches += 1;
    s.th[me].st = St::Runnable;
    s.th[t].solo = 0;
    unpark(t);
    park_until_running(me);
    st().th[me].st = St::Running;
}

/// A scheduling point inside a library call, at a system call.
pub fn point() {
    point_at(true)
}

/// A scheduling point inside a library call; `sync`: before a synchronization operation or system
/// call.
fn point_at(sync: bool) {
    let me = tid();
    let s = st();
    s.points += 1;
    s.sync_points += sync as u64;
    s.th[me].op_points += 1;
    s.th[me].solo += 1;
    while s.stall_i < s.stalls.len() && s.stalls[s.stall_i].0 <= s.points {
        let ns = s.stalls[s.stall_i].1 as u128;
        s.stall_i += 1;
        s.stalled += ns;
        let to = s.now + ns;
        advance(s, to);
    }
    if let Some(choice) = s.preempt_now() {
        ACTIVE.with(|a| a.set(false));
        preempt(choice);
        ACTIVE.with(|a| a.set(true));
        return;
    }
    if s.th[me].solo > 20_000 {
        s.th[me].solo = 0;
        ACTIVE.with(|a| a.set(false));
        preempt(0);
        ACTIVE.with(|a| a.set(true));
    }
    if st().points > st().limit {
        let s = st();
        if s.violation.is_none() {
            let op = s.th[me].op;
            s.violation = Some(Viol {
                tags: match op {
                    OP_WAIT => vec!["C12", "C09", "C02"],
                    OP_NOTIFY => vec!["C09", "C23"],
                    OP_NEW | OP_DROP => vec!["C22"],
                    _ => vec!["C14", "C23"],
                },
                msg: format!("a library call (op {op}) spins without end"),
            });
        }
        s.aborted = true;
        finish_case(2);
        park_forever();
    }
}

/// Lets other threads run between operations of a program (a scheduling point outside library
/// calls).
pub fn op_boundary() {
    let s = st();
    s.points += 1;
    s.sync_points += 1;
    if let Some(choice) = s.preempt_now() {
        preempt(choice);
    }
}

pub enum KRes {
    Ready,
    TimedOut,
    Intr,
    Forced,
}

/// Blocks in the (virtual) kernel until one of `fds` is ready.
pub fn kernel_block(fds: Vec<libc::pollfd>, timeout: Option<u128>, is_wait: bool) -> KRes {
    let s = st();
    let deadline = timeout.map(|t| s.now.saturating_add(t));
    kernel_block_until(fds, deadline, is_wait)
}

pub fn kernel_block_until(fds: Vec<libc::pollfd>, deadline: Option<u128>, is_wait: bool) -> KRes {
    let s = st();
    let mut intr_at = None;
    s.blocks += 1;
    let id = s.blocks;
    if is_wait {
        let n = s.faults.waits_blocked;
        s.faults.waits_blocked += 1;
        if let Some(e) = s.faults.eintr.iter().find(|e| e.0 == n) {
            intr_at = Some(s.now + e.1 as u128);
        }
    }
    ACTIVE.with(|a| a.set(false));
    let r = switch(
        St::Kernel(KWait { fds, deadline, intr_at, intr: false, forced: false, is_wait, id }),
        None,
    );
    ACTIVE.with(|a| a.set(true));
    let s = st();
    if let St::Kernel(k) = r {
        let mut fds = k.fds;
        let n = unsafe { sys::raw3(libc::SYS_poll, fds.as_mut_ptr() as usize, fds.len(), 0) };
        if n > 0 {
            return KRes::Ready;
        }
        if k.intr || k.intr_at.is_some_and(|d| d <= s.now) {
            s.eintr_delivered += 1;
            return KRes::Intr;
        }
        if k.deadline.is_some_and(|d| d <= s.now) {
            return KRes::TimedOut;
        }
        KRes::Forced
    } else {
        KRes::Forced
    }
}

/// 0, ETIMEDOUT or EAGAIN.
pub fn futex_block(addr: usize, val: u32, deadline: Option<u128>) -> i32 {
    let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if cur != val {
        return libc::EAGAIN;
    }
    let s = st();
    let n = s.faults.futex_waits;
    s.faults.futex_waits += 1;
    if s.faults.spurious.contains(&n) {
        return 0;
    }
    ACTIVE.with(|a| a.set(false));
    let r = switch(St::Futex { addr, deadline, woken: false, timed_out: false }, None);
    ACTIVE.with(|a| a.set(true));
    match r {
        St::Futex { woken: true, .. } => 0,
        _ => libc::ETIMEDOUT,
    }
}

pub fn futex_wake(addr: usize, n: u32) -> u32 {
    let s = st();
    let mut c = 0;
    for t in s.th.iter_mut() {
        if c >= n {
            break;
        }
        if let St::Futex { addr: a, woken, .. } = &mut t.st {
            if *a == addr && !*woken {
                *woken = true;
                c += 1;
            }
        }
    }
    c
}

/// A virtual sleep (both inside and outside library calls).
pub fn sleep_until(t: u128) {
    let a = ACTIVE.with(|a| a.replace(false));
    if st().now < t {
        switch(St::Sleep(t), None);
    }
    ACTIVE.with(|x| x.set(a));
}

/// Whether a thread waits for something that only another thread can bring about.
pub fn stuck(t: usize) -> bool {
    let s = st();
    match &s.th[t].st {
        St::Kernel(KWait { deadline: None, intr_at: None, .. }) | St::Futex { deadline: None, .. } => !ready(s, &s.th[t]),
        _ => false,
    }
}

pub fn yield_now() {
    let a = ACTIVE.with(|a| a.replace(false));
    preempt(0);
    ACTIVE.with(|x| x.set(a));
}

/// Blocks until `ext_wake`.
pub fn ext_wait() {
    switch(St::Ext { woken: false }, None);
}

pub fn ext_wake(t: usize) {
    if let St::Ext { woken } = &mut st().th[t].st {
        *woken = true;
    }
}

/// Starts the preemption schedule and the injected delays (see `Setup::deferred`).
pub fn arm_schedule() {
    let s = st();
    s.armed_at = (s.points, s.sync_points);
    s.next_preempt = match s.sched.first() {
        Some(x) => s.position() + 1 + x.0 as u64,
        None if s.every > 0 => s.position() + s.every,
        None => u64::MAX,
    };
    let mut at = s.points;
    let gaps = std::mem::take(&mut s.stall_gaps);
    for (g, ns) in gaps {
        at += g + 1;
        s.stalls.push((at, ns));
    }
}

/// Makes the next kernel wait of thread `t` fail.
pub fn set_fail(t: usize, errno: i32) {
    st().faults.fail_wait.push((t, errno));
}

/// Withdraws a failure; true if it had not happened.
pub fn clear_fail(t: usize) -> bool {
    let v = &mut st().faults.fail_wait;
    let n = v.len();
    v.retain(|x| x.0 != t);
    v.len() != n
}

/// Delivers a signal to a thread blocked in a kernel wait (no effect otherwise).
pub fn interrupt(t: usize) -> bool {
    if let St::Kernel(k) = &mut st().th[t].st {
        if k.is_wait {
            k.intr = true;
            return true;
        }
    }
    false
}

/// `n` signals arrive just as thread `t` looks for events and finds none.
pub fn interrupt_next(t: usize, n: u32) {
    let v = &mut st().pending_signals;
    match v.iter_mut().find(|x| x.0 == t) {
        Some(x) => x.1 = x.1.max(n),
        None => v.push((t, n)),
    }
}

/// Whether a signal interrupts the system call of this thread.
pub fn take_signal() -> bool {
    let t = tid();
    let s = st();
    for x in &mut s.pending_signals {
        if x.0 == t && x.1 > 0 {
            x.1 -= 1;
            s.eintr_delivered += 1;
            return true;
        }
    }
    false
}

/// The largest number of bytes queued in a descriptor that the library owns.
pub fn queued() -> i32 {
    let mut most = 0;
    for fd in &st().owned {
        let mut n: i32 = 0;
        let r = unsafe { sys::raw3(libc::SYS_ioctl, *fd as usize, libc::FIONREAD as usize, &mut n as *mut _ as usize) };
        if r == 0 {
            most = most.max(n);
        }
    }
    most
}

pub fn now() -> u128 {
    st().now
}

pub fn draining() -> bool {
    st().draining
}

/// Records a violation (the first one counts) and lets the case run out.
pub fn violate(v: Viol) {
    let s = st();
    if s.violation.is_none() {
        s.violation = Some(v);
    }
    s.draining = true;
}

// ---------------------------------------------------------------------------------------------

pub struct Setup {
    pub now: u128,
    pub tick: u64,
    pub sched: Vec<(u32, u32)>,
    pub stalls: Vec<(u64, u64)>,
    /// the schedule and these delays (point gaps, ns) count from `arm_schedule` on
    pub deferred: bool,
    pub coarse: bool,
    pub every: u64,
    pub stall_gaps: Vec<(u64, u64)>,
    pub faults: Faults,
    pub limit: u64,
}

impl Default for Setup {
    fn default() -> Self {
        Setup {
            now: 1_000_000_000_007,
            tick: 0,
            sched: vec![],
            stalls: vec![],
            deferred: false,
            coarse: false,
            every: 0,
            stall_gaps: vec![],
            faults: Faults::default(),
            limit: 3_000_000,
        }
    }
}

#[derive(Debug, Default, Clone)]
pub struct Outcome {
    pub violation: Option<Viol>,
    pub aborted: bool,
    pub forced: u32,
    pub points: u64,
    pub switches: u64,
    pub preempted: u64,
    pub eintr: u32,
    pub syscalls: u64,
    pub bad_close: Vec<i32>,
    pub vtime: u128,
}

type Job = (Arc<Core>, usize, Box<dyn FnOnce() + Send>);

fn thread_main(core: Arc<Core>, tid: usize, body: Box<dyn FnOnce() + Send>) {
    TID.with(|t| t.set(tid));
    CORE.with(|c| c.set(Arc::as_ptr(&core)));
    park_until_running(tid);
    st().th[tid].st = St::Running;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
    ACTIVE.with(|a| a.set(false));
    if let Err(e) = r {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        eprintln!("INTERNAL: harness thread panicked: {m}");
        std::process::exit(4);
    }
    let s = st();
    s.th[tid].st = St::Finished;
    let next = pick(s, tid, None);
    TID.with(|t| t.set(NOTID));
    CORE.with(|c| c.set(std::ptr::null()));
    match next {
        Some(n) => {
            s.switches += 1;
            core.park[n].store(1, Ordering::Release);
            sys::futex_wake(core.park[n].as_ptr(), 1);
        }
        None => {
            let code = if s.aborted { 2 } else { 1 };
            core.done.store(code, Ordering::Release);
            sys::futex_wake(core.done.as_ptr(), 1);
        }
    }
}

/// Runs one case. `make_hook` builds the idle hook.
pub fn run(
    setup: Setup,
    bodies: Vec<Box<dyn FnOnce() + Send>>,
    hook: Option<Box<dyn FnMut(&IdleInfo) -> IdleAction>>,
) -> Outcome {
    let n = bodies.len();
    assert!(n <= MAXT && n > 0);
    let next_preempt =
        if setup.deferred { u64::MAX } else { setup.sched.first().map_or(u64::MAX, |x| 1 + x.0 as u64) };
    let state = State {
        th: (0..n)
            .map(|_| Th { st: St::Runnable, op: 0, op_poller: 0, op_points: 0, solo: 0 })
            .collect(),
        now: setup.now,
        tick: setup.tick,
        ticked: 0,
        stalled: 0,
        points: 0,
        sync_points: 0,
        armed_at: (0, 0),
        coarse: setup.coarse,
        every: setup.every,
        next_preempt,
        sched: setup.sched,
        sched_i: 0,
        stalls: setup.stalls,
        stall_i: 0,
        timers: BTreeMap::new(),
        faults: setup.faults,
        hook,
        violation: None,
        draining: false,
        forced: 0,
        switches: 0,
        preempted: 0,
        idle_rounds: 0,
        limit: setup.limit,
        aborted: false,
        owned: vec![],
        bad_close: vec![],
        eintr_delivered: 0,
        pending_signals: vec![],
        syscalls: 0,
        blocks: 0,
        stall_gaps: setup.stall_gaps,
    };
    let core = Arc::new(Core {
        st: UnsafeCell::new(state),
        park: [const { AtomicU32::new(0) }; MAXT],
        done: AtomicU32::new(0),
    });
    // Fresh threads for every case: what the standard library keeps per thread (hash seeds) must
    // not depend on the cases that ran before.
    let mut handles = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        let c = core.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(256 * 1024)
                .spawn(move || thread_main(c, i, b))
                .expect("spawn"),
        );
    }
    core.park[0].store(1, Ordering::Release);
    sys::futex_wake(core.park[0].as_ptr(), 1);
    let t0 = sys::real_ns();
    while core.done.load(Ordering::Acquire) == 0 {
        sys::futex_wait_ms(core.done.as_ptr(), 0, 1000);
        if sys::real_ns() - t0 > 60_000_000_000 && core.done.load(Ordering::Acquire) == 0 {
            eprintln!("INTERNAL: a case hung in real time");
            std::process::exit(5);
        }
    }
    let aborted = core.done.load(Ordering::Acquire) == 2;
    let s = unsafe { &mut *core.st.get() };
    let out = Outcome {
        violation: s.violation.take(),
        aborted,
        forced: s.forced,
        points: s.points,
        switches: s.switches,
        preempted: s.preempted,
        eintr: s.eintr_delivered,
        syscalls: s.syscalls,
        bad_close: s.bad_close.clone(),
        vtime: s.now,
    };
    if aborted {
        // Threads are parked for good inside library calls; keep what they refer to.
        std::mem::forget(core);
    } else {
        for h in handles {
            let _ = h.join();
        }
    }
    out
}
