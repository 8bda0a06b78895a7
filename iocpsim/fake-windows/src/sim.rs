//! A simulated Windows: completion ports, the socket driver, event objects and waits registered with the
//! thread pool, on a virtual clock.
use crate::Win32::Foundation::*;
use crate::Win32::System::Threading::{INFINITE, WAITORTIMERCALLBACK, WT_EXECUTEONLYONCE};
use crate::Win32::System::IO::{IO_STATUS_BLOCK, OVERLAPPED, OVERLAPPED_ENTRY};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::ffi::c_void;
use std::sync::{Mutex, MutexGuard};

pub const RECEIVE: u32 = 0x001;
pub const RECEIVE_EXPEDITED: u32 = 0x002;
pub const SEND: u32 = 0x004;
pub const DISCONNECT: u32 = 0x008;
pub const ABORT: u32 = 0x010;
pub const ACCEPT: u32 = 0x080;
pub const CONNECT_FAIL: u32 = 0x100;

/// What a wait that would block does next.
pub enum Act {
    /// Sleep until its timeout.
    Sleep,
    /// Look again.
    Again,
}
type Hook = Box<dyn FnMut(Option<u64>) -> Act>;

struct Entry {
    key: usize,
    ov: usize,
}

enum Obj {
    Port(VecDeque<Entry>),
    Afd(Option<(usize, usize)>),
    Event { manual: bool, on: bool },
}

struct Poll {
    afd: usize,
    iosb: usize,
    info: usize,
    sock: u64,
    mask: u32,
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Waiting,
    Fired,
    Done,
}

struct WaitReg {
    obj: usize,
    cb: unsafe extern "system" fn(*mut c_void, u8),
    ctx: usize,
    state: St,
}

#[derive(Default)]
struct Sim {
    now: u64,
    next: usize,
    objs: BTreeMap<usize, Obj>,
    socks: BTreeMap<u64, u32>,
    polls: Vec<Poll>,
    waits: BTreeMap<usize, WaitReg>,
    fired: VecDeque<usize>,
    cancelled: VecDeque<Poll>,
    lazy_cancel: bool,
    fail_wait: Option<u32>,
    broken: Option<String>,
    calls: u32,
    busy: u32,
    ports: u32,
    /// Resource calls so far, and the one to refuse.
    made: u32,
    refuse: Option<u32>,
}

static SIM: Mutex<Option<Sim>> = Mutex::new(None);

struct G(MutexGuard<'static, Option<Sim>>);
impl std::ops::Deref for G {
    type Target = Sim;
    fn deref(&self) -> &Sim {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for G {
    fn deref_mut(&mut self) -> &mut Sim {
        self.0.as_mut().unwrap()
    }
}
fn sim() -> G {
    let mut g = SIM.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        *g = Some(Sim { next: 0x40, ..Sim::default() });
    }
    G(g)
}

thread_local! {
    static ERR: Cell<u32> = Cell::new(0);
    static HOOK: RefCell<Option<Hook>> = RefCell::new(None);
}

fn fail(e: u32) -> BOOL {
    ERR.with(|c| c.set(e));
    0
}
pub fn last_error() -> u32 {
    ERR.with(|c| c.get())
}

// What the harness does.

pub fn reset() {
    *SIM.lock().unwrap_or_else(|e| e.into_inner()) = None;
    drop(sim());
}
pub fn now() -> u64 {
    sim().now
}
pub fn advance(ns: u64) {
    let mut s = sim();
    s.now = s.now.saturating_add(ns);
}
pub fn set_hook(h: Option<Hook>) {
    HOOK.with(|c| *c.borrow_mut() = h);
}
/// Something a kernel would not survive, or a use of memory that is not the caller's.
pub fn broken() -> Option<String> {
    sim().broken.take()
}
/// System calls to wait so far; a wait that makes very many of them is stopped.
pub fn calls() -> u32 {
    sim().busy = 0;
    sim().calls
}
/// The next wait fails.
pub fn fail_wait(e: Option<u32>) {
    sim().fail_wait = e;
}
/// Cancelled operations complete later.
pub fn lazy_cancel(on: bool) {
    sim().lazy_cancel = on;
}
/// Refuse the n-th of the calls that need resources from now on.
pub fn refuse(n: Option<u32>) {
    let mut s = sim();
    s.made = 0;
    s.refuse = n;
}
/// Whether it has.
pub fn has_refused() -> bool {
    let s = sim();
    s.refuse.map_or(false, |n| s.made >= n)
}
/// The sockets that are polled, and the objects that are waited for.
pub fn watched() -> (Vec<u64>, Vec<usize>) {
    let s = sim();
    (s.polls.iter().map(|p| p.sock).collect(), s.waits.values().filter(|w| w.state == St::Waiting).map(|w| w.obj).collect())
}
/// How many ports and devices are open.
pub fn open() -> (usize, usize) {
    let s = sim();
    (s.objs.values().filter(|o| matches!(o, Obj::Port(_))).count(), s.objs.values().filter(|o| matches!(o, Obj::Afd(_))).count())
}

pub fn new_event(manual: bool) -> HANDLE {
    let mut s = sim();
    s.add(Obj::Event { manual, on: false }) as HANDLE
}
pub fn signaled(h: HANDLE) -> bool {
    matches!(sim().objs.get(&(h as usize)), Some(Obj::Event { on: true, .. }))
}
/// Returns whether a registered wait took the signal.
pub fn set_event(h: HANDLE) -> bool {
    let mut s = sim();
    let h = h as usize;
    let Some(Obj::Event { manual, on }) = s.objs.get_mut(&h) else { return false };
    let manual = *manual;
    *on = true;
    let ids: Vec<usize> = s.waits.iter().filter(|(_, w)| w.obj == h && w.state == St::Waiting).map(|(i, _)| *i).collect();
    for i in &ids {
        s.waits.get_mut(i).unwrap().state = St::Fired;
        s.fired.push_back(*i);
        if !manual {
            if let Some(Obj::Event { on, .. }) = s.objs.get_mut(&h) {
                *on = false;
            }
            break;
        }
    }
    !ids.is_empty()
}
pub fn reset_event(h: HANDLE) {
    if let Some(Obj::Event { on, .. }) = sim().objs.get_mut(&(h as usize)) {
        *on = false;
    }
}

pub fn new_socket(n: u64, cond: u32) {
    sim().socks.insert(n, cond);
}
pub fn conditions(n: u64) -> u32 {
    sim().socks.get(&n).copied().unwrap_or(0)
}
pub fn set_conditions(n: u64, cond: u32) {
    let mut s = sim();
    s.socks.insert(n, cond);
    let mut i = 0;
    while i < s.polls.len() {
        if s.polls[i].sock == n && s.polls[i].mask & cond != 0 {
            let p = s.polls.remove(i);
            let m = p.mask & cond;
            s.complete(p, STATUS_SUCCESS, m);
        } else {
            i += 1;
        }
    }
}

/// Runs one callback of the thread pool, if one is due.
pub fn run_callback() -> bool {
    let (cb, ctx, id) = {
        let mut s = sim();
        let Some(id) = s.fired.pop_front() else { return false };
        let w = &s.waits[&id];
        (w.cb, w.ctx, id)
    };
    unsafe { cb(ctx as *mut c_void, 0) };
    let mut s = sim();
    if let Some(w) = s.waits.get_mut(&id) {
        w.state = St::Done;
    }
    true
}
pub fn callbacks() -> usize {
    sim().fired.len()
}

impl Sim {
    fn add(&mut self, o: Obj) -> usize {
        self.next += 4;
        let h = self.next;
        self.objs.insert(h, o);
        h
    }
    fn refused(&mut self) -> bool {
        self.made += 1;
        self.refuse == Some(self.made)
    }
    fn broke(&mut self, m: &str) {
        if self.broken.is_none() {
            self.broken = Some(m.into());
        }
    }
    fn complete(&mut self, p: Poll, status: NTSTATUS, events: u32) {
        unsafe {
            let b = p.iosb as *mut IO_STATUS_BLOCK;
            (*b).Anonymous.Status = status;
            (*b).Information = 32;
            let info = p.info as *mut u8;
            *(info.add(8) as *mut u32) = (events != 0) as u32;
            *(info.add(24) as *mut u32) = events;
            *(info.add(28) as *mut i32) = status;
        }
        let Some(Obj::Afd(Some((port, key)))) = self.objs.get(&p.afd) else { return };
        let (port, key) = (*port, *key);
        if let Some(Obj::Port(q)) = self.objs.get_mut(&port) {
            q.push_back(Entry { key, ov: p.iosb });
        }
    }
    fn flush_cancelled(&mut self) {
        while let Some(p) = self.cancelled.pop_front() {
            self.complete(p, STATUS_CANCELLED, 0);
        }
    }
}

/// Cancelled operations complete now.
pub fn flush_cancelled() -> bool {
    let mut s = sim();
    let any = !s.cancelled.is_empty();
    s.flush_cancelled();
    any
}

// What the library calls.

pub unsafe extern "system" fn CloseHandle(h: HANDLE) -> BOOL {
    let mut s = sim();
    let h = h as usize;
    match s.objs.remove(&h) {
        Some(Obj::Afd(_)) => {
            s.polls.retain(|p| p.afd != h);
            s.cancelled.retain(|p| p.afd != h);
            1
        }
        Some(_) => 1,
        None => {
            s.broke("a handle that is not open is closed");
            fail(ERROR_INVALID_HANDLE)
        }
    }
}

pub unsafe extern "system" fn CreateIoCompletionPort(file: HANDLE, port: HANDLE, key: usize, _threads: u32) -> HANDLE {
    let mut s = sim();
    if s.refused() {
        fail(1450);
        return std::ptr::null_mut();
    }
    if file == INVALID_HANDLE_VALUE {
        s.ports += 1;
        return s.add(Obj::Port(VecDeque::new())) as HANDLE;
    }
    if !matches!(s.objs.get(&(port as usize)), Some(Obj::Port(_))) {
        fail(ERROR_INVALID_HANDLE);
        return std::ptr::null_mut();
    }
    match s.objs.get_mut(&(file as usize)) {
        Some(Obj::Afd(a)) if a.is_none() => {
            *a = Some((port as usize, key));
            port
        }
        Some(Obj::Afd(_)) => {
            fail(ERROR_INVALID_PARAMETER);
            std::ptr::null_mut()
        }
        _ => {
            fail(ERROR_INVALID_HANDLE);
            std::ptr::null_mut()
        }
    }
}

pub unsafe extern "system" fn SetFileCompletionNotificationModes(file: HANDLE, flags: u8) -> BOOL {
    let mut s = sim();
    if s.refused() {
        return fail(1450);
    }
    if flags & 1 != 0 {
        s.broke("completions that succeed at once would not be queued");
    }
    match s.objs.get(&(file as usize)) {
        Some(Obj::Afd(_)) => 1,
        _ => fail(ERROR_INVALID_HANDLE),
    }
}

pub unsafe extern "system" fn PostQueuedCompletionStatus(port: HANDLE, _bytes: u32, key: usize, ov: *const OVERLAPPED) -> BOOL {
    let mut s = sim();
    match s.objs.get_mut(&(port as usize)) {
        Some(Obj::Port(q)) => {
            q.push_back(Entry { key, ov: ov as usize });
            1
        }
        _ => fail(ERROR_INVALID_HANDLE),
    }
}

pub unsafe extern "system-unwind" fn GetQueuedCompletionStatusEx(
    port: HANDLE,
    out: *mut OVERLAPPED_ENTRY,
    count: u32,
    removed: *mut u32,
    ms: u32,
    _alertable: BOOL,
) -> BOOL {
    let port = port as usize;
    let end = {
        let mut s = sim();
        s.calls += 1;
        s.busy += 1;
        if s.busy > 300 {
            drop(s);
            panic!("the wait keeps the processor busy");
        }
        if let Some(e) = s.fail_wait.take() {
            return fail(e);
        }
        (ms != INFINITE).then(|| s.now + ms as u64 * 1_000_000)
    };
    if count == 0 {
        return fail(ERROR_INVALID_PARAMETER);
    }
    loop {
        {
            let mut s = sim();
            let now = s.now;
            let Some(Obj::Port(q)) = s.objs.get_mut(&port) else { return fail(ERROR_INVALID_HANDLE) };
            if !q.is_empty() {
                let n = q.len().min(count as usize);
                for (i, e) in q.drain(..n).enumerate() {
                    out.add(i).write(OVERLAPPED_ENTRY { lpCompletionKey: e.key, lpOverlapped: e.ov as _, Internal: 0, dwNumberOfBytesTransferred: 0 });
                }
                *removed = n as u32;
                return 1;
            }
            if end.map_or(false, |e| now >= e) {
                *removed = 0;
                return fail(WAIT_TIMEOUT);
            }
        }
        let mut h = HOOK.with(|c| c.borrow_mut().take()).expect("a wait nobody expects");
        let act = h(end);
        HOOK.with(|c| *c.borrow_mut() = Some(h));
        match (act, end) {
            (Act::Sleep, Some(e)) => {
                let mut s = sim();
                s.now = s.now.max(e);
            }
            (Act::Sleep, None) => panic!("a wait sleeps for ever"),
            _ => {}
        }
    }
}

pub unsafe extern "system" fn RegisterWaitForSingleObject(
    out: *mut HANDLE,
    obj: HANDLE,
    cb: WAITORTIMERCALLBACK,
    ctx: *const c_void,
    ms: u32,
    flags: u32,
) -> BOOL {
    let mut s = sim();
    if s.refused() {
        return fail(1450);
    }
    if flags & WT_EXECUTEONLYONCE == 0 || ms != INFINITE {
        s.broke("a wait that would call a callback that can be called once again");
    }
    let obj = obj as usize;
    let Some(Obj::Event { manual, on }) = s.objs.get_mut(&obj) else { return fail(ERROR_INVALID_HANDLE) };
    let fire = *on;
    if *on && !*manual {
        *on = false;
    }
    s.next += 4;
    let id = s.next;
    let state = if fire { St::Fired } else { St::Waiting };
    s.waits.insert(id, WaitReg { obj, cb: cb.unwrap(), ctx: ctx as usize, state });
    if fire {
        s.fired.push_back(id);
    }
    *out = id as HANDLE;
    1
}

pub unsafe extern "system" fn UnregisterWait(id: HANDLE) -> BOOL {
    let mut s = sim();
    match s.waits.get(&(id as usize)).map(|w| w.state) {
        // It is called nevertheless.
        Some(St::Fired) => fail(ERROR_IO_PENDING),
        Some(_) => {
            s.waits.remove(&(id as usize));
            1
        }
        None => {
            s.broke("a wait that is not registered is unregistered");
            fail(ERROR_INVALID_HANDLE)
        }
    }
}

pub unsafe extern "system" fn UnregisterWaitEx(id: HANDLE, _event: HANDLE) -> BOOL {
    UnregisterWait(id)
}

pub unsafe extern "system" fn WSAIoctl(
    s: usize,
    code: u32,
    _in: *const c_void,
    _nin: u32,
    out: *mut c_void,
    _nout: u32,
    bytes: *mut u32,
    _ov: *mut OVERLAPPED,
    _cb: Option<unsafe extern "system" fn()>,
) -> i32 {
    let g = sim();
    if !g.socks.contains_key(&(s as u64)) {
        fail(10038);
        return -1;
    }
    if code != 1207959586 {
        fail(10045);
        return -1;
    }
    *(out as *mut u64) = s as u64;
    *bytes = 8;
    0
}

pub unsafe extern "system" fn GetModuleHandleW(_n: *const u16) -> HMODULE {
    0x1000 as _
}

pub unsafe extern "system" fn GetProcAddress(_m: HMODULE, name: *const u8) -> FARPROC {
    let n = std::ffi::CStr::from_ptr(name as *const _).to_str().unwrap();
    let f: *const () = match n {
        "NtCancelIoFileEx" => NtCancelIoFileEx as *const (),
        "NtCreateFile" => NtCreateFile as *const (),
        "NtDeviceIoControlFile" => NtDeviceIoControlFile as *const (),
        "RtlNtStatusToDosError" => RtlNtStatusToDosError as *const (),
        _ => {
            fail(127);
            return None;
        }
    };
    Some(std::mem::transmute(f))
}

unsafe extern "system" fn RtlNtStatusToDosError(status: NTSTATUS) -> u32 {
    match status {
        STATUS_SUCCESS => 0,
        STATUS_PENDING => ERROR_IO_PENDING,
        STATUS_INVALID_HANDLE => ERROR_INVALID_HANDLE,
        STATUS_CANCELLED => 995,
        STATUS_NOT_FOUND => 1168,
        STATUS_INSUFFICIENT_RESOURCES => 1450,
        _ => 317,
    }
}

unsafe extern "system" fn NtCreateFile(
    out: *mut HANDLE,
    _access: u32,
    _attr: *mut c_void,
    _iosb: *mut IO_STATUS_BLOCK,
    _size: *mut i64,
    _fa: u32,
    _share: u32,
    _disp: u32,
    _opt: u32,
    _ea: *mut (),
    _ealen: u32,
) -> NTSTATUS {
    let mut s = sim();
    if s.refused() {
        return STATUS_INSUFFICIENT_RESOURCES;
    }
    *out = s.add(Obj::Afd(None)) as HANDLE;
    STATUS_SUCCESS
}

unsafe extern "system" fn NtDeviceIoControlFile(
    file: HANDLE,
    _event: HANDLE,
    _apc: *mut (),
    ctx: *mut (),
    iosb: *mut IO_STATUS_BLOCK,
    code: u32,
    input: *mut (),
    inlen: u32,
    output: *mut (),
    _outlen: u32,
) -> NTSTATUS {
    let mut s = sim();
    if code != 0x12024 || inlen != 32 || input != output || ctx as usize != iosb as usize {
        s.broke("not an AFD_POLL request");
    }
    if s.refused() {
        return STATUS_INSUFFICIENT_RESOURCES;
    }
    let i = iosb as usize;
    let queued = s.objs.values().any(|o| matches!(o, Obj::Port(q) if q.iter().any(|e| e.ov == i)));
    if queued || s.polls.iter().chain(s.cancelled.iter()).any(|p| p.iosb == i) {
        s.broke("a request is started whose status block is still in use by another");
    }
    match s.objs.get(&(file as usize)) {
        Some(Obj::Afd(Some(_))) => {}
        Some(Obj::Afd(None)) => s.broke("a request on a device that no port is attached to"),
        _ => return STATUS_INVALID_HANDLE,
    }
    let info = input as *const u8;
    let (n, sock, mask) = (*(info.add(8) as *const u32), *(info.add(16) as *const u64), *(info.add(24) as *const u32));
    if n != 1 {
        s.broke("a poll request for other than one socket");
    }
    let Some(cond) = s.socks.get(&sock).copied() else { return STATUS_INVALID_HANDLE };
    let p = Poll { afd: file as usize, iosb: i, info: input as usize, sock, mask };
    if cond & mask != 0 || *(info as *const i64) == 0 {
        s.complete(p, STATUS_SUCCESS, cond & mask);
    } else {
        s.polls.push(p);
    }
    STATUS_PENDING
}

unsafe extern "system" fn NtCancelIoFileEx(file: HANDLE, iosb: *mut IO_STATUS_BLOCK, _out: *mut IO_STATUS_BLOCK) -> NTSTATUS {
    let mut s = sim();
    let at = s.polls.iter().position(|p| p.afd == file as usize && p.iosb == iosb as usize);
    match at {
        Some(k) => {
            let p = s.polls.remove(k);
            s.cancelled.push_back(p);
            if !s.lazy_cancel {
                s.flush_cancelled();
            }
            STATUS_SUCCESS
        }
        None => STATUS_NOT_FOUND,
    }
}
