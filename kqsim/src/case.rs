//! Cases: a list of operations, each four small numbers.
use std::time::Duration;

pub type Op = [u16; 4];

pub const ADD: u16 = 0;
pub const MODIFY: u16 = 1;
pub const DELETE: u16 = 2;
pub const FEED: u16 = 3;
pub const DRAIN: u16 = 4;
pub const FILL: u16 = 5;
pub const UNFILL: u16 = 6;
pub const SHUT: u16 = 7;
pub const CLOSE: u16 = 8;
pub const RENEW: u16 = 9;
pub const NOTIFY: u16 = 10;
pub const WAIT: u16 = 11;
pub const FADD: u16 = 12;
pub const FMODIFY: u16 = 13;
pub const FDELETE: u16 = 14;
pub const SIGNAL: u16 = 15;
pub const PROCESS: u16 = 16;
pub const ADVANCE: u16 = 17;
pub const FAIL: u16 = 18;
pub const INTERRUPT: u16 = 19;
pub const WAIT2: u16 = 20;
pub const DROP: u16 = 21;
pub const SPAWN: u16 = 22;
pub const NAMES: [&str; 23] = [
    "add", "modify", "delete", "feed", "drain", "fill", "unfill", "shut", "close", "renew", "notify", "wait", "add_filter", "modify_filter",
    "delete_filter", "signal", "process", "advance", "fail", "interrupt", "wait2", "drop", "spawn",
];

/// Set in the code of an operation that happens while the wait before it is blocked.
pub const DURING: u16 = 64;

pub const SLOTS: usize = 4;
pub const FILTERS: usize = 6;
pub const TIMER_IDS: [usize; 2] = [0, 1 << 33];
pub const SIGNALS: [i32; 2] = [10, 12];
pub const PIDS: [i32; 2] = [1001, i32::MAX];
pub const PERIODS: [Duration; 6] = [
    Duration::from_nanos(1),
    Duration::from_millis(1),
    Duration::from_micros(1500),
    Duration::from_millis(10),
    Duration::from_nanos(1_000_000_001),
    Duration::from_secs(3600),
];
pub const TIMEOUTS: [Option<Duration>; 12] = [
    Some(Duration::ZERO),
    Some(Duration::ZERO),
    Some(Duration::ZERO),
    Some(Duration::from_nanos(1)),
    Some(Duration::from_nanos(999_999)),
    Some(Duration::from_millis(1)),
    Some(Duration::from_micros(1500)),
    Some(Duration::from_millis(50)),
    Some(Duration::from_secs(10)),
    Some(Duration::from_secs(3_000_000)),
    Some(Duration::MAX),
    None,
];
pub const CAPS: [usize; 8] = [1, 2, 3, 1024, 1024, 1024, 5, 1024];
pub const DELAYS: [u64; 8] = [0, 0, 1, 500_000, 1_000_000, 1_499_999, 10_000_000, 2_000_000_000];
pub const ERRNOS: [i32; 4] = [12, 28, 32, 2];

pub fn key(kind: usize, idx: usize) -> usize {
    match kind % 8 {
        0 | 5 => idx,
        1 => 1000 + idx,
        2 => usize::MAX - 1 - idx,
        3 => (1 << 63) + idx,
        4 => 0x1234_5678_0000_0000 + idx,
        6 => (1 << 32) - 8 + idx,
        _ => 0x7fff_ffff_ffff_ffc0 + idx,
    }
}
