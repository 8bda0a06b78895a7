//! Cases: a list of operations, each four small numbers.
use std::time::Duration;

pub type Op = [u16; 4];

pub const POST: u16 = 0;
pub const REPOST: u16 = 1;
pub const WADD: u16 = 2;
pub const WMOD: u16 = 3;
pub const WDEL: u16 = 4;
pub const SET: u16 = 5;
pub const RESET: u16 = 6;
pub const CALLBACK: u16 = 7;
pub const SADD: u16 = 8;
pub const SMOD: u16 = 9;
pub const SDEL: u16 = 10;
pub const COND: u16 = 11;
pub const NOTIFY: u16 = 12;
pub const WAIT: u16 = 13;
pub const ADVANCE: u16 = 14;
pub const SWEEP: u16 = 15;
pub const WAIT2: u16 = 16;
pub const DROP: u16 = 17;
pub const MANY: u16 = 18;
pub const CROWD: u16 = 19;
pub const NAMES: [&str; 20] = [
    "post", "post again", "add_waitable", "modify_waitable", "remove_waitable", "set", "reset", "callbacks", "add", "modify", "delete", "condition",
    "notify", "wait", "advance", "sweep", "wait2", "drop", "many", "crowd",
];

/// Set in the code of an operation that happens while the wait before it is blocked.
pub const DURING: u16 = 64;
/// Such an operation is called before the wait and stopped where it is about to queue an update; it goes on when
/// the wait is blocked.
pub const OVERLAP: u16 = 128;

pub const EVENTS: usize = 4;
pub const SOCKETS: usize = 4;
/// With those that come in crowds.
pub const ALL: usize = 44;
pub const TIMEOUTS: [Option<Duration>; 10] = [
    Some(Duration::ZERO),
    Some(Duration::ZERO),
    Some(Duration::ZERO),
    Some(Duration::from_nanos(1)),
    Some(Duration::from_micros(1500)),
    Some(Duration::from_millis(50)),
    Some(Duration::from_secs(10)),
    Some(Duration::from_secs(3_000_000)),
    Some(Duration::MAX),
    None,
];
pub const CAPS: [usize; 8] = [1, 2, 3, 1024, 1024, 1024, 5, 1024];
pub const DELAYS: [u64; 8] = [0, 0, 1, 500_000, 1_000_000, 1_499_999, 10_000_000, 2_000_000_000];
pub const CONDS: [u32; 8] = [0, 1, 4, 5, 8, 0x10, 0x100, 0x80];

pub fn key(kind: usize, idx: usize) -> usize {
    match kind % 8 {
        0 | 5 => idx,
        1 => 1000 + idx,
        2 => usize::MAX - 1 - idx,
        3 => (1 << 63) + idx,
        4 => 0x1234_5678_0000_0000 + idx,
        6 => (1 << 32) - 16 + idx,
        _ => 0x7fff_ffff_ffff_ff00 + idx,
    }
}
