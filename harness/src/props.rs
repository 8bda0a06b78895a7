//! Command line: runs the generated search for one property, or replays a saved case.

use crate::case::{self, Case};
use crate::gen::{self, CProf, Prof};
use crate::sched;
use crate::seq::{self, op, RunOut};
use proptest::strategy::{BoxedStrategy, Strategy, Union};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};

pub fn run_case(c: &Case, verbose: bool) -> RunOut {
    let seed = Case { cfg: c.cfg.clone(), ..Default::default() }.hash64();
    crate::interpose::HASH_SEED.store(seed, std::sync::atomic::Ordering::Relaxed);
    // In every other case descriptor 0 is free, so that a source or a part of the poller gets it.
    let len: usize = c.progs.iter().map(|p| p.len()).sum();
    let zero = if len % 2 == 0 { unsafe { libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY) } } else { -1 };
    let r = match c.engine {
        1 => crate::conc::run(c, verbose),
        2 => crate::special::run2(c, verbose),
        3 => crate::special::run3(c, verbose),
        4 => crate::crowd::run(c, verbose),
        5 => crate::real::run(c),
        _ => seq::run(c, verbose),
    };
    if zero >= 0 {
        unsafe { libc::close(zero) };
    }
    r
}

pub struct Prop {
    pub strat: BoxedStrategy<Case>,
    /// template groups of the exhaustive single-preemption sweep, and refused facilities
    pub sweep: Option<(Vec<&'static str>, Vec<u32>)>,
    /// other enumerated cases
    pub grid: Vec<Case>,
    /// A case is non-trivial if it has all labels of one of these groups.
    pub nontrivial: Vec<Vec<&'static str>>,
    /// compare the process's descriptors around every case
    pub fds: bool,
}

type W = [u32; op::N as usize];

fn w(l: &[(u32, u32)]) -> W {
    let mut w = [0; op::N as usize];
    for (k, n) in l {
        w[*k as usize] = *n;
    }
    w
}

/// The default weights with changes.
fn w_with(l: &[(u32, u32)]) -> W {
    let mut w = Prof::default().w;
    for (k, n) in l {
        w[*k as usize] = *n;
    }
    w
}

fn seqp(f: impl FnOnce(&mut Prof)) -> BoxedStrategy<Case> {
    let mut p = Prof::default();
    f(&mut p);
    gen::seq_case(&p)
}

fn concp(f: impl FnOnce(&mut CProf)) -> BoxedStrategy<Case> {
    let mut p = CProf::default();
    f(&mut p);
    gen::conc_case(&p)
}

pub fn prop(id: &str) -> Prop {
    use op::*;
    let mut parts: Vec<(u32, BoxedStrategy<Case>)> = vec![];
    let mut sweep = None;
    let mut grid = vec![];
    let tm = gen::tmpl_random;
    let no = |_: &mut Prof| {};
    let cno = |_: &mut CProf| {};
    let nontrivial: Vec<Vec<&'static str>>;
    match id {
        "C01" => {
            parts.push((5, seqp(no)));
            parts.push((2, seqp(|p| p.w = w_with(&[(MODIFY, 30), (DELETE, 15), (REOPEN, 5)]))));
            parts.push((3, concp(cno)));
            parts.push((2, tm(&["oneshot", "delete", "modify", "regops"], &[0])));
            parts.push((1, gen::crowd_case(7, (0..8).collect())));
            sweep = Some((vec!["delete", "modify"], vec![0]));
            nontrivial = vec![
                vec!["crowd-events-30"],
                vec!["wait-with-events", "delete"],
                vec!["wait-with-events", "modify"],
                vec!["wait-with-events", "timeout-elapsed"],
            ];
        }
        "C02" => {
            parts.push((5, seqp(|p| p.during = 45)));
            parts.push((2, seqp(|p| p.w = w_with(&[(REOPEN, 8), (DELETE, 14), (ADD, 24)]))));
            parts.push((1, seqp(|p| {
                p.w = w_with(&[(WAIT, 40), (IO, 40), (NOTIFY, 0), (SWEEP, 8)]);
                p.nsrc = (4, 12);
                p.len = (20, 80);
            })));
            parts.push((4, concp(cno)));
            parts.push((2, tm(&["regops", "oneshot", "modify", "delete", "small"], &[0])));
            parts.push((1, gen::crowd_case(7, (0..8).collect())));
            parts.push((1, gen::real_case(0..3)));
            sweep = Some((vec!["regops", "oneshot"], vec![0]));
            nontrivial = vec![vec!["woken-by-io"], vec!["sweep"], vec!["due-at-end"], vec!["woken-by-regop"], vec!["crowd-events-30"]];
        }
        "C03" => {
            parts.push((6, seqp(|p| {
                p.modes = [6, 4, 1, 0, 2];
                p.w = w_with(&[(MODIFY, 22)]);
            })));
            parts.push((2, seqp(|p| {
                p.modes = [6, 4, 0, 0, 0];
                p.actions = vec![0, 1, 6, 7, 7, 9, 9, 6];
                p.w = w_with(&[(WAIT, 36)]);
            })));
            parts.push((4, concp(|p| p.modes = vec![0, 0, 0, 0, 0, 4, 7])));
            parts.push((3, tm(&["oneshot", "regops", "small", "waiters"], &[0])));
            parts.push((1, gen::crowd_case(7, (0..8).collect())));
            parts.push((1, gen::real_case(0..3)));
            sweep = Some((vec!["oneshot", "small"], vec![0]));
            nontrivial = vec![
                vec!["crowd-events-30"],
                vec!["oneshot-event", "disarmed-ready-silent"],
                vec!["redelivered-after-modify"],
                vec!["wait-with-events", "preempted"],
            ];
        }
        "C04" => {
            parts.push((6, seqp(|p| p.modes = [2, 2, 10, 1, 1])));
            parts.push((2, seqp(|p| {
                p.modes = [1, 0, 10, 0, 0];
                p.w = w_with(&[(WAIT, 50), (IO, 40), (MODIFY, 5)]);
            })));
            parts.push((3, concp(|p| p.modes = vec![0, 4, 4, 4, 6])));
            parts.push((1, gen::crowd_case(7, (0..8).collect())));
            parts.push((1, gen::real_case(0..3)));
            sweep = Some((vec!["small"], vec![0]));
            nontrivial = vec![vec!["level-event"], vec!["mode-level", "mode-switch"], vec!["crowd-events-30"]];
        }
        "C05" => {
            parts.push((7, seqp(|p| {
                p.modes = [2, 1, 2, 8, 6];
                p.kinds = vec![0, 0, 1, 2, 3, 4, 5, 7, 8];
            })));
            parts.push((2, seqp(|p| {
                p.modes = [0, 0, 0, 6, 4];
                p.kinds = vec![0, 0, 1, 3, 4];
                p.w = w_with(&[(WAIT, 50), (IO, 40), (MODIFY, 6)]);
            })));
            parts.push((3, concp(|p| p.modes = vec![0, 4, 6, 6, 7, 7])));
            parts.push((1, tm(&["edge"], &[0])));
            parts.push((1, gen::crowd_case(7, (0..8).collect())));
            parts.push((1, gen::real_case(0..3)));
            sweep = Some((vec!["edge"], vec![0]));
            nontrivial = vec![
                vec!["crowd-events-30"],
                vec!["edge-event", "edge-silent"],
                vec!["edge-event", "mode-switch"],
                vec!["failed-unsupported"],
                vec!["wait-with-events", "preempted"],
            ];
        }
        "C06" => {
            parts.push((7, seqp(|p| {
                p.w = w_with(&[(MODIFY, 40), (WAIT, 36)]);
                p.recycled = 35;
                p.extra = 40;
            })));
            parts.push((3, concp(|p| p.actor = [1, 4, 4, 16, 2, 8, 3, 0, 1, 0])));
            parts.push((2, tm(&["modify", "oneshot"], &[0])));
            parts.push((1, gen::crowd_case(7, (0..8).collect())));
            parts.push((1, gen::real_case(0..3)));
            sweep = Some((vec!["modify"], vec![0]));
            nontrivial = vec![
                vec!["crowd-events", "modify"],
                vec!["modify", "wait-with-events", "mode-switch"],
                vec!["recycled-interest", "wait-with-events"],
                vec!["rearm", "wait-with-events"],
                vec!["modify", "preempted"],
            ];
        }
        "C07" => {
            parts.push((5, seqp(|p| {
                p.w = w_with(&[(BADKEY, 14), (MODIFY, 20), (DELETE, 16), (ADD, 20), (WAIT, 34)]);
                p.modes = [3, 1, 2, 3, 3];
                p.nsrc = (1, 3);
                p.refuse = 12;
            })));
            parts.push((4, concp(|p| {
                p.shared = 90;
                p.nsrc = (1, 2);
                p.modes = vec![0, 0, 4, 6, 7];
                p.teams = vec![(1, 2, 0), (0, 2, 0), (0, 3, 0), (1, 2, 1), (0, 4, 0)];
            })));
            parts.push((1, tm(&["regops", "delete"], &[0])));
            parts.push((1, gen::fault_case()));
            parts.push((1, gen::crowd_case(7, (0..8).collect())));
            sweep = Some((vec!["delete"], vec![0]));
            nontrivial = vec![
                vec!["crowd-events", "modify", "delete"],
                vec!["failed-regop", "wait-with-events"],
                vec!["failed-unsupported", "wait-with-events"],
                vec!["failed-delete", "wait-with-events"],
                vec!["racing-regops"],
                vec!["failed-add"],
                vec!["refused-regop", "wait-with-events"],
            ];
        }
        "C08" => {
            parts.push((7, seqp(|p| {
                p.w = w_with(&[(DELETE, 24), (ADD, 26), (REOPEN, 10), (SWEEP, 8), (WAIT, 34)]);
                p.nsrc = (2, 10);
                p.len = (5, 60);
            })));
            parts.push((1, seqp(|p| {
                p.w = w_with(&[(DELETE, 20), (ADD, 26), (REOPEN, 6), (SWEEP, 20), (IO, 6)]);
                p.nsrc = (6, 20);
                p.len = (30, 90);
                p.modes = [2, 1, 4, 0, 0];
            })));
            parts.push((3, concp(|p| {
                p.actor = [1, 3, 9, 5, 9, 8, 3, 0, 1, 0];
                p.nsrc = (2, 5);
            })));
            parts.push((2, tm(&["delete"], &[0])));
            parts.push((2, gen::crowd_case(7, (0..8).collect())));
            sweep = Some((vec!["delete"], vec![0]));
            nontrivial = vec![
                vec!["crowd-70", "delete", "crowd-events"],
                vec!["delete", "wait-with-events"],
                vec!["event-after-readd"],
                vec!["reopen", "wait-with-events"],
            ];
        }
        "C09" => {
            parts.push((3, seqp(|p| {
                p.w = w_with(&[(NOTIFY, 26), (WAIT2, 6), (EINTR, 5), (FAILWAIT, 4)]);
                p.during = 40;
            })));
            parts.push((5, concp(|p| {
                p.actor = [1, 18, 4, 5, 3, 4, 4, 0, 2, 0];
                p.waiter = [20, 3, 2, 2, 1, 1, 1, 2, 0, 0];
            })));
            parts.push((4, tm(&["notify", "waiters", "fail", "signal", "two", "regops"], &[0, 1, 2, 7])));
            parts.push((1, gen::real_case(0..3)));
            sweep = Some((vec!["notify", "waiters"], vec![0]));
            nontrivial = vec![vec!["really-woken", "ping"], vec!["notify-wakes-blocked"], vec!["notify-during-wait"], vec!["preempted", "notify"]];
        }
        "C10" => {
            parts.push((5, seqp(|p| {
                p.w = w_with(&[(NOTIFY, 30), (WAIT2, 3)]);
                p.during = 35;
                p.relays = 3;
            })));
            parts.push((4, concp(|p| {
                p.actor = [1, 16, 5, 6, 3, 8, 3, 0, 1, 0];
                p.waiter = [24, 4, 3, 3, 1, 2, 1, 1, 0, 0];
            })));
            parts.push((3, tm(&["notify", "waiters", "regops", "small"], &[0, 1, 2])));
            parts.push((1, gen::real_case(0..3)));
            sweep = Some((vec!["notify", "regops"], vec![0]));
            nontrivial = vec![vec!["really-woken", "ping"], vec!["notify-with-events"],
                vec!["ready-unreported-at-notify"],
                vec!["wait-ended-by-notify", "timeout-elapsed"],
                vec!["wait-ended-by-notify", "preempted"],
            ];
        }
        "C11" | "C12" => {
            let c11 = id == "C11";
            parts.push((6, seqp(|p| {
                p.w = w(&[(WAIT, 50), (ADD, 6), (MODIFY, 8), (DELETE, 4), (NOTIFY, 6), (IO, 8), (SLEEP, 4), (EINTR, 8), (WAIT2, 1), (FAILWAIT, 2), (NEWPOLLER, 1)]);
                p.len = (2, 25);
                p.stall = 30;
                p.nsrc = (1, 3);
                p.relays = 3;
                p.ticks = vec![0, 1, 2, 3, 4];
            })));
            if !c11 {
                parts.push((2, seqp(|p| {
                    p.w = w(&[(WAIT, 50), (EINTR, 6), (NOTIFY, 6), (ADD, 3), (IO, 6)]);
                    p.durs = vec![15, 16, 17, 18, 19, 20, 21, 22, 23, 0, 1, 5, 8];
                    p.len = (1, 12);
                })));
            } else {
                parts.push((2, seqp(|p| {
                    p.w = w(&[(WAIT, 50), (EINTR, 6), (NOTIFY, 2), (ADD, 8), (MODIFY, 8), (DELETE, 4)]);
                    p.during = 60;
                    p.len = (2, 16);
                })));
            }
            parts.push((3, concp(|p| {
                p.timeouts = vec![1, 2, 3, 3, 4, 5, 6];
                p.actor = [2, 3, 8, 9, 4, 4, 8, 0, 3, 0];
                p.ticks = vec![0, 1, 2, 3];
                p.stall = 30;
                p.eintr = 30;
            })));
            parts.push((2, tm(&["timing", "signal"], &[0, 2])));
            parts.push((1, gen::real_case(0..3)));
            sweep = Some((vec!["timing"], vec![0, 2]));
            grid = gen::timeout_grid();
            nontrivial = vec![
                vec!["timeout-elapsed", "interrupted-wait"],
                vec!["timeout-elapsed", "stalled-wait"],
                vec!["timeout-elapsed", "wait-with-regops"],
                vec!["timeout-elapsed", "wait-with-events"],
                vec!["timeout-elapsed", "wait-ended-by-notify"],
                vec!["timeout-elapsed", "preempted"],
            ];
        }
        "C13" => {
            parts.push((6, seqp(|p| {
                p.w = w_with(&[(EINTR, 30), (WAIT, 40), (NOTIFY, 8)]);
                p.during = 45;
            })));
            parts.push((5, concp(|p| {
                p.eintr = 100;
                p.actor = [1, 6, 6, 6, 3, 8, 5, 0, 10, 0];
            })));
            parts.push((2, tm(&["signal"], &[0, 1, 2])));
            parts.push((1, gen::real_case(0..3)));
            sweep = Some((vec!["signal"], vec![0, 2]));
            nontrivial = vec![vec!["real-signal"], vec!["interrupted-wait"], vec!["signal"]];
        }
        "C14" => {
            parts.push((4, seqp(|p| {
                p.w = w_with(&[(ADD, 26), (MODIFY, 28), (DELETE, 14), (WAIT, 24)]);
                p.during = 65;
            })));
            parts.push((5, concp(|p| p.actor = [0, 3, 12, 14, 9, 10, 3, 0, 1, 0])));
            parts.push((3, tm(&["regops", "delete", "modify", "oneshot"], &[0])));
            parts.push((1, gen::real_case(0..3)));
            sweep = Some((vec!["regops", "modify"], vec![0]));
            nontrivial = vec![vec!["op-while-blocked"], vec!["regop-during-wait"],
                vec!["delete-during-wait"],
                vec!["woken-by-regop"],
                vec!["event-of-reg-during-wait"],
            ];
        }
        "C15" => {
            parts.push((4, seqp(|p| {
                p.w = w_with(&[(WAIT2, 24), (NOTIFY, 10), (WAIT, 36)]);
                p.during = 40;
            })));
            parts.push((5, concp(|p| {
                p.teams = vec![(2, 1, 0), (2, 0, 0), (3, 0, 0), (2, 2, 0), (3, 1, 0), (1, 0, 1), (0, 1, 2)];
                p.timeouts = vec![0, 0, 1, 2, 3, 3, 4, 6];
            })));
            parts.push((3, tm(&["waiters"], &[0, 1, 2])));
            parts.push((1, gen::real_case(0..3)));
            sweep = Some((vec!["waiters"], vec![0]));
            nontrivial = vec![vec!["second-wait"], vec!["rejected-wait"], vec!["concurrent-waits", "preempted"]];
        }
        "C16" => {
            parts.push((7, seqp(|p| {
                p.caps = vec![1, 1, 2, 3, 4, 5, 6];
                p.nsrc = (3, 14);
                p.w = w_with(&[(SWEEP, 16), (ADD, 30), (IO, 36), (DELETE, 4), (NOTIFY, 10)]);
                p.len = (10, 70);
                p.actions = vec![0, 0, 0, 0, 0, 5, 1, 4, 6, 7];
            })));
            parts.push((2, concp(|p| {
                p.caps = vec![1, 1, 2, 3];
                p.nsrc = (2, 6);
            })));
            parts.push((2, tm(&["small"], &[0, 2])));
            parts.push((2, gen::crowd_case(7, vec![0, 0, 1, 2, 3, 4, 5, 6])));
            sweep = Some((vec!["small"], vec![0]));
            nontrivial = vec![vec!["truncated"], vec!["sweep-small-buffer"], vec!["wait-with-events", "preempted"], vec!["crowd-sweep-small"]];
        }
        "C17" => {
            parts.push((8, seqp(|p| {
                p.w = w_with(&[(CLEAR, 6), (WAIT, 44), (NOTIFY, 8), (WAIT2, 4), (FAILWAIT, 2)]);
                p.pollers = vec![0, 1, 2];
                p.caps = vec![0, 0, 1, 2, 3, 6];
            })));
            parts.push((2, concp(cno)));
            parts.push((1, gen::crowd_case(7, (0..8).collect())));
            sweep = Some((vec!["waiters"], vec![0]));
            nontrivial = vec![
                vec!["crowd-events-30"],
                vec!["uncleared-container", "wait-with-events"],
                vec!["wait-with-events", "timeout-elapsed"],
                vec!["wait-with-events", "wait-ended-by-notify"],
                vec!["wait-with-events", "rejected-wait"],
            ];
        }
        "C18" => {
            parts.push((6, gen::algebra_case()));
            parts.push((3, seqp(|p| {
                p.keys = 90;
                p.recycled = 30;
                p.extra = 60;
            })));
            nontrivial = vec![
                vec!["round-trip"],
                vec!["delivered-with-flags"],
                vec!["set-on-delivered"],
                vec!["clear-delivered"],
                vec!["set", "clear"],
                vec!["wait-with-events"],
            ];
        }
        "C19" => {
            parts.push((6, seqp(|p| {
                p.kinds = vec![0, 1, 2, 4, 6, 6, 6, 7, 8, 8];
                p.actions = vec![0, 0, 1, 2, 3, 5, 6, 6, 7, 7, 8, 8, 8, 9];
                p.extra = 60;
            })));
            parts.push((2, seqp(|p| {
                p.kinds = vec![6, 6, 8, 0];
                p.actions = vec![0, 1, 6, 7, 8, 8, 8, 9];
                p.extra = 90;
                p.recycled = 5;
            })));
            parts.push((1, concp(|p| p.extra = 60)));
            nontrivial = vec![vec!["event-hup"], vec!["event-err"], vec!["event-pri"]];
        }
        "C20" => {
            parts.push((7, seqp(|p| {
                p.pollers = vec![1, 2];
                p.nsrc = (1, 3);
                p.w = w_with(&[(NEST, 5), (NOTIFY, 12), (NEWPOLLER, 2)]);
                p.relays = 3;
            })));
            parts.push((1, seqp(|p| {
                p.pollers = vec![1, 2];
                p.nsrc = (1, 2);
                p.len = (1, 10);
                p.relays = 20;
            })));
            parts.push((3, concp(|p| p.np = vec![1])));
            parts.push((2, tm(&["two"], &[0, 1])));
            parts.push((2, gen::real_case(1..3)));
            sweep = Some((vec!["two"], vec![0]));
            nontrivial = vec![vec!["others-blocked"], vec!["event-shared-source"],
                vec!["nested-poller", "wait-with-events"],
                vec!["preempted", "wait-with-events"],
            ];
        }
        "C21" => {
            let d: Vec<u32> = (1..8).collect();
            let (d2, d3) = (d.clone(), d.clone());
            parts.push((5, seqp(move |p| {
                p.deny = d2;
                p.stall = 15;
                p.w = w_with(&[(NOTIFY, 14), (EINTR, 5), (WAIT, 36)]);
                p.relays = 3;
            })));
            parts.push((4, concp(move |p| p.deny = d3)));
            parts.push((2, tm(&["notify", "waiters", "timing", "fail"], &d)));
            parts.push((1, gen::fault_case()));
            parts.push((1, gen::real_case(0..3)));
            sweep = Some((vec!["notify"], vec![1, 2, 7]));
            grid = crate::special::fault_grid();
            grid.extend(gen::timeout_grid().into_iter().filter(|c| c.cfg[3] > 0));
            nontrivial = vec![
                vec!["degraded", "wait-with-events"],
                vec!["degraded", "wait-ended-by-notify"],
                vec!["degraded", "timeout-elapsed"],
                vec!["new-despite-fault"],
            ];
        }
        "C22" => {
            parts.push((5, gen::fault_case()));
            parts.push((4, seqp(|p| {
                p.w = w_with(&[(NEWPOLLER, 24), (NEST, 3), (FAILWAIT, 3)]);
                p.pollers = vec![0, 1, 2];
            })));
            parts.push((1, concp(cno)));
            grid = crate::special::fault_grid();
            nontrivial = vec![
                vec!["failed-new"],
                vec!["new-despite-fault"],
                vec!["new-poller"],
                vec!["drop-with-failures"],
                vec!["failed-add"],
            ];
        }
        "C23" => {
            parts.push((6, seqp(|p| {
                p.w = w_with(&[(BULK, 16), (NOTIFY, 16)]);
                p.len = (2, 14);
                p.deny = vec![0, 0, 1, 2, 3, 5];
            })));
            parts.push((2, seqp(|p| {
                p.w = w_with(&[(WAIT, 3), (NOTIFY, 30), (ADD, 25), (MODIFY, 25), (DELETE, 12), (BADKEY, 5)]);
                p.len = (20, 90);
                p.during = 0;
            })));
            parts.push((3, concp(|p| {
                p.actor = [0, 14, 8, 9, 6, 3, 1, 0, 0, 2];
                p.len = (3, 16);
            })));
            parts.push((1, concp(|p| {
                p.actor = [0, 2, 1, 1, 0, 1, 0, 0, 0, 10];
                p.teams = vec![(0, 2, 0), (0, 3, 0), (0, 4, 0), (1, 2, 0), (1, 3, 0)];
                p.len = (1, 3);
                p.nsrc = (4, 6);
                p.shared = 0;
                p.every = 85;
            })));
            grid = gen::bulk_grid();
            nontrivial = vec![vec!["bulk"], vec!["wait-ended-by-notify", "timeout-elapsed"], vec!["preempted", "notify"]];
        }
        "C24" => {
            parts.push((5, seqp(|p| {
                p.w = w_with(&[(FAILWAIT, 26), (NOTIFY, 12), (WAIT, 34)]);
            })));
            parts.push((4, concp(|p| {
                p.waiter = [16, 1, 3, 3, 1, 2, 1, 10, 0, 0];
                p.mixed = [6, 4, 4, 5, 2, 5, 1, 6, 1, 0];
            })));
            parts.push((3, tm(&["fail"], &[0, 1, 2])));
            sweep = Some((vec!["fail"], vec![0, 2]));
            nontrivial = vec![vec!["failed-wait"]];
        }
        "CONC" => {
            parts.push((1, concp(cno)));
            nontrivial = vec![vec!["wait-with-events"]];
        }
        "TMPL" => {
            parts.push((1, tm(&[], &[0, 1, 2, 7])));
            sweep = Some((vec![], vec![0, 1, 2]));
            nontrivial = vec![vec!["wait-with-events"]];
        }
        "CROWD" => {
            parts.push((1, gen::crowd_case(7, (0..8).collect())));
            nontrivial = vec![vec!["crowd-events"]];
        }
        "REAL" => {
            parts.push((1, gen::real_case(0..3)));
            nontrivial = vec![vec!["really-woken"]];
        }
        "ALL" => {
            parts.push((1, gen::crowd_case(5, (0..8).collect())));
            parts.push((2, gen::fault_case()));
            parts.push((2, gen::algebra_case()));
            parts.push((4, seqp(no)));
            parts.push((2, seqp(|p| p.w = w_with(&[(BULK, 3), (NEST, 4), (NEWPOLLER, 5), (WAIT2, 5), (EINTR, 8), (FAILWAIT, 5), (NOTIFY, 12)]))));
            parts.push((3, concp(cno)));
            grid = crate::special::fault_grid();
            grid.extend(gen::timeout_grid());
            nontrivial = vec![vec!["wait-with-events"]];
        }
        _ => {
            parts.push((1, seqp(no)));
            nontrivial = vec![vec!["wait-with-events"]];
        }
    }
    let fds = matches!(id, "C22" | "C23" | "ALL");
    Prop { strat: Union::new_weighted(parts).boxed(), sweep, grid, nontrivial, fds }
}

fn any(id: &str) -> bool {
    matches!(id, "ANY" | "CROWD" | "CONC" | "TMPL" | "REAL" | "ALL")
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c)
            }
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn viol_json(c: &Case, r: &RunOut) -> String {
    let v = r.viol.as_ref().unwrap();
    let log: Vec<String> = r.log.iter().map(|l| format!("\"{}\"", esc(l))).collect();
    format!(
        "{{\"tags\":[{}],\"msg\":\"{}\",\"case\":{},\"log\":[{}]}}",
        v.tags.iter().map(|t| format!("\"{t}\"")).collect::<Vec<_>>().join(","),
        esc(&v.msg),
        c.to_json(),
        log.join(",\n")
    )
}

pub fn main() {
    let sync = sched::find_sync_points();
    if std::env::var_os("POLLSIM_SWEEPS").is_some() {
        eprintln!("{sync} synchronization points");
    }
    std::panic::set_hook(Box::new(|i| {
        if !sched::on_sim() {
            eprintln!("INTERNAL: {i}");
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let num = |k: &str, d: u64| arg(&a, k).map_or(d, |v| v.parse().unwrap());
            run(&Opts {
                id: arg(&a, "--prop").unwrap(),
                seed: num("--seed", 1),
                shard: num("--shard", 0),
                shards: num("--shards", 1),
                cases: num("--cases", 1000) as u32,
                enumerated: num("--enum", 0),
                out: arg(&a, "--out").unwrap(),
                cur: arg(&a, "--cur"),
            });
        }
        Some("replay") => {
            // replay FILE [PROP]: exit 1 if the case violates (PROP or anything)
            let s = std::fs::read_to_string(&a[2]).unwrap();
            let j = case::parse(&s).expect("replay file");
            let c = case::from_json(j.get("case").unwrap_or(&j)).expect("case");
            unsafe { libc::close(0) };
            let f0 = crate::special::fds();
            let mut r = run_case(&c, true);
            if r.viol.is_none() && crate::special::fds() != f0 {
                r.viol = Some(sched::Viol { tags: vec!["C22", "C23"], msg: "the process's descriptors changed".into() });
            }
            for l in &r.log {
                println!("{l}");
            }
            println!("labels {:?}", r.labels);
            println!("outcome {:?}", r.outcome);
            if let Some(v) = &r.viol {
                println!("VIOLATES {:?}: {}", v.tags, v.msg);
                if cfg!(pollsim_other) || a.get(3).is_none_or(|p| v.tags.contains(&p.as_str())) {
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("usage: pollsim run|replay");
            std::process::exit(2);
        }
    }
}

#[derive(Default)]
struct Acc {
    evals: u64,
    enumerated: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    others: BTreeMap<String, u64>,
    other_ex: Vec<String>,
    known: u64,
    points: u64,
    switches: u64,
    failed: bool,
}

struct Opts {
    id: String,
    seed: u64,
    shard: u64,
    shards: u64,
    cases: u32,
    /// number of enumerated cases for this shard (all of them if large enough)
    enumerated: u64,
    out: String,
    cur: Option<String>,
}

struct Run {
    /// first failing case of the real-time engine, and what it showed
    first: RefCell<Option<(Case, RunOut)>>,
    prop: Prop,
    id: String,
    acc: RefCell<Acc>,
    cur: Option<std::fs::File>,
}

impl Run {
    fn relevant(&self, v: &sched::Viol) -> bool {
        v.tags.contains(&self.id.as_str()) || any(&self.id) || cfg!(pollsim_other)
    }

    /// Runs one case; true if it violates the property.
    fn case(&self, c: &Case, enumerated: bool) -> Option<String> {
        if let Some(f) = &self.cur {
            // So that the driver knows the case should the process die in it.
            use std::os::unix::fs::FileExt;
            let mut s = c.to_json();
            s.push('\n');
            let _ = f.write_all_at(s.as_bytes(), 0);
        }
        let f0 = if self.prop.fds { crate::special::fds() } else { vec![] };
        let mut r = run_case(c, false);
        if self.prop.fds && r.viol.is_none() {
            let f1 = crate::special::fds();
            if f1 != f0 {
                let left: Vec<_> = f1.iter().filter(|x| !f0.contains(x)).collect();
                let gone: Vec<_> = f0.iter().filter(|x| !f1.contains(x)).collect();
                r.viol = Some(sched::Viol {
                    tags: vec!["C22", "C23"],
                    msg: format!("the process's descriptors changed: left over {left:?}, missing {gone:?}"),
                });
            }
        }
        let mut a = self.acc.borrow_mut();
        if !a.failed {
            a.evals += 1;
            if enumerated {
                a.enumerated += 1;
            }
            a.points += r.outcome.points;
            a.switches += r.outcome.switches;
            for l in r.labels.keys() {
                *a.labels.entry(l.to_string()).or_insert(0) += 1;
            }
            if r.labels.contains_key("KNOWN") {
                a.known += 1;
            }
            if self.prop.nontrivial.iter().any(|g| g.iter().all(|l| r.labels.contains_key(l))) {
                let h = c.hash64();
                if a.distinct.insert(h) && a.samples.len() < 3 && a.distinct.len() % 97 == 3 {
                    let v = run_case(c, true);
                    let s = v.log.iter().take(40).cloned().collect::<Vec<_>>().join(" | ");
                    a.samples.push(format!("{{\"case\":{},\"history\":\"{}\"}}", c.to_json(), esc(&s)));
                }
            }
        }
        if let Some(v) = &r.viol {
            if v.tags.contains(&"INTERNAL") {
                eprintln!("INTERNAL: {} {}", v.msg, c.to_json());
                std::process::exit(7);
            }
            if self.relevant(v) {
                a.failed = true;
                let msg = v.msg.clone();
                if c.engine == 5 && self.first.borrow().is_none() {
                    *self.first.borrow_mut() = Some((c.clone(), r));
                }
                return Some(msg);
            }
            if !a.failed {
                *a.others.entry(format!("{:?}", v.tags)).or_insert(0) += 1;
                if a.other_ex.len() < 2 {
                    let e = format!("{{\"msg\":\"{}\",\"case\":{}}}", esc(&v.msg), c.to_json());
                    a.other_ex.push(e);
                }
            }
        }
        None
    }

    /// The enumerated cases of this shard.
    fn enumerated(&self, o: &Opts) -> (Vec<Case>, u64) {
        let mut all = self.prop.grid.clone();
        let (mut three, mut total) = (vec![], 0);
        if let Some((groups, deny)) = &self.prop.sweep {
            let deny: &[u32] = if seq::IS_POLL { &deny[..1] } else { deny };
            // Three preemptions only in deep runs.
            let (shard, shards) = (o.shard, o.shards);
            let mine = move |n: u64| n % shards == shard;
            let deep: Option<&dyn Fn(u64) -> bool> = if o.enumerated > 1_000_000 { Some(&mine) } else { None };
            let (one, two, t3, n3) = gen::sweep(groups, deny, |c| {
                let r = run_case(c, false);
                if r.viol.is_some() {
                    (0, 0)
                } else {
                    let n = |i: usize| crate::conc::PROG_POINTS[i].load(std::sync::atomic::Ordering::Relaxed);
                    (n(0), n(1))
                }
            }, deep);
            if std::env::var_os("POLLSIM_SWEEPS").is_some() {
                eprintln!("{} single, {} double, {n3} triple", one.len(), two.len());
            }
            all.extend(one);
            all.extend(two);
            three = t3;
            total = n3;
        }
        if matches!(self.id.as_str(), "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C10" | "C16" | "C17" | "ALL") {
            let (shard, shards) = (o.shard, o.shards);
            let (v, n) = gen::small_scope(if o.enumerated > 1_000_000 { 5 } else { 3 }, &|n| n % shards == shard);
            three.extend(v);
            total += n;
        }
        if matches!(self.id.as_str(), "C02" | "C03" | "C06" | "C08" | "C09" | "C10" | "C14" | "C15" | "C21" | "TMPL") {
            let (shard, shards) = (o.shard, o.shards);
            let (len, pairs) = if o.enumerated > 1_000_000 { (3, 2) } else { (2, 0) };
            let deny = if self.id == "C21" && !seq::IS_POLL { 3 } else { 0 };
            let points = |c: &Case| {
                if run_case(c, false).viol.is_some() {
                    0
                } else {
                    crate::conc::PROG_POINTS[1].load(std::sync::atomic::Ordering::Relaxed)
                }
            };
            let v = gen::small_programs(len, pairs, deny, points, &|n| n % shards == shard);
            // the others' shares are about as large
            total += v.len() as u64 * shards;
            three.extend(v);
        }
        total += all.len() as u64;
        // Every shard takes its share; if that is too much, an even sample of it.
        let mut mine: Vec<Case> = all.into_iter().enumerate().filter(|x| x.0 as u64 % o.shards == o.shard).map(|x| x.1).collect();
        mine.append(&mut three);
        let n = mine.len() as u64;
        if n <= o.enumerated {
            return (mine, total);
        }
        let off = o.seed.wrapping_mul(7919) % n;
        let v = (0..o.enumerated).map(|k| mine[((off + k * n / o.enumerated) % n) as usize].clone()).collect();
        (v, total)
    }
}

/// Greedy reduction of an enumerated failing case.
fn reduce(run: &Run, c: &Case) -> Case {
    let mut best = c.clone();
    for _ in 0..4 {
        let mut changed = false;
        let mut cands: Vec<Case> = vec![];
        for i in 0..best.faults.len() {
            let mut d = best.clone();
            d.faults.remove(i);
            cands.push(d);
        }
        for t in 0..best.progs.len() {
            for i in (0..best.progs[t].len()).rev() {
                let mut d = best.clone();
                d.progs[t].remove(i);
                cands.push(d);
            }
        }
        for d in cands {
            if d.progs.iter().map(|p| p.len()).sum::<usize>() + d.faults.len() < best.progs.iter().map(|p| p.len()).sum::<usize>() + best.faults.len()
                && run.case(&d, false).is_some()
            {
                best = d;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    best
}

/// Runs a failing case of the real-time engine again, with full patience: the reduced one, or else
/// the original.
fn confirm(run: &Run, c: &Case) -> Option<String> {
    let first = run.first.borrow_mut().take();
    let t0 = std::time::Instant::now();
    for (c, n) in [(c, 40), (first.as_ref().map_or(c, |f| &f.0), 80)] {
        for _ in 0..n {
            crate::real::be_patient();
            let r = run_case(c, true);
            if r.viol.as_ref().is_some_and(|v| run.relevant(v)) {
                return Some(viol_json(c, &r));
            }
            if t0.elapsed().as_secs() > 120 {
                return None;
            }
        }
    }
    None
}

fn run(o: &Opts) {
    let id = o.id.as_str();
    let mut sb = [0u8; 32];
    sb[..8].copy_from_slice(&o.seed.to_le_bytes());
    sb[8..16].copy_from_slice(&o.shard.to_le_bytes());
    for (i, b) in id.bytes().enumerate() {
        sb[16 + i] = b;
    }
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &sb);
    let cfg = Config {
        cases: o.cases,
        failure_persistence: None,
        max_shrink_iters: 4000,
        max_shrink_time: 25_000,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(cfg.clone(), rng);
    let t0 = crate::sys::real_ns();
    let run = Run {
        first: RefCell::new(None),
        prop: prop(id),
        id: id.into(),
        acc: RefCell::new(Acc::default()),
        cur: o.cur.as_ref().map(|p| std::fs::File::create(p).unwrap()),
    };
    // For run_case.
    unsafe { libc::close(0) };
    let mut failing: Option<Case> = None;
    let (en, en_total) = run.enumerated(o);
    for c in &en {
        if run.case(c, true).is_some() {
            failing = Some(reduce(&run, c));
            break;
        }
    }
    let mut viol = String::from("null");
    let mut round = 0;
    while failing.is_none() {
        let res = runner.run(&run.prop.strat, |c| match run.case(&c, false) {
            Some(m) => Err(TestCaseError::fail(m)),
            None => Ok(()),
        });
        match res {
            Ok(()) => break,
            Err(TestError::Fail(_, c)) if c.engine == 5 => match confirm(&run, &c) {
                Some(v) => {
                    viol = v;
                    break;
                }
                None if round < 3 => {
                    // Real time, and nothing that happens again: not reported. The search goes on.
                    eprintln!("UNCONFIRMED: {}", c.to_json());
                    run.acc.borrow_mut().failed = false;
                    *run.acc.borrow_mut().labels.entry("UNCONFIRMED".into()).or_insert(0) += 1;
                    round += 1;
                    sb[31] = round;
                    let left = (o.cases as u64).saturating_sub(run.acc.borrow().evals) as u32;
                    runner = TestRunner::new_with_rng(Config { cases: left, ..cfg.clone() }, TestRng::from_seed(RngAlgorithm::ChaCha, &sb));
                }
                None => break,
            },
            Err(TestError::Fail(_, c)) => failing = Some(c),
            Err(TestError::Abort(e)) => {
                eprintln!("INTERNAL: aborted: {e}");
                std::process::exit(9);
            }
        }
    }
    if let Some(c) = failing {
        let r = run_case(&c, true);
        match &r.viol {
            Some(v) if run.relevant(v) => viol = viol_json(&c, &r),
            _ if run.prop.fds => {
                let msg = run.case(&c, false).unwrap_or_default();
                if msg.is_empty() {
                    eprintln!("INTERNAL: shrunk failure does not reproduce: {}", c.to_json());
                    std::process::exit(8);
                }
                let r = RunOut { viol: Some(sched::Viol { tags: vec!["C22", "C23"], msg }), ..r };
                viol = viol_json(&c, &r);
            }
            _ => {
                eprintln!("INTERNAL: shrunk failure does not reproduce: {}", c.to_json());
                std::process::exit(8);
            }
        }
    }
    let cov: Vec<String> = sched::COV
        .iter()
        .enumerate()
        .filter(|c| c.1.load(std::sync::atomic::Ordering::Relaxed) != 0)
        .map(|c| c.0.to_string())
        .collect();
    let a = run.acc.into_inner();
    let js = format!(
        "{{\"prop\":\"{id}\",\"shard\":{},\"evaluations\":{},\"enumerated\":{},\"enumerable\":{en_total},\"distinct\":[{}],\"labels\":{{{}}},\"samples\":[{}],\"others\":{{{}}},\"other_examples\":[{}],\"known\":{},\"points\":{},\"switches\":{},\"guards\":{},\"covered\":[{}],\"nontrivial\":[{}],\"ns\":{},\"violation\":{}}}\n",
        o.shard,
        a.evals,
        a.enumerated,
        a.distinct.iter().map(|h| format!("\"{h:x}\"")).collect::<Vec<_>>().join(","),
        a.labels.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","),
        a.samples.join(","),
        a.others.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect::<Vec<_>>().join(","),
        a.other_ex.join(","),
        a.known,
        a.points,
        a.switches,
        sched::NGUARDS.load(std::sync::atomic::Ordering::Relaxed),
        cov.join(","),
        run.prop.nontrivial.iter().map(|g| format!("\"{}\"", g.join(" and "))).collect::<Vec<_>>().join(","),
        crate::sys::real_ns() - t0,
        viol
    );
    std::fs::write(&o.out, js).unwrap();
}
