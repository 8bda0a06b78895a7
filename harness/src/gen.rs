//! Generators (proptest strategies) for the cases of each property.

use crate::case::Case;
use crate::seq::op;
use proptest::prelude::*;
use proptest::strategy::Union;

#[derive(Clone, Debug)]
pub struct Prof {
    /// weights of the operation kinds
    pub w: [u32; op::N as usize],
    /// weights of oneshot(default), oneshot, level, edge, edge-oneshot
    pub modes: [u32; 5],
    pub kinds: Vec<u32>,
    pub nsrc: (usize, usize),
    pub len: (usize, usize),
    pub pollers: Vec<u32>,
    pub caps: Vec<u32>,
    pub ticks: Vec<u32>,
    pub deny: Vec<u32>,
    pub durs: Vec<u32>,
    /// weight of scenes, next to 20 for single operations
    pub scenes: u32,
    /// weight of series of waits
    pub relays: u32,
    /// percentage of operations that happen during the preceding wait
    pub during: u32,
    /// percentage of waits with an injected delay
    pub stall: u32,
    /// bits of interest: weights of (r/w only), with interrupt/priority, none
    pub extra: u32,
    pub recycled: u32,
    pub keys: u32,
    /// percentage of registrations the system refuses
    pub refuse: u32,
    pub actions: Vec<u32>,
}

pub const W_WAIT: usize = op::WAIT as usize;

impl Default for Prof {
    fn default() -> Self {
        let mut w = [0; op::N as usize];
        w[op::WAIT as usize] = 30;
        w[op::ADD as usize] = 14;
        w[op::MODIFY as usize] = 14;
        w[op::DELETE as usize] = 7;
        w[op::NOTIFY as usize] = 6;
        w[op::IO as usize] = 26;
        w[op::REOPEN as usize] = 2;
        w[op::SWEEP as usize] = 3;
        w[op::BADKEY as usize] = 1;
        w[op::SLEEP as usize] = 1;
        w[op::FAILWAIT as usize] = 1;
        w[op::NEWPOLLER as usize] = 1;
        w[op::EINTR as usize] = 2;
        w[op::WAIT2 as usize] = 1;
        w[op::NEST as usize] = 1;
        w[op::CLEAR as usize] = 1;
        Prof {
            w,
            modes: [4, 2, 3, 2, 2],
            kinds: vec![0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8],
            nsrc: (1, 4),
            len: (3, 40),
            pollers: vec![0, 0, 0, 1],
            caps: vec![0, 0, 0, 0, 1, 2, 4],
            ticks: vec![0, 0, 1, 2, 3],
            deny: vec![0, 0, 0, 1, 2, 3, 7],
            durs: vec![],
            scenes: 1,
            relays: 1,
            during: 25,
            stall: 8,
            extra: 25,
            recycled: 15,
            keys: 30,
            refuse: 2,
            actions: vec![0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9],
        }
    }
}

fn sel(v: &[u32]) -> BoxedStrategy<u32> {
    proptest::sample::select(v.to_vec()).boxed()
}

fn pct(p: u32) -> BoxedStrategy<bool> {
    proptest::bool::weighted(p.min(100) as f64 / 100.0).boxed()
}

/// Shape of an operation's last field: when (0 = not during a wait).
fn when(p: &Prof, force: bool) -> BoxedStrategy<u32> {
    let f = if force { 100 } else { p.during };
    // Often at the same instant as the one before.
    let at = Union::new_weighted(vec![(5, Just(1u32).boxed()), (7, (2u32..12).boxed())]);
    (pct(f), at).prop_map(|(d, k)| if d { k } else { 0 }).boxed()
}

pub fn op_strategy(p: &Prof) -> BoxedStrategy<[u32; 5]> {
    let modes: Vec<(u32, BoxedStrategy<u32>)> = p
        .modes
        .iter()
        .enumerate()
        .filter(|x| *x.1 > 0)
        .map(|(i, w)| (*w, Just([0u32, 1, 2, 3, 4][i]).boxed()))
        .collect();
    let mode = Union::new_weighted(modes);
    let (kp, ep, rp, refuse) = (p.keys, p.extra, p.recycled, p.refuse);
    let reuse = Union::new_weighted(vec![(6, Just(0u32)), (2, Just(4)), (1, Just(5)), (1, Just(6)), (1, Just(7))]);
    let mode = (mode, pct(kp), 2u32..9, 0u32..2, reuse).prop_map(|(m, k, pat, z, old)| {
        // 0 in `mode_of` is the default API; 1.. explicit modes
        m + 16 * (9 * old + if k { pat } else { z })
    });
    let int = (1u32..4, pct(ep), 0u32..16, 0u32..7, pct(rp), 0u32..64)
        .prop_map(|(rw, x, bits, how, rec, idx)| {
            let b = if x { bits } else { rw };
            if rec {
                b + 7 * 16 + idx * 128
            } else {
                b + how * 16
            }
        });
    let a_reg = (0u32..24, 0u32..3).prop_map(|(s, q)| s + 64 * q);
    let durs: BoxedStrategy<u32> = if p.durs.is_empty() {
        Union::new_weighted(vec![
            (4, Just(0u32).boxed()),
            (4, (1u32..15).boxed()),
            (1, Just(15u32).boxed()),
            (2, (15u32..24).boxed()),
            (4, (24u32..36).boxed()),
            (1, (36u32..36 + crate::seq::EDGES.len() as u32).boxed()),
        ])
        .boxed()
    } else {
        sel(&p.durs)
    };
    let stall = (pct(p.stall), 0u32..400, 0u32..6)
        .prop_map(|(s, g, z)| if s { 16 * (1 + g * 6 + z) } else { 0 });
    let actions = sel(&p.actions);
    let wa = (0u32..3, 0u32..3, 0u32..4).prop_map(|(p, c, cl)| p + 24 * cl + 8 * c);
    let mut v: Vec<(u32, BoxedStrategy<[u32; 5]>)> = vec![];
    for k in 0..op::N {
        let w = p.w[k as usize];
        if w == 0 {
            continue;
        }
        let s: BoxedStrategy<[u32; 5]> = match k {
            op::WAIT => (wa.clone(), durs.clone(), 0u32..4096, stall.clone())
                .prop_map(move |(a, b, c, d)| [k, a, b, c, d])
                .boxed(),
            op::FAILWAIT => (wa.clone(), durs.clone(), 0u32..64)
                .prop_map(move |(a, b, c)| [k, a, b, c, 0])
                .boxed(),
            op::ADD | op::MODIFY | op::DELETE => {
                (a_reg.clone(), int.clone(), mode.clone(), when(p, false), (0u32..100, 1u32..4))
                    .prop_map(move |(a, b, c, d, r)| [k, a, b, c + if r.0 < refuse { 4096 * r.1 } else { 0 }, d])
                    .boxed()
            }
            op::BADKEY => (a_reg.clone(), int.clone(), mode.clone(), 0u32..2)
                .prop_map(move |(a, b, c, d)| [k, a, b, c % 16 + 1024 * d, 0])
                .boxed(),
            op::NOTIFY => {
                (0u32..3, 0u32..3, when(p, false)).prop_map(move |(a, b, d)| [k, a, b, 0, d]).boxed()
            }
            op::IO => (0u32..24, actions.clone(), when(p, false))
                .prop_map(move |(a, b, d)| [k, a, b, 0, d])
                .boxed(),
            op::REOPEN => (0u32..24, sel(&p.kinds)).prop_map(move |(a, b)| [k, a, b, 0, 0]).boxed(),
            op::EINTR => (0u32..9, 0u32..4, Union::new_weighted(vec![(2, when(p, true)), (1, Just(0u32).boxed())])).prop_map(move |(a, b, d)| [k, a, b, 0, d]).boxed(),
            op::WAIT2 => (0u32..40, 0u32..4096, 0u32..2, when(p, true))
                .prop_map(move |(a, b, c, d)| [k, a, b, c, d])
                .boxed(),
            op::CLEAR => (wa.clone(), 0u32..3, 0u32..60).prop_map(move |(a, b, c)| [k, a, b, c, 0]).boxed(),
            op::BULK => (0u32..12, 0u32..8, 0u32..2000)
                .prop_map(move |(a, b, c)| [k, a, b, c, 0])
                .boxed(),
            _ => wa.clone().prop_map(move |a| [k, a, 0, 0, 0]).boxed(),
        };
        v.push((w, s));
    }
    Union::new_weighted(v).boxed()
}

/// A registered source without data, a wait blocked on it, what happens during that wait (mostly at
/// one instant), and another wait.
fn scene(p: &Prof) -> BoxedStrategy<Vec<[u32; 5]>> {
    let what = Union::new_weighted(vec![
        (6, Just(0u32)),
        (4, Just(1)),
        (2, Just(2)),
        (2, Just(3)),
        (1, Just(4)),
        (1, Just(5)),
        (1, Just(6)),
    ]);
    let at = Union::new_weighted(vec![(5, Just(1u32).boxed()), (3, (2u32..12).boxed())]);
    let reg = op_strategy(&Prof {
        w: {
            let mut w = [0; op::N as usize];
            w[op::ADD as usize] = 1;
            w[op::MODIFY as usize] = 1;
            w
        },
        during: 0,
        ..p.clone()
    });
    let during = proptest::collection::vec((what, at, 0u32..24, pct(75), reg.clone()), 1..5);
    let durs = proptest::sample::select(vec![15u32, 10, 12, 14, 9, 15]);
    let after = proptest::sample::select(vec![0u32, 7, 9, 10, 12, 15]);
    ((0u32..24, 0u32..2, reg), during, durs, after, (0u32..3, 0u32..4))
        .prop_map(|((s, q, r), during, dur, after, (c, cl))| {
            // Interested in reading, and neither in writing nor in what is always there.
            let int = 1 + r[2] / 16 * 16 % 112;
            let (a, wa) = (s + 64 * q, q + 8 * c + 24 * cl);
            let mut v = vec![
                [op::ADD, a, int, r[3], 0],
                [op::IO, s, 1, 0, 0],
                [op::WAIT, wa, 0, 0, 0],
                [op::MODIFY, a, int, r[3], 0],
                [op::WAIT, wa, dur, 0, 0],
            ];
            for (i, (k, t, s2, same, r2)) in during.into_iter().enumerate() {
                let t = if i == 0 && t == 1 { 5 } else { t };
                let s2 = if same { s } else { s2 };
                v.push(match k {
                    0 => [op::IO, s2, 0, 0, t],
                    1 => [op::NOTIFY, q, 0, 0, t],
                    2 => [op::MODIFY, s2 + 64 * q, r2[2], r2[3], t],
                    3 => [op::ADD, s2 + 64 * q, r2[2], r2[3], t],
                    4 => [op::DELETE, s2 + 64 * q, 0, 0, t],
                    5 => [op::EINTR, 0, 0, 0, t],
                    _ => [op::IO, s2, 7, 0, t],
                });
            }
            v.push([op::WAIT, wa, after, 0, 0]);
            v
        })
        .boxed()
}

/// Several waits on two pollers, with timeouts and without, ended in different ways.
fn relay() -> BoxedStrategy<Vec<[u32; 5]>> {
    let dur = proptest::sample::select(vec![0u32, 4, 6, 8, 9, 10, 12, 15, 15, 15]);
    let step = (0u32..2, dur, 0u32..5, 1u32..12, (0u32..3, 0u32..4));
    proptest::collection::vec(step, 2..7)
        .prop_map(|v| {
            let mut ops = vec![];
            for (q, dur, end, t, (c, cl)) in v {
                if end < 2 {
                    ops.push([op::NOTIFY, q, 0, 0, 0]);
                }
                ops.push([op::WAIT, q + 8 * c + 24 * cl, dur, 0, 0]);
                match end {
                    2 => ops.push([op::NOTIFY, q, 0, 0, t]),
                    3 => ops.push([op::EINTR, 0, 0, 0, t]),
                    _ => {}
                }
            }
            ops
        })
        .boxed()
}

pub fn seq_case(p: &Prof) -> BoxedStrategy<Case> {
    let cfg = (sel(&p.pollers), sel(&p.caps), sel(&p.ticks), sel(&p.deny));
    let kinds = proptest::collection::vec(sel(&p.kinds), p.nsrc.0..=p.nsrc.1);
    // Now and then a scene: a wait that is surely blocked until something happens.
    let chunk = Union::new_weighted(vec![
        (20, op_strategy(p).prop_map(|o| vec![o]).boxed()),
        (p.scenes, scene(p)),
        (p.relays, relay()),
    ]);
    let ops = proptest::collection::vec(chunk, p.len.0..=p.len.1).prop_map(|v| v.concat());
    (cfg, kinds, ops)
        .prop_map(|((a, b, c, d), k, ops)| {
            let mut cfg = vec![a, b, c, d];
            cfg.extend(k);
            Case { engine: 0, cfg, progs: vec![ops], sched: vec![], faults: vec![] }
        })
        .boxed()
}

/// Concurrency cases.
#[derive(Clone, Debug)]
pub struct CProf {
    /// weights of operations for waiting, acting and mixed threads
    pub waiter: [u32; 10],
    pub actor: [u32; 10],
    pub mixed: [u32; 10],
    /// (waiters, actors, mixed) choices
    pub teams: Vec<(u32, u32, u32)>,
    pub len: (usize, usize),
    pub timeouts: Vec<u32>,
    pub modes: Vec<u32>,
    pub np: Vec<u32>,
    pub caps: Vec<u32>,
    pub ticks: Vec<u32>,
    pub deny: Vec<u32>,
    pub shared: u32,
    pub kinds: Vec<u32>,
    pub nsrc: (usize, usize),
    pub preempt: (usize, usize),
    pub eintr: u32,
    pub spurious: u32,
    pub stall: u32,
    pub extra: u32,
    /// preempt again and again
    pub every: u32,
}

impl Default for CProf {
    fn default() -> Self {
        CProf {
            //       wait notify add mod del io sleep failwait intr churn
            waiter: [20, 1, 2, 3, 1, 1, 1, 1, 0, 0],
            actor: [1, 8, 7, 9, 4, 8, 3, 0, 1, 0],
            mixed: [6, 4, 4, 5, 2, 5, 1, 1, 1, 0],
            teams: vec![(1, 1, 0), (1, 1, 0), (1, 2, 0), (1, 2, 0), (2, 1, 0), (1, 1, 1), (2, 2, 0), (0, 1, 2), (1, 3, 0)],
            len: (1, 7),
            timeouts: vec![0, 0, 0, 1, 2, 3, 4, 5, 6],
            modes: vec![0, 0, 0, 4, 4, 6, 7],
            np: vec![0, 0, 0, 0, 0, 1],
            caps: vec![0, 0, 0, 1, 2],
            ticks: vec![0, 0, 0, 1, 3],
            deny: vec![0, 0, 0, 0, 1, 2, 3, 7],
            shared: 25,
            kinds: vec![0, 0, 0, 1, 2, 3, 4],
            nsrc: (1, 4),
            preempt: (0, 10),
            eintr: 15,
            spurious: 10,
            stall: 8,
            extra: 15,
            every: 10,
        }
    }
}

pub fn gap() -> BoxedStrategy<u32> {
    Union::new_weighted(vec![
        (3, (0u32..40).boxed()),
        (4, (0u32..250).boxed()),
        (3, (0u32..900).boxed()),
        (1, (0u32..4000).boxed()),
    ])
    .boxed()
}

/// Preemptions; true: gaps count synchronization operations only.
pub fn sched(min: usize, max: usize, choices: u32) -> BoxedStrategy<(bool, Vec<[u32; 2]>)> {
    let fine = proptest::collection::vec((gap(), 0..choices), min..=max).prop_map(|v| (false, v));
    let near = Union::new_weighted(vec![(3, (0u32..6).boxed()), (3, (0u32..30).boxed()), (2, (0u32..100).boxed())]);
    let coarse = proptest::collection::vec((near, 0..choices), min..=max * 2).prop_map(|v| (true, v));
    Union::new_weighted(vec![(1, fine.boxed()), (1, coarse.boxed())])
        .prop_map(|(c, v)| (c, v.iter().map(|x: &(u32, u32)| [x.0, x.1]).collect()))
        .boxed()
}

fn conc_ops(p: &CProf, w: &[u32; 10]) -> BoxedStrategy<Vec<[u32; 5]>> {
    let mut v: Vec<(u32, BoxedStrategy<[u32; 5]>)> = vec![];
    let a = (0u32..8, 0u32..2).prop_map(|(s, q)| s + 64 * q);
    let ep = p.extra;
    // Mostly for reading: what is writable does not block a wait.
    let rw = proptest::sample::select(vec![1u32, 1, 1, 1, 3, 2]);
    let int = (rw, pct(ep), 1u32..16).prop_map(|(rw, x, bits)| if x { bits } else { rw });
    for (k, wt) in w.iter().enumerate() {
        if *wt == 0 {
            continue;
        }
        let kk = k as u32;
        let s: BoxedStrategy<[u32; 5]> = match k {
            0 | 7 => (a.clone(), sel(&p.timeouts), 0u32..4).prop_map(move |(a, b, c)| [kk, a, b, c, 0]).boxed(),
            9 => (a.clone(), 0u32..40, 0u32..30).prop_map(move |(a, b, c)| [kk, a, b, c, 0]).boxed(),
            2 | 3 => (a.clone(), int.clone(), sel(&p.modes), pct(30))
                .prop_map(move |(a, b, c, same)| [kk, a, b, c + 8 * same as u32, 0])
                .boxed(),
            5 => (a.clone(), proptest::sample::select(vec![0u32, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8]))
                .prop_map(move |(a, b)| [kk, a, b, 0, 0])
                .boxed(),
            _ => a.clone().prop_map(move |a| [kk, a, 0, 0, 0]).boxed(),
        };
        v.push((*wt, s));
    }
    proptest::collection::vec(Union::new_weighted(v), p.len.0..=p.len.1).boxed()
}

pub fn conc_case(p: &CProf) -> BoxedStrategy<Case> {
    let (w, a, m) = (conc_ops(p, &p.waiter), conc_ops(p, &p.actor), conc_ops(p, &p.mixed));
    let progs = proptest::sample::select(p.teams.clone()).prop_flat_map(move |(nw, na, nm)| {
        let mut v: Vec<BoxedStrategy<Vec<[u32; 5]>>> = vec![];
        for _ in 0..nw {
            v.push(w.clone());
        }
        for _ in 0..nm {
            v.push(m.clone());
        }
        for _ in 0..na {
            v.push(a.clone());
        }
        v
    });
    let cfg = (sel(&p.np), sel(&p.caps), sel(&p.ticks), sel(&p.deny), pct(p.shared));
    let kinds = proptest::collection::vec(sel(&p.kinds), p.nsrc.0..=p.nsrc.1);
    let sched = sched(p.preempt.0, p.preempt.1, 6);
    let eintr = (pct(p.eintr), proptest::collection::vec((0u32..6, 0u32..5), 1..4));
    let spur = (pct(p.spurious), proptest::collection::vec(0u32..5, 1..3));
    let stall = (pct(p.stall), proptest::collection::vec((gap(), 0u32..6), 1..3));
    let every = (pct(p.every), proptest::sample::select(vec![0u32, 1, 2, 3, 5, 8, 13, 40, 150]));
    // Often the first thread begins with a wait that I/O of the last thread is to end.
    let scene = (pct(50), 0u32..8, sel(&p.modes), 0u32..8, proptest::sample::select(vec![0u32, 0, 5, 4]));
    (cfg, kinds, progs, sched, eintr, spur, (stall, every), scene)
        .prop_map(|(c, k, mut progs, s, e, sp, (st, ey), sc)| {
            if sc.0 {
                let n = progs.len();
                progs[0].splice(0..0, [[2, sc.1, 1, sc.2, 0], [0, 0, sc.4, 0, 0]]);
                let l = &mut progs[n - 1];
                let at = if n == 1 { l.len() } else { sc.3 as usize % (l.len() + 1) };
                l.insert(at, [5, sc.1, 0, 0, 0]);
            }
            let mut cfg = vec![c.0, c.1, c.2, c.3, c.4 as u32];
            cfg.extend(k);
            let mut faults = vec![];
            if s.0 {
                faults.push([3, 0, 0]);
            }
            if ey.0 {
                faults.push([4, ey.1, 0]);
            }
            if e.0 {
                faults.extend(e.1.iter().map(|x| [0, x.0, x.1]));
            }
            if sp.0 {
                faults.extend(sp.1.iter().map(|x| [1, *x, 0]));
            }
            if st.0 {
                faults.extend(st.1.iter().map(|x| [2, x.0, x.1]));
            }
            Case { engine: 1, cfg, progs, sched: s.1, faults }
        })
        .boxed()
}

// ---------------------------------------------------------------------------------------------
// Templates: short concurrent programs whose every preemption point is tried.

/// Threads are separated by `|`. wT wait with timeout T, n notify, aSIM / mSIM add / modify source
/// S with interest I in mode M, dS delete, iSA action A on source S, sD sleep, fTE failing wait,
/// xT signal to thread T; a trailing ' means the second poller.
pub fn template(t: &str) -> Vec<Vec<[u32; 5]>> {
    let dg = |c: &[u8], i: usize| -> u32 {
        match c.get(i) {
            Some(c) if c.is_ascii_digit() => (c - b'0') as u32,
            Some(c) if c.is_ascii_lowercase() => (c - b'a') as u32 + 10,
            _ => 0,
        }
    };
    t.split('|')
        .map(|p| {
            p.split_whitespace()
                .map(|o| {
                    let c = o.as_bytes();
                    let q = if o.ends_with('\'') { 64 } else { 0 };
                    match c[0] {
                        b'w' => [0, q, dg(c, 1), 0, 0],
                        b'n' => [1, q, 0, 0, 0],
                        b'a' => [2, q + dg(c, 1), dg(c, 2), dg(c, 3), 0],
                        b'm' => [3, q + dg(c, 1), dg(c, 2), dg(c, 3), 0],
                        b'd' => [4, q + dg(c, 1), 0, 0, 0],
                        b'i' => [5, dg(c, 1), dg(c, 2), 0, 0],
                        b's' => [6, dg(c, 1), 0, 0, 0],
                        b'f' => [7, q, dg(c, 1), dg(c, 2), 0],
                        _ => [8, dg(c, 1), 0, 0, 0],
                    }
                })
                .collect()
        })
        .collect()
}

/// (name of the group, program, number of pollers - 1, capacity index). Sources: 0 and 1 pipes,
/// 2 a socket, 3 an eventfd.
pub const TEMPLATES: &[(&str, &str, u32, u32)] = &[
    ("notify", "w0 | n", 0, 0),
    ("notify", "w0 w0 | n n", 0, 0),
    ("notify", "w0 w4 | n | n", 0, 0),
    ("notify", "n w6 w3 | w6 n", 0, 0),
    ("notify", "w3 w3 w3 | s2 n s2 n", 0, 0),
    ("notify", "w0 w4 | n a010 n i00", 0, 0),
    ("notify", "a010 w0 w1 w1 | n i00", 0, 1),
    ("notify", "a010 i00 w0 w1 | n", 0, 0),
    ("notify", "a010 w0 w4 | i00 n", 0, 0),
    ("notify", "a014 w0 w3 m010 w4 w4 | n i00", 0, 0),
    ("notify", "a010 w6 w4 | n n i00 | a110 i10", 0, 0),
    ("regops", "w0 w1 | a010 i00", 0, 0),
    ("regops", "w0 w1 | i00 a010", 0, 0),
    ("regops", "a010 w0 w1 | i00", 0, 0),
    ("oneshot", "a010 w0 w4 | i00 m010", 0, 0),
    ("oneshot", "a010 i00 w1 w1 | m010 m010", 0, 0),
    ("oneshot", "a014 i00 w1 w1 w1 | m010", 0, 0),
    ("oneshot", "a110 i10 a010 i00 w1 m010 w1 | m110", 0, 0),
    ("delete", "a010 i00 w4 w1 | d0", 0, 0),
    ("delete", "a010 w4 | d0 a010 i00", 0, 0),
    ("delete", "a010 a110 a230 i00 i10 w1 w1 | d0 d1", 0, 0),
    ("delete", "a010 a110 w4 w1 | d0 i10 a010", 0, 0),
    ("delete", "a010 w1 | d0 | d0", 0, 0),
    ("modify", "a010 i00 w4 w4 | m010 n", 0, 0),
    ("modify", "a010 w4 w1 | m014 i00 m010", 0, 0),
    ("modify", "a230 w4 w4 | m210 i20 m220", 0, 0),
    ("modify", "a010 w0 | m010 | i00", 0, 0),
    ("regops", "w0 w1 | a010 i00 | a110 i10", 0, 0),
    ("regops", "w0 w1 | a010 | a010 | i00", 0, 0),
    ("regops", "w4 w4 | a010 m010 d0 | a110 d1 a110", 0, 0),
    ("regops", "w0 | a010 n | a110 d1", 0, 0),
    ("waiters", "w0 | w0 | n n", 0, 0),
    ("waiters", "w4 w4 | w4 w1 | n", 0, 0),
    ("waiters", "a010 w6 w1 | w6 w1 | i00 n", 0, 0),
    ("waiters", "w6 | w0 w0 | a010 i00 n", 0, 0),
    ("waiters", "a010 w3 w3 | w3 m010 w3 | i00", 0, 0),
    ("waiters", "w3 | w3 w1 | w1 w3", 0, 0),
    ("fail", "f61 w0 | n", 0, 0),
    ("fail", "a010 f60 w0 w1 | i00", 0, 0),
    ("fail", "a010 f00 w4 | n i00", 0, 0),
    ("fail", "f02 w4 | w4 w1 | n", 0, 0),
    ("fail", "f03 w3 | a010 m010 i00", 0, 0),
    ("signal", "w0 | x0 n", 0, 0),
    ("signal", "a010 w0 w1 | x0 x0 i00", 0, 0),
    ("signal", "w5 w3 | x0 s1 x0 s2 x0", 0, 0),
    ("signal", "w5 w1 | x0 a010 x0 i00", 0, 0),
    ("timing", "w3 w4 | a010 s1 m010 d0", 0, 0),
    ("timing", "w3 w4 | s2 i00 a010", 0, 0),
    ("timing", "w3 w1 | w3 w1 | s1", 0, 0),
    ("timing", "w4 w4 | s2 n", 0, 0),
    ("small", "a010 a110 a310 i00 i10 i30 w1 w1 w1 | n", 0, 1),
    ("small", "a014 a114 i00 i10 w1 w1 w1 | m010 n", 0, 1),
    ("small", "a010 a110 w0 w1 w1 | i00 i10 n", 0, 1),
    ("edge", "a016 w0 w4 | i00 i01 i00", 0, 0),
    ("edge", "a017 w0 w4 | i00 m017 i00", 0, 0),
    ("two", "a010 w4 w1 | a010' w4' w1' | i00", 1, 0),
    ("two", "w4 | w4' | n n'", 1, 0),
    ("two", "a010 a010' i00 w1 w1' | d0 m010'", 1, 0),
];

fn tmpl_case(i: usize, deny: u32, tick: u32, sched: Vec<[u32; 2]>) -> Case {
    let t = TEMPLATES[i];
    Case {
        engine: 1,
        cfg: vec![t.2, t.3, tick, deny, 1, 1, 1, 0, 3],
        progs: template(t.1),
        sched,
        faults: vec![],
    }
}

pub fn tmpl_ids(groups: &[&str]) -> Vec<usize> {
    (0..TEMPLATES.len()).filter(|i| groups.is_empty() || groups.contains(&TEMPLATES[*i].0)).collect()
}

/// Every single preemption of every template of the groups (at basic blocks), and every pair of
/// preemptions at synchronization operations of the two-threaded ones; `len` gives the number of
/// both kinds of points of the undisturbed run of a template.
///
/// With `mine`, also the three preemptions at synchronization operations of programs of two
/// threads, as far as `mine` accepts their number.
pub fn sweep(
    groups: &[&str],
    deny: &[u32],
    mut len: impl FnMut(&Case) -> (u64, u64),
    mine: Option<&dyn Fn(u64) -> bool>,
) -> (Vec<Case>, Vec<Case>, Vec<Case>, u64) {
    let (mut v, mut v2, mut v3) = (vec![], vec![], vec![]);
    let mut n3 = 0;
    for i in tmpl_ids(groups) {
        for d in deny {
            let base = tmpl_case(i, *d, 0, vec![]);
            let (n, m) = len(&base);
            let nt = base.progs.len() as u32;
            v.push(base);
            for g in 0..n as u32 {
                for c in 0..nt - 1 {
                    v.push(tmpl_case(i, *d, 0, vec![[g, c]]));
                }
            }
            for g in 0..m as u32 {
                for g2 in 0..m as u32 - g {
                    for c in 0..(nt - 1) * (nt - 1) {
                        let mut x = tmpl_case(i, *d, 0, vec![[g, c % (nt - 1)], [g2, c / (nt - 1)]]);
                        x.faults.push([3, 0, 0]);
                        v2.push(x);
                    }
                }
            }
            if let (Some(mine), 2) = (mine, nt) {
                for g in 0..m as u32 {
                    for g2 in 0..m as u32 - g {
                        for g3 in 0..m as u32 - g - g2 {
                            n3 += 1;
                            if mine(n3) {
                                let mut x = tmpl_case(i, *d, 0, vec![[g, 0], [g2, 0], [g3, 0]]);
                                x.faults.push([3, 0, 0]);
                                v3.push(x);
                            }
                        }
                    }
                }
            }
        }
    }
    (v, v2, v3, n3)
}

/// Templates under several random preemptions.
pub fn tmpl_random(groups: &[&str], deny: &[u32]) -> BoxedStrategy<Case> {
    let ids = tmpl_ids(groups);
    (
        proptest::sample::select(ids),
        sel(deny),
        proptest::sample::select(vec![0u32, 0, 1, 3]),
        sched(1, 5, 4),
        pct(20),
        proptest::collection::vec(0u32..5, 1..3),
        pct(15),
        proptest::collection::vec((0u32..6, 0u32..5), 1..4),
    )
        .prop_map(|(i, d, t, s, sp, spv, e, ev)| {
            let mut c = tmpl_case(i, d, t, s.1);
            if s.0 {
                c.faults.push([3, 0, 0]);
            }
            if sp {
                c.faults.extend(spv.iter().map(|x| [1, *x, 0]));
            }
            if e {
                c.faults.extend(ev.iter().map(|x| [0, x.0, x.1]));
            }
            c
        })
        .boxed()
}

pub fn algebra_case() -> BoxedStrategy<Case> {
    use crate::special::eop;
    let o = Union::new_weighted(vec![
        (5, Just(eop::NEW)),
        (4, Just(eop::SET_INT)),
        (4, Just(eop::SET_PRI)),
        (2, Just(eop::WITH_INT)),
        (2, Just(eop::WITH_PRI)),
        (2, Just(eop::CLEAR)),
        (2, Just(eop::NO_EXTRA)),
        (1, Just(eop::COPY)),
        (3, Just(eop::DELIVER)),
        (2, Just(eop::TOGGLE)),
        (2, Just(eop::FIELDS)),
        (2, Just(eop::TRIP)),
        (1, Just(eop::BADKEY)),
    ]);
    let op = (o, 0u32..64, 0u32..64, any::<u32>(), any::<u32>()).prop_map(|(k, a, b, c, d)| [k, a, b, c, d]);
    proptest::collection::vec(op, 1..30)
        .prop_map(|ops| Case { engine: 2, cfg: vec![], progs: vec![ops], sched: vec![], faults: vec![] })
        .boxed()
}

pub fn fault_case() -> BoxedStrategy<Case> {
    let f = (0u32..3, 0u32..14, 0u32..6).prop_map(|(a, b, c)| [a, b, c]);
    (0u32..8, 0u32..9, 0u32..2, 0u32..3, proptest::collection::vec(f, 0..5))
        .prop_map(|(d, k, keep, r, faults)| Case { engine: 3, cfg: vec![d, k, keep, r], progs: vec![], sched: vec![], faults })
        .boxed()
}

/// Many sources; `size` is the largest index into the table of sizes.
pub fn crowd_case(size: usize, caps: Vec<u32>) -> BoxedStrategy<Case> {
    use crate::crowd::cop;
    let o = Union::new_weighted(vec![
        (8, Just(cop::ADD)),
        (6, Just(cop::MODIFY)),
        (5, Just(cop::DELETE)),
        (7, Just(cop::STATE)),
        (2, Just(cop::REOPEN)),
        (9, Just(cop::WAIT)),
        (5, Just(cop::SWEEP)),
        (2, Just(cop::NOTIFY)),
    ]);
    let op = (o, 0u32..1100, 0u32..8, 0u32..32, 0u32..128).prop_map(|(k, a, b, c, d)| [k, a, b, c, d]);
    // Large ones are slow and rare.
    let weights = [6u32, 8, 10, 10, 8, 3, 1, 1];
    let sizes = Union::new_weighted((0..=size).map(|i| (weights[i], Just(i as u32))).collect::<Vec<_>>());
    (sizes, sel(&caps), 0u32..2)
        .prop_flat_map(move |(n, c, h)| {
            let len = if n > 4 { 2..12usize } else { 2..30 };
            // Starts with registrations.
            (proptest::collection::vec(op.clone(), len), 0u32..128, 0u32..128, 0u32..1100).prop_map(move |(mut ops, i, s, a)| {
                ops.insert(0, [cop::ADD, a, i, 0, i]);
                ops.insert(1, [cop::STATE, a, s, 0, s]);
                Case { engine: 4, cfg: vec![n, c, h], progs: vec![ops], sched: vec![], faults: vec![] }
            })
        })
        .boxed()
}

/// Waits that really block.
pub fn real_case(np: std::ops::Range<u32>) -> BoxedStrategy<Case> {
    use crate::real::rop;
    let o = Union::new_weighted(vec![
        (12, Just(rop::START)),
        (8, Just(rop::STATE)),
        (6, Just(rop::ADD)),
        (4, Just(rop::MODIFY)),
        (2, Just(rop::DELETE)),
        (5, Just(rop::NOTIFY)),
        (2, Just(rop::SIGNAL)),
        (1, Just(rop::PING)),
        (2, Just(rop::SECOND)),
    ]);
    // Mostly readable interest: eventfds are nearly always writable.
    let interest = sel(&[1, 1, 1, 1, 1, 2, 3, 0]);
    let op = (o, (0u32..4, 0u32..10, interest), 0u32..12, 0u32..5).prop_map(|(k, (a, b, interest), race, mode)| match k {
        rop::START | rop::PING => [k, a, b, race, 0],
        rop::STATE => [k, a, [1, 1, 1, 0, 0, 2][b as usize % 6], 0, 0],
        rop::ADD | rop::MODIFY | rop::DELETE => [k, a, b % 4, interest, mode],
        _ => [k, a, b, 0, 0],
    });
    // Half of the cases begin with one source in several pollers that are all being waited on.
    let shared = (0u32..2, 1u32..4, 0u32..12, 0u32..4).prop_map(|(on, interest, race, mode)| {
        let mut v = vec![];
        for p in 0..3 * on {
            v.push([rop::ADD, p, 0, interest, mode + 1]);
        }
        if on > 0 && interest > 1 {
            v.push([rop::STATE, 0, 2, 0, 0]);
        }
        for p in 0..3 * on {
            v.push([rop::START, p, 0, race, 0]);
        }
        v
    });
    (np, 0u32..4, shared, proptest::collection::vec(op, 2..24))
        .prop_map(|(p, s, mut v, mut ops)| (p, s, { v.append(&mut ops); v }))
        .prop_map(|(p, s, ops)| Case { engine: 5, cfg: vec![p, s], progs: vec![ops], sched: vec![], faults: vec![] })
        .boxed()
}

/// Histories with as many calls in a row as it takes for a counter of eight or sixteen bits
/// to come round again.
pub fn bulk_grid() -> Vec<Case> {
    let mut v = vec![];
    for n in 0..6u32 {
        for kind in [0u32, 1, 2, 3, 4, 6, 7, 8, 9] {
            if n > 2 && (kind == 6 || (n != 4 && kind % 8 != 0)) {
                continue;
            }
            for deny in if n < 3 { 0..4u32 } else { 0..1 } {
                // a unix socket and an eventfd
                let cfg = vec![0, 0, 0, deny, 0, 2];
                let wait = |to: u32| [op::WAIT, 0, to, 0, 0];
                let notify = [op::NOTIFY, 0, 0, 0, 0];
                let bulk = [op::BULK, 0, kind, 2000 - 2000 % 6 + 6 + n, 0];
                let progs = vec![
                    notify,
                    wait(10),
                    [op::ADD, 0, 1, 2, 0],
                    bulk,
                    wait(0),
                    wait(6),
                    notify,
                    wait(10),
                    [op::MODIFY, 0, 1, 0, 0],
                    [op::IO, 0, 0, 0, 0],
                    wait(10),
                    bulk,
                    notify,
                    wait(10),
                ];
                v.push(Case { engine: 0, cfg, progs: vec![progs], sched: vec![], faults: vec![] });
            }
        }
    }
    v
}

/// Every length of a wait from the tables, and the lengths next to it: the wait sits it out, or is
/// disturbed half-way by a signal or an operation, or ended by a notification; a shorter one and
/// a look follow.
pub fn timeout_grid() -> Vec<Case> {
    let mut v = vec![];
    let edges = crate::seq::EDGES.len() as u32;
    let lengths = (0..15)
        .chain(16..24)
        .map(|b| (b, 0))
        .chain((36..36 + edges).flat_map(|b| [1, 2, 4, 5, 6, 7].map(|c| (b, c))));
    for (i, (b, c)) in lengths.enumerate() {
        for deny in if crate::seq::IS_POLL { [0, 4].iter() } else { [0u32, 1, 2, 3].iter() } {
            let cfg = vec![0, 0, i as u32 % 2, *deny, 0];
            for t in [6, 7] {
                let wait = |b: u32, c: u32| [op::WAIT, 0, b, c, 0];
                let first: [&[[u32; 5]]; 4] = [
                    &[],
                    &[[op::EINTR, 0, 0, 0, t]],
                    &[[op::ADD, 0, 0, 0, t], [op::MODIFY, 0, 1, 1, t], [op::EINTR, 0, 0, 0, t]],
                    &[[op::NOTIFY, 0, 0, 0, t]],
                ];
                for (j, f) in first.iter().enumerate() {
                    if j == 0 && t == 7 {
                        continue;
                    }
                    let mut prog = vec![wait(b, c)];
                    prog.extend(*f);
                    prog.extend([wait(6, 0), wait(b, c), [op::NOTIFY, 0, 0, 0, 6], wait(0, 0), wait(2, 0)]);
                    v.push(Case { engine: 0, cfg: cfg.clone(), progs: vec![prog], sched: vec![], faults: vec![] });
                }
            }
        }
    }
    v
}

/// Every history of few steps: of one socket in the default container, or of a socket and a
/// pipe in a container of one place.
const SMALL: [&[[u32; 5]]; 2] = [
    &[
        [op::ADD, 0, 3, 0, 0],
        [op::ADD, 0, 1, 2, 0],
        [op::ADD, 0, 1, 3, 0],
        [op::MODIFY, 0, 1, 1, 0],
        [op::MODIFY, 0, 3, 2, 0],
        [op::MODIFY, 0, 3, 3, 0],
        [op::MODIFY, 0, 1, 4, 0],
        [op::MODIFY, 0, 0, 1, 0],
        [op::DELETE, 0, 0, 0, 0],
        [op::IO, 0, 0, 0, 0],
        [op::IO, 0, 1, 0, 0],
        [op::IO, 0, 7, 0, 0],
        [op::WAIT, 0, 0, 0, 0],
        [op::NOTIFY, 0, 0, 0, 0],
    ],
    &[
        [op::ADD, 0, 1, 0, 0],
        [op::ADD, 0, 1, 2, 0],
        [op::ADD, 1, 1, 0, 0],
        [op::ADD, 1, 1, 3, 0],
        [op::MODIFY, 0, 3, 1, 0],
        [op::MODIFY, 1, 1, 2, 0],
        [op::MODIFY, 1, 1, 4, 0],
        [op::DELETE, 0, 0, 0, 0],
        [op::DELETE, 1, 0, 0, 0],
        [op::IO, 0, 0, 0, 0],
        [op::IO, 1, 0, 0, 0],
        [op::IO, 0, 1, 0, 0],
        [op::WAIT, 0, 0, 0, 0],
        [op::NOTIFY, 0, 0, 0, 0],
    ],
];

pub fn small_scope(len: u32, mine: &dyn Fn(u64) -> bool) -> (Vec<Case>, u64) {
    let mut v = vec![];
    let mut total = 0;
    for (kind, a) in SMALL.iter().enumerate() {
        for l in 1..=len {
            for i in 0..(a.len() as u64).pow(l) {
                total += 1;
                if !mine(total) {
                    continue;
                }
                let mut x = i;
                let mut prog = vec![];
                for _ in 0..l {
                    prog.push(a[(x % a.len() as u64) as usize]);
                    x /= a.len() as u64;
                }
                let cfg = if kind == 0 { vec![0, 0, 0, 0, 0] } else { vec![0, 1, 0, 0, 0, 1] };
                v.push(Case { engine: 0, cfg, progs: vec![prog], sched: vec![], faults: vec![] });
            }
        }
    }
    (v, total)
}

const BASES: [&str; 4] = ["w0 w4", "a010 w0 w1", "a010 i00 w0 m010 w4", "a014 w4 w1"];
const STEPS: [&str; 8] = ["n", "a110", "m010", "m110", "d0", "i00", "i10", "w1"];

/// Every program of a waiting thread and another one of up to `len` steps, each with every single
/// preemption at synchronization operations (and every pair if there are up to `pairs` steps).
/// Programs are shared out by `mine`; returns the share and its size.
pub fn small_programs(len: u32, pairs: u32, deny: u32, mut points: impl FnMut(&Case) -> u64, mine: &dyn Fn(u64) -> bool) -> Vec<Case> {
    let mut v = vec![];
    let mut k = 0;
    for b in BASES {
        for l in 1..=len {
            for i in 0..(STEPS.len() as u32).pow(l) {
                k += 1;
                if !mine(k) {
                    continue;
                }
                let steps: Vec<&str> = (0..l).map(|j| STEPS[(i / (STEPS.len() as u32).pow(j)) as usize % STEPS.len()]).collect();
                let progs = template(&format!("{b} | {}", steps.join(" ")));
                let mk = |sched: Vec<[u32; 2]>| Case {
                    engine: 1,
                    cfg: vec![0, 0, 0, deny, 1, 1, 1, 0, 3],
                    progs: progs.clone(),
                    sched,
                    faults: vec![[3, 0, 0]],
                };
                let base = mk(vec![]);
                let m = points(&base) as u32;
                v.push(base);
                for g in 0..m {
                    v.push(mk(vec![[g, 0]]));
                    if l <= pairs {
                        v.extend((0..m - g).map(|g2| mk(vec![[g, 0], [g2, 0]])));
                    }
                }
            }
        }
    }
    v
}
