use crate::case::*;
use crate::{run, Outcome};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

fn op() -> impl Strategy<Value = Op> {
    let code = prop_oneof![
        5 => Just(POST), 2 => Just(REPOST), 6 => Just(WADD), 5 => Just(WMOD), 3 => Just(WDEL), 8 => Just(SET), 3 => Just(RESET), 3 => Just(CALLBACK),
        4 => Just(SADD), 4 => Just(SMOD), 2 => Just(SDEL), 5 => Just(COND), 3 => Just(NOTIFY), 22 => Just(WAIT), 1 => Just(ADVANCE), 1 => Just(SWEEP),
        1 => Just(WAIT2), 1 => Just(DROP), 1 => Just(MANY), 1 => Just(CROWD),
    ];
    // Few pollers and sources, so that operations meet.
    let who = prop_oneof![5 => Just(0u16), 3 => 0u16..4, 3 => 0u16..8];
    let how = (0u16..2, any::<u16>(), prop::bool::weighted(0.08)).prop_map(|(m, k, edge)| {
        let k = if k % 3 == 0 { k } else { k | 12 };
        (k & 0x7ce) | m | if edge { 0x30 } else { k & 0x10 }
    });
    let rest = (0u16..8, any::<u16>()).prop_map(|(c, h)| h & 0xfff8 | c);
    (code, prop::bool::weighted(0.35), prop::bool::weighted(0.3), who, how, rest)
        .prop_map(|(c, d, o, w, h, r)| [c | if d { DURING } else { 0 } | if d && o { OVERLAP } else { 0 }, w, h, r])
}

/// All short histories over these.
fn alphabet(_os: &str) -> Vec<Vec<Op>> {
    let m = |mode: u16, rw: u16, k: u16| mode | rw << 2 | k << 6;
    vec![
        vec![[POST, 0, m(0, 4, 1), 0]],
        vec![[REPOST, 0, 0, 0]],
        vec![[WADD, 0, m(0, 3, 1), 0]],
        vec![[WADD, 0, m(1, 1, 1), 0]],
        vec![[WMOD, 0, m(0, 2, 3), 0]],
        vec![[WMOD, 0, m(0, 0, 3), 0]],
        vec![[WDEL, 0, 0, 0]],
        vec![[SET, 0, 1, 0]],
        vec![[SET, 0, 0, 0]],
        vec![[RESET, 0, 0, 0]],
        vec![[CALLBACK, 0, 0, 0]],
        vec![[SADD, 0, m(0, 3, 2), 0]],
        vec![[SMOD, 0, m(1, 1, 4), 0]],
        vec![[SDEL, 0, 0, 0]],
        vec![[COND, 0, 1, 0]],
        vec![[NOTIFY, 0, 0, 0]],
        vec![[WAIT, 0, 0, 3]],
        vec![[WAIT, 0, 5, 0]],
        vec![[WAIT, 0, 9, 3], [SET | DURING, 0, 0, 0]],
        vec![[WAIT, 0, 9, 3], [WADD | DURING | OVERLAP, 0, m(0, 3, 1), 0]],
        vec![[WAIT, 0, 9, 3], [WMOD | DURING, 0, m(0, 1, 6), 0]],
        vec![[WAIT, 0, 5, 3], [SADD | DURING | OVERLAP, 0, m(1, 3, 1), 0x200]],
        vec![[WADD, 2, m(1, 3, 1), 0]],
        vec![[SET, 2, 1, 0]],
    ]
}

fn nth(a: &[Vec<Op>], mut n: u64) -> Option<Vec<Op>> {
    let k = a.len() as u64;
    for len in 1..=4u32 {
        if n < k.pow(len) {
            let mut v = Vec::new();
            for _ in 0..len {
                v.extend(a[(n % k) as usize].iter());
                n /= k;
            }
            return Some(v);
        }
        n -= k.pow(len);
    }
    None
}

const RULES: [&[&str]; 7] = [
    &["packet event", "waitable event"],
    &["posted during wait"],
    &["waitable event", "modified"],
    &["waitable event", "registration during wait"],
    &["overlapping call", "waitable event"],
    &["socket event", "packet event"],
    &["posted again", "blocked"],
];

fn to_json(ops: &[Op]) -> Value {
    json!({ "engine": "iocpsim", "ops": ops })
}

fn from_json(v: &Value) -> Vec<Op> {
    v["ops"].as_array().map_or(vec![], |a| {
        a.iter().map(|o| { let f = |i: usize| o[i].as_u64().unwrap_or(0) as u16; [f(0), f(1), f(2), f(3)] }).collect()
    })
}

fn hash(ops: &[Op]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in ops.iter().flatten() {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

#[derive(Default)]
struct Stats {
    n: u64,
    distinct: BTreeSet<String>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
}

impl Stats {
    fn take(&mut self, ops: &[Op], o: &Outcome) {
        self.n += 1;
        for l in &o.labels {
            *self.labels.entry(l).or_default() += 1;
        }
        if RULES.iter().any(|r| r.iter().all(|l| o.labels.contains(l))) {
            let new = self.distinct.insert(hash(ops));
            if new && (self.samples.len() < 2 || self.n % 5000 == 0 && self.samples.len() < 4) {
                self.samples.push(json!({ "case": to_json(ops), "labels": o.labels, "log": run(ops, true).log }));
            }
        }
    }
}

fn violation(ops: &[Op], o: Outcome) -> Value {
    let o = if o.hang { o } else { run(ops, true) };
    json!({ "case": to_json(ops), "tags": ["C25"], "msg": o.viol, "log": o.log })
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let os = a[1].clone();
    if a[2] == "replay" {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[3]).unwrap()).unwrap();
        let o = run(&from_json(&v["case"]), true);
        o.log.iter().for_each(|l| println!("{l}"));
        match o.viol {
            Some(m) => {
                println!("VIOLATES: {m}");
                std::process::exit(1)
            }
            None => println!("holds"),
        }
        return;
    }
    let get = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone()).unwrap_or_default();
    let num = |n: &str| get(n).parse::<u64>().unwrap_or(0);
    let (seed, shard, shards, cases, cap) = (num("--seed"), num("--shard"), num("--shards").max(1), num("--cases"), num("--enum"));
    let cur = get("--cur");
    let note = |ops: &[Op]| {
        if !cur.is_empty() {
            let _ = std::fs::write(&cur, format!("{}\n", to_json(ops)));
        }
    };
    let mut st = Stats::default();
    let mut bad: Option<Value> = None;
    let al = alphabet(&os);
    let k = al.len() as u64;
    let total: u64 = (1..=4).map(|i| k.pow(i)).sum();
    let mut enumerated = 0;
    let mut i = shard;
    while i < total && enumerated < cap {
        let ops = nth(&al, i).unwrap();
        note(&ops);
        let o = run(&ops, false);
        enumerated += 1;
        if o.viol.is_some() {
            bad = Some(violation(&ops, o));
            break;
        }
        st.take(&ops, &o);
        i += shards;
    }
    if bad.is_none() {
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&seed.to_le_bytes());
        s[8..16].copy_from_slice(&shard.to_le_bytes());
        s[16..20].copy_from_slice(os[..4].as_bytes());
        let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &s));
        let short = prop::collection::vec(op(), 1..14);
        let long = prop::collection::vec(op(), 1..70);
        for n in 0..cases {
            let mut t = if n % 4 == 0 { long.new_tree(&mut r).unwrap() } else { short.new_tree(&mut r).unwrap() };
            let ops = t.current();
            note(&ops);
            let o = run(&ops, false);
            if o.viol.is_none() {
                st.take(&ops, &o);
                continue;
            }
            let mut best = ops;
            let mut tries = 0;
            let mut last = o;
            if !last.hang && t.simplify() {
                loop {
                    tries += 1;
                    if tries > 3000 {
                        break;
                    }
                    let ops = t.current();
                    note(&ops);
                    let o = run(&ops, false);
                    let fails = o.viol.is_some();
                    if fails {
                        best = ops;
                        last = o;
                        if last.hang {
                            break;
                        }
                    }
                    if !(if fails { t.simplify() } else { t.complicate() }) {
                        break;
                    }
                }
            }
            bad = Some(violation(&best, last));
            break;
        }
    }
    let out = json!({
        "violation": bad, "evaluations": st.n + bad.is_some() as u64, "enumerated": enumerated, "enumerable": total, "points": 0, "switches": 0,
        "nontrivial": RULES.iter().map(|r| r.join(" + ")).collect::<Vec<_>>(), "distinct": st.distinct, "covered": [], "guards": 0,
        "labels": st.labels, "others": {}, "samples": st.samples,
    });
    std::fs::write(get("--out"), out.to_string()).unwrap();
    // Not by returning: a thread may hang in a wait.
    std::process::exit(0);
}
