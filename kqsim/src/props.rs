use crate::case::*;
use crate::{run, Outcome};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

fn op() -> impl Strategy<Value = Op> {
    let code = prop_oneof![
        6 => Just(ADD), 6 => Just(MODIFY), 3 => Just(DELETE), 8 => Just(FEED), 3 => Just(DRAIN), 2 => Just(FILL), 2 => Just(UNFILL),
        1 => Just(SHUT), 1 => Just(CLOSE), 1 => Just(RENEW), 4 => Just(NOTIFY), 22 => Just(WAIT), 4 => Just(FADD), 3 => Just(FMODIFY),
        2 => Just(FDELETE), 2 => Just(SIGNAL), 2 => Just(PROCESS), 2 => Just(ADVANCE), 1 => Just(INTERRUPT), 1 => Just(WAIT2),
        1 => Just(DROP), 1 => Just(SPAWN),
    ];
    // Few pollers, sockets and filters, so that operations meet.
    let who = prop_oneof![5 => Just(0u16), 3 => 0u16..4, 3 => 0u16..12];
    let how = (0u16..4, any::<u16>(), any::<u16>()).prop_map(|(m, k, h)| m | if m == 0 { k & 12 } else { 12 } | (h & 48) | (k & 0x7c0));
    let rest = (0u16..8, any::<u16>(), prop::bool::weighted(0.08)).prop_map(|(c, h, r)| if r { h | 7 } else { (h & 0xff80 | c) & !if c == 7 { 4 } else { 0 } });
    (code, prop::bool::weighted(0.3), who, how, rest).prop_map(|(c, d, w, h, r)| [c | if d { DURING } else { 0 }, w, h, r])
}

/// All short histories over these.
fn alphabet(os: &str) -> Vec<Vec<Op>> {
    let m = |mode: u16, rw: u16, k: u16| mode | 12 | rw << 4 | k << 6;
    let mut a = vec![
        vec![[ADD, 0, m(0, 1, 1), 0]],
        vec![[ADD, 0, m(0, 3, 2), 0]],
        vec![[MODIFY, 0, m(0, 0, 3), 0]],
        vec![[MODIFY, 0, m(0, 3, 4), 0]],
        vec![[DELETE, 0, 0, 0]],
        vec![[FEED, 0, 0, 0]],
        vec![[DRAIN, 0, 0, 0]],
        vec![[CLOSE, 0, 0, 0]],
        vec![[NOTIFY, 0, 0, 0]],
        vec![[WAIT, 0, 0, 3]],
        vec![[WAIT, 0, 11, 3], [FEED | DURING, 0, 0, 0]],
        vec![[WAIT, 0, 7, 0], [MODIFY | DURING, 0, m(0, 2, 5), 0x400]],
        vec![[ADD, 0, m(0, 3, 1), 7]],
        vec![[DROP, 0, 0, 0]],
    ];
    if os != "illumos" {
        a.extend([
            vec![[ADD, 0, m(1, 3, 1), 0]],
            vec![[ADD, 0, m(2, 3, 1), 0]],
            vec![[ADD, 0, m(3, 1, 1), 0]],
            vec![[MODIFY, 0, m(1, 1, 4), 0]],
            vec![[MODIFY, 0, m(2, 2, 4), 0]],
            vec![[ADD, 0, m(0, 3, 1), 15]],
            vec![[FADD, 0, 1 << 2, 0]],
            vec![[FADD, 0, 1 | 1 << 2 | 64, 0]],
            vec![[FMODIFY, 0, 2 << 2 | 128, 0]],
            vec![[FDELETE, 0, 0, 0]],
            vec![[FADD, 8, 0, 0]],
            vec![[PROCESS, 0, 0, 0]],
            vec![[FADD, 4, 64, 0]],
            vec![[SIGNAL, 0, 0, 0]],
            vec![[ADVANCE, 6, 0, 0]],
        ]);
    }
    a
}

fn nth(a: &[Vec<Op>], mut n: u64) -> Option<Vec<Op>> {
    let k = a.len() as u64;
    for len in 1..=4u32 {
        if n < k.pow(len) {
            let mut v = Vec::new();
            for _ in 0..len {
                v.extend(a[(n % k) as usize].iter());
                n /= k;
            }
            return Some(v);
        }
        n -= k.pow(len);
    }
    None
}

const RULES: [&[&str]; 9] = [
    &["event", "modified"],
    &["event", "blocked"],
    &["notified during wait"],
    &["registration during wait"],
    &["timer event"],
    &["signal event"],
    &["process event"],
    &["refused", "event"],
    &["interrupted"],
];

fn to_json(ops: &[Op]) -> Value {
    json!({ "engine": "kqsim", "ops": ops })
}

fn from_json(v: &Value) -> Vec<Op> {
    v["ops"].as_array().map_or(vec![], |a| {
        a.iter().map(|o| { let f = |i: usize| o[i].as_u64().unwrap_or(0) as u16; [f(0), f(1), f(2), f(3)] }).collect()
    })
}

fn hash(ops: &[Op]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in ops.iter().flatten() {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

#[derive(Default)]
struct Stats {
    n: u64,
    distinct: BTreeSet<String>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
}

impl Stats {
    fn take(&mut self, os: &str, ops: &[Op], o: &Outcome) {
        self.n += 1;
        for l in &o.labels {
            *self.labels.entry(l).or_default() += 1;
        }
        if RULES.iter().any(|r| r.iter().all(|l| o.labels.contains(l))) {
            let new = self.distinct.insert(hash(ops));
            if new && (self.samples.len() < 2 || self.n % 5000 == 0 && self.samples.len() < 4) {
                self.samples.push(json!({ "case": to_json(ops), "labels": o.labels, "log": run(os, ops, true).log }));
            }
        }
    }
}

fn violation(os: &str, ops: &[Op], o: Outcome) -> Value {
    let o = if o.hang { o } else { run(os, ops, true) };
    json!({ "case": to_json(ops), "tags": ["C26"], "msg": o.viol, "log": o.log })
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let os = a[1].clone();
    if a[2] == "replay" {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[3]).unwrap()).unwrap();
        let o = run(&os, &from_json(&v["case"]), true);
        o.log.iter().for_each(|l| println!("{l}"));
        match o.viol {
            Some(m) => {
                println!("VIOLATES: {m}");
                std::process::exit(1)
            }
            None => println!("holds"),
        }
        return;
    }
    let get = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone()).unwrap_or_default();
    let num = |n: &str| get(n).parse::<u64>().unwrap_or(0);
    let (seed, shard, shards, cases, cap) = (num("--seed"), num("--shard"), num("--shards").max(1), num("--cases"), num("--enum"));
    let cur = get("--cur");
    let note = |ops: &[Op]| {
        if !cur.is_empty() {
            let _ = std::fs::write(&cur, format!("{}\n", to_json(ops)));
        }
    };
    let mut st = Stats::default();
    let mut bad: Option<Value> = None;
    let al = alphabet(&os);
    let k = al.len() as u64;
    let total: u64 = (1..=4).map(|i| k.pow(i)).sum();
    let mut enumerated = 0;
    let mut i = shard;
    while i < total && enumerated < cap {
        let ops = nth(&al, i).unwrap();
        note(&ops);
        let o = run(&os, &ops, false);
        enumerated += 1;
        if o.viol.is_some() {
            bad = Some(violation(&os, &ops, o));
            break;
        }
        st.take(&os, &ops, &o);
        i += shards;
    }
    if bad.is_none() {
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&seed.to_le_bytes());
        s[8..16].copy_from_slice(&shard.to_le_bytes());
        s[16..20].copy_from_slice(os[..4].as_bytes());
        let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &s));
        let short = prop::collection::vec(op(), 1..14);
        let long = prop::collection::vec(op(), 1..70);
        for n in 0..cases {
            let mut t = if n % 4 == 0 { long.new_tree(&mut r).unwrap() } else { short.new_tree(&mut r).unwrap() };
            let ops = t.current();
            note(&ops);
            let o = run(&os, &ops, false);
            if o.viol.is_none() {
                st.take(&os, &ops, &o);
                continue;
            }
            let mut best = ops;
            let mut tries = 0;
            let mut last = o;
            if !last.hang && t.simplify() {
                loop {
                    tries += 1;
                    if tries > 3000 {
                        break;
                    }
                    let ops = t.current();
                    note(&ops);
                    let o = run(&os, &ops, false);
                    let fails = o.viol.is_some();
                    if fails {
                        best = ops;
                        last = o;
                        if last.hang {
                            break;
                        }
                    }
                    if !(if fails { t.simplify() } else { t.complicate() }) {
                        break;
                    }
                }
            }
            bad = Some(violation(&os, &best, last));
            break;
        }
    }
    let out = json!({
        "violation": bad, "evaluations": st.n + bad.is_some() as u64, "enumerated": enumerated, "enumerable": total, "points": 0, "switches": 0,
        "nontrivial": RULES.iter().map(|r| r.join(" + ")).collect::<Vec<_>>(), "distinct": st.distinct, "covered": [], "guards": 0,
        "labels": st.labels, "others": {}, "samples": st.samples,
    });
    std::fs::write(get("--out"), out.to_string()).unwrap();
    // Not by returning: a thread may hang in a wait.
    std::process::exit(0);
}
