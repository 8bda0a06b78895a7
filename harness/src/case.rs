//! The value a generator produces, a shrinker reduces and a replay file stores.

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Case {
    pub engine: u32,
    pub cfg: Vec<u32>,
    pub progs: Vec<Vec<[u32; 5]>>,
    pub sched: Vec<[u32; 2]>,
    pub faults: Vec<[u32; 3]>,
}

impl Case {
    pub fn to_json(&self) -> String {
        format!(
            "{{\"engine\":{},\"cfg\":{:?},\"progs\":{:?},\"sched\":{:?},\"faults\":{:?}}}",
            self.engine, self.cfg, self.progs, self.sched, self.faults
        )
        .replace(' ', "")
    }

    pub fn hash64(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }
}

/// Minimal JSON reader for objects of nested integer arrays.
pub enum J {
    Num(u64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn parse(s: &str) -> Option<J> {
    let b = s.as_bytes();
    let mut i = 0;
    val(b, &mut i)
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn val(b: &[u8], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if *b.get(*i)? == b']' {
                    *i += 1;
                    return Some(J::Arr(v));
                }
                v.push(val(b, i)?);
                ws(b, i);
                if *b.get(*i)? == b',' {
                    *i += 1;
                }
            }
        }
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if *b.get(*i)? == b'}' {
                    *i += 1;
                    return Some(J::Obj(v));
                }
                let k = match val(b, i)? {
                    J::Str(s) => s,
                    _ => return None,
                };
                ws(b, i);
                if *b.get(*i)? != b':' {
                    return None;
                }
                *i += 1;
                v.push((k, val(b, i)?));
                ws(b, i);
                if *b.get(*i)? == b',' {
                    *i += 1;
                }
            }
        }
        b'"' => {
            *i += 1;
            let mut s = String::new();
            while *b.get(*i)? != b'"' {
                if b[*i] == b'\\' {
                    *i += 1;
                }
                s.push(*b.get(*i)? as char);
                *i += 1;
            }
            *i += 1;
            Some(J::Str(s))
        }
        c if c.is_ascii_digit() => {
            let mut n = 0u64;
            while *i < b.len() && b[*i].is_ascii_digit() {
                n = n.wrapping_mul(10).wrapping_add((b[*i] - b'0') as u64);
                *i += 1;
            }
            Some(J::Num(n))
        }
        _ => None,
    }
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<u64> {
        match self {
            J::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    fn nums<const N: usize>(&self) -> [u32; N] {
        let mut r = [0; N];
        for (i, x) in self.arr().iter().take(N).enumerate() {
            r[i] = x.num().unwrap_or(0) as u32;
        }
        r
    }
}

pub fn from_json(j: &J) -> Option<Case> {
    Some(Case {
        engine: j.get("engine")?.num()? as u32,
        cfg: j.get("cfg")?.arr().iter().map(|x| x.num().unwrap_or(0) as u32).collect(),
        progs: j
            .get("progs")?
            .arr()
            .iter()
            .map(|p| p.arr().iter().map(|o| o.nums::<5>()).collect())
            .collect(),
        sched: j.get("sched")?.arr().iter().map(|o| o.nums::<2>()).collect(),
        faults: j.get("faults")?.arr().iter().map(|o| o.nums::<3>()).collect(),
    })
}
