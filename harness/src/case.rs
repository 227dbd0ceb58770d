//! A generated case: configuration, one list of operations per thread, and the decisions of the scheduler.
use crate::rt::Dec;

pub type Op = [u64; 5];

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub prop: String,
    /// property specific configuration
    pub cfg: Vec<u64>,
    /// threads[0] is executed by the main thread before the others start
    pub threads: Vec<Vec<Op>>,
    /// scheduler: seed, policy, sw_den, stale_den, n_pct, pct_len
    pub sched: [u64; 6],
    /// recorded decisions; used instead of the seed if `replay`
    pub replay: bool,
    pub sw: Vec<Dec>,
    pub st: Vec<Dec>,
}

impl Case {
    pub fn n_ops(&self) -> usize {
        self.threads.iter().map(|t| t.len()).sum()
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let join = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        s += &format!("property {}\n", self.prop);
        s += &format!("cfg {}\n", join(&self.cfg));
        s += &format!("sched {}\n", join(&self.sched));
        s += &format!("replay {}\n", self.replay as u32);
        for t in &self.threads {
            s += "thread\n";
            for o in t {
                s += &format!("op {}\n", join(o));
            }
        }
        for d in &self.sw {
            s += &format!("sw {} {} {}\n", d.f, d.k, d.v);
        }
        for d in &self.st {
            s += &format!("st {} {} {}\n", d.f, d.k, d.v);
        }
        s
    }
    pub fn from_text(t: &str) -> Case {
        let mut c = Case::default();
        for l in t.lines() {
            let mut w = l.split_whitespace();
            let Some(k) = w.next() else { continue };
            if k.starts_with('#') {
                continue;
            }
            if k == "property" {
                c.prop = w.next().unwrap_or("").into();
                continue;
            }
            let n: Vec<u64> = w.map(|x| x.parse().expect("number in replay file")).collect();
            match k {
                "cfg" => c.cfg = n,
                "sched" => {
                    for (a, b) in c.sched.iter_mut().zip(n) {
                        *a = b
                    }
                }
                "replay" => c.replay = n[0] != 0,
                "thread" => c.threads.push(vec![]),
                "op" => {
                    let mut o = [0; 5];
                    for (a, b) in o.iter_mut().zip(n) {
                        *a = b
                    }
                    c.threads.last_mut().expect("op outside of a thread").push(o)
                }
                "sw" => c.sw.push(Dec { f: n[0] as u32, k: n[1] as u32, v: n[2] as u32 }),
                "st" => c.st.push(Dec { f: n[0] as u32, k: n[1] as u32, v: n[2] as u32 }),
                _ => panic!("unknown line in replay file: {l}"),
            }
        }
        c.sw.sort();
        c.st.sort();
        c
    }
    pub fn hash(&self) -> u64 {
        let mut h = Hash64::new();
        for x in &self.cfg {
            h.add(*x);
        }
        for t in &self.threads {
            h.add(0x7777);
            for o in t {
                for x in o {
                    h.add(*x);
                }
            }
        }
        h.get()
    }
}

pub struct Hash64(u64);
impl Hash64 {
    pub fn new() -> Self {
        Hash64(0xcbf29ce484222325)
    }
    pub fn add(&mut self, x: u64) {
        let mut z = self.0 ^ x.wrapping_mul(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        self.0 = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    }
    pub fn get(&self) -> u64 {
        self.0 ^ (self.0 >> 31)
    }
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            (self.next() >> 11) % n
        }
    }
    /// a..=b
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
    /// weighted pick
    pub fn weighted<T: Copy>(&mut self, v: &[(u64, T)]) -> T {
        let s: u64 = v.iter().map(|x| x.0).sum();
        let mut r = self.below(s);
        for (w, t) in v {
            if r < *w {
                return *t;
            }
            r -= w;
        }
        v[0].1
    }
}
