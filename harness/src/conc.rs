//! Generated concurrent programs over one vector, executed under the deterministic scheduler.
//! All observations are recorded and judged afterwards by oracles on positions, lengths, element histories, ...
use crate::case::*;
use crate::driver::{self, fail, Outcome};
use crate::lin::{self, precedes, Act, Stamp, Sub, ABSENT};
use crate::payload::*;
use crate::rt::{self, off, on, Caught};
use crate::store::*;
use orx_concurrent_vec::*;
use std::collections::HashMap;

// ------------------------------------------------------------------ failure kinds
pub const POS: i32 = 101;
pub const LEN: i32 = 102;
pub const LIN: i32 = 104;
pub const SWAP: i32 = 105;
pub const OWN: i32 = 108;
pub const ADDR: i32 = 109;
pub const CAPA: i32 = 110;
pub const PANIC: i32 = 111;
pub const BULK: i32 = 114;
pub const RAW: i32 = 115;
pub const GROWTH: i32 = 119;
pub const CALLS: i32 = 120;

// ------------------------------------------------------------------ operations
macro_rules! ops {
    ($($name:ident = $v:expr),* $(,)?) => {
        $(pub const $name: u64 = $v;)*
        pub fn op_name(o: u64) -> &'static str {
            match o { $($v => stringify!($name),)* _ => "?" }
        }
    };
}
ops! {
    PUSH = 0, PUSH_FOR_IDX = 1, EXTEND = 2, EXTEND_FOR_IDX = 3, EXTEND_N = 4,
    VLEN = 5, IS_EMPTY = 6, CAPACITY = 7, GET = 8, GET_CLONED = 9, GET_COPIED = 10, LEN_GET = 11, INDEX = 12,
    EL_CLONED = 13, EL_COPIED = 14, EL_MAP = 15, EL_REPLACE = 16, EL_SET = 17, EL_UPDATE = 18, EL_EQ_VAL = 19,
    EL_EQ_EL = 20, EL_DEBUG = 21, VSWAP = 22, SL_SWAP = 23, HOLD = 24,
    FILL = 25, FILL_WITH = 26,
    ITER = 30, ITER_CLONED = 31, MAP = 32, FILTER = 33, FOLD = 34, REDUCE = 35, INDEX_OF = 36, CONTAINS = 37,
    CLONE_TO_VEC = 38, DEBUG = 39, CLONE = 40, EQ_SELF = 41, EQ_ARR = 42,
    SLICES = 43, CHUNKS = 44, SPLIT_AT = 45, SPLIT_FIRST = 46, SPLIT_LAST = 47,
    GET_RAW = 50, GET_REF = 51, ITER_REF = 52, GET_RAW_MUT = 53, SL_GET_RAW = 54, SL_GET_REF = 55, SL_ITER_REF = 56,
    WAIT = 60, YIELD = 61,
}

// ------------------------------------------------------------------ configuration indices of Case::cfg
pub const C_COMBO: usize = 0;
pub const C_EXP: usize = 1;
pub const C_FRAGS: usize = 2;
pub const C_CAP: usize = 3;
pub const C_INIT: usize = 4;
pub const C_END: usize = 5;
pub const C_YIELDS: usize = 6;
pub const C_ACT: usize = 7;
pub const C_MASK: usize = 8;
pub const C_FIBER: usize = 9;
pub const C_AT: usize = 10;
pub const C_SOFT: usize = 11;
pub const C_LL: usize = 12;
pub const C_RACE: usize = 13;
/// 0: concurrent programs (this file), 1: sequential histories (seq.rs)
pub const C_MACH: usize = 14;
/// sequential machine: factor of all sizes and indices, and the steps after which nothing is observed
pub const C_SCALE: usize = 15;
pub const C_QUIET: usize = 16;
/// concurrent machine: further initial elements; indices of operations are shifted by this number
pub const C_OFF: usize = 17;
pub const NCFG: usize = 18;

pub const COMBOS: &[&str] = &[
    "tracked/split-doubling",
    "tracked/split-linear",
    "tracked/fixed",
    "pair/split-doubling",
    "big/fixed",
    "zst/split-linear",
];

pub fn value_id(fiber: usize, op: usize, k: usize) -> u64 {
    ((fiber as u64 * 64 + op as u64) << 12) + k as u64 + 1
}
pub fn init_id(i: usize) -> u64 {
    (1 << 40) + i as u64
}

// ------------------------------------------------------------------ history
#[derive(Clone, Debug)]
pub struct Grow {
    pub fiber: usize,
    pub op: usize,
    pub name: &'static str,
    pub begin: Option<usize>,
    pub n: usize,
    /// identities of the values which were handed over, in order
    pub ids: Vec<u64>,
    pub ok: bool,
    /// number of calls of the function which receives the position
    pub calls: u32,
    pub out_of_capacity: bool,
    pub reserved: bool,
    pub inv: Stamp,
    pub ret: Stamp,
}
#[derive(Clone, Debug)]
pub enum What {
    Len(usize),
    Vis(usize, bool),
    GcNone(usize),
    Cap(usize),
    Raw(usize, Option<u64>),
}
#[derive(Clone, Debug)]
pub struct Obs {
    pub fiber: usize,
    pub name: &'static str,
    pub what: What,
    pub inv: Stamp,
    pub ret: Stamp,
}
#[derive(Default)]
pub struct Hist {
    pub subs: Vec<Sub>,
    open: Vec<Vec<usize>>,
    pub grows: Vec<Grow>,
    pub obs: Vec<Obs>,
    addr: HashMap<usize, usize>,
    cur_op: Vec<usize>,
    cur_inv: Vec<Option<Stamp>>,
    pub weak: bool,
    pub injected: Vec<(usize, usize)>,
    pub checks: u64,
    pub fatal_panics: Vec<String>,
    pub contains_true: Vec<(usize, usize, u64)>,
    pub raw_seqs: Vec<RawSeq>,
    raw_addr: HashMap<usize, usize>,
    pub init: Vec<u64>,
    max_cap: usize,
    cap0: usize,
    /// capacity which the growth strategy provides for a number of elements
    cap_for: Option<Box<dyn Fn(usize) -> usize>>,
}
static mut HIST: Option<Hist> = None;
#[allow(static_mut_refs)]
pub fn h() -> &'static mut Hist {
    unsafe { HIST.as_mut().unwrap() }
}
pub fn stamp() -> Stamp {
    Stamp { t: rt::now(), vc: rt::vc() }
}
const OPEN: u64 = u64::MAX;

impl Hist {
    fn new(weak: bool) -> Self {
        Hist { open: vec![vec![]; rt::MAXT], cur_op: vec![0; rt::MAXT], cur_inv: vec![None; rt::MAXT], weak, ..Default::default() }
    }
    /// a sub-operation whose return stamp is filled later
    fn sub(&mut self, name: &'static str, loc: usize, act: Act, inv: Stamp) -> usize {
        self.sub2(name, loc, loc, act, inv)
    }
    fn sub2(&mut self, name: &'static str, loc: usize, loc2: usize, act: Act, inv: Stamp) -> usize {
        let f = rt::cur();
        let mut ret = inv;
        ret.t = OPEN;
        self.subs.push(Sub { fiber: f, op: self.cur_op[f], name, loc, loc2, act, inv, ret, optional: false });
        let k = self.subs.len() - 1;
        self.open[f].push(k);
        k
    }
    /// closes all open sub-operations of the current thread
    fn close(&mut self) -> Stamp {
        let f = rt::cur();
        let s = stamp();
        for k in self.open[f].drain(..) {
            self.subs[k].ret = s;
        }
        s
    }
    fn obs(&mut self, name: &'static str, what: What, inv: Stamp, ret: Stamp) {
        self.obs.push(Obs { fiber: rt::cur(), name, what, inv, ret });
    }
    fn see_addr(&mut self, loc: usize, a: usize, name: &str) {
        self.checks += 1;
        let old = *self.addr.entry(loc).or_insert(a);
        if old != a {
            fail(ADDR, || format!("element at position {loc} is found at different addresses ({name})"));
        }
    }
}

/// first value of a position
#[derive(Clone, Copy, Debug)]
pub struct PosInfo {
    pub id: u64,
    pub fiber: usize,
    pub inv: Stamp,
    pub ret: Stamp,
    pub inited: bool,
}
impl Hist {
    fn see_raw(&mut self, loc: usize, a: usize, name: &str) {
        self.checks += 1;
        let old = *self.raw_addr.entry(loc).or_insert(a);
        if old != a {
            fail(ADDR, || format!("value at position {loc} is found at different addresses ({name})"));
        }
    }
    /// Number of leading positions whose growth calls returned before `inv`.
    pub fn lower(&self, inv: &Stamp, fiber: usize) -> (usize, usize) {
        let mut n = self.init.len();
        loop {
            let mut any = false;
            for g in &self.grows {
                if let (true, Some(b)) = (g.ok, g.begin) {
                    if b <= n && b + g.n > n && precedes(&g.ret, g.fiber, inv, fiber, self.weak) {
                        n = b + g.n;
                        any = true;
                    }
                }
            }
            if !any {
                return (n, self.grows.len());
            }
        }
    }
    fn show_grows(&self) -> String {
        self.grows.iter().map(|g| format!("{}(n={}) by thread {}{} -> {:?}; ", g.name, g.n, g.fiber, if g.ok { "" } else { " FAILED" }, g.begin)).collect()
    }

    /// Oracle on positions; returns what is known about each position.
    fn positions(&mut self, max_cap: usize) -> Vec<PosInfo> {
        let n0 = self.init.len();
        // every call handed out its own contiguous range
        let mut rs: Vec<(usize, usize, usize)> = vec![];
        for (k, g) in self.grows.iter().enumerate() {
            if let Some(b) = g.begin {
                if g.n > 0 {
                    rs.push((b, b + g.n, k));
                }
            }
        }
        rs.sort();
        let overflow = self.grows.iter().any(|g| g.out_of_capacity);
        let lost: Vec<usize> = self.grows.iter().filter(|g| !g.ok && g.begin.is_none()).map(|g| g.n).collect();
        let mut holes: Vec<(usize, usize)> = vec![];
        let mut at = n0;
        for (b, e, k) in &rs {
            self.checks += 1;
            if *b < at {
                let k = *k;
                fail(POS, || format!("growth call {} received positions {b}..{e} which overlap with the positions of another call or the initial {n0} elements: {}", self.grows[k].name, self.show_grows()));
            }
            if *b > at {
                holes.push((at, *b));
            }
            at = at.max(*e);
        }
        if !overflow {
            let sum: usize = holes.iter().map(|h| h.1 - h.0).sum();
            if sum > lost.iter().sum::<usize>() {
                fail(POS, || format!("positions {holes:?} are not assigned to any growth call: {}", self.show_grows()));
            }
        }
        // calls which do not overlap in time receive increasing positions
        for a in &self.grows {
            for b in &self.grows {
                if let (Some(x), Some(y)) = (a.begin, b.begin) {
                    if a.ret.t != OPEN && precedes(&a.ret, a.fiber, &b.inv, b.fiber, self.weak) {
                        self.checks += 1;
                        if x + a.n > y {
                            fail(POS, || format!("{} by thread {} returned {x} before {} by thread {} started, which received {y}", a.name, a.fiber, b.name, b.fiber));
                        }
                    }
                }
            }
        }
        let zero = Stamp { t: 0, vc: [0; rt::MAXT] };
        let mut pos: Vec<PosInfo> = self.init.iter().map(|id| PosInfo { id: *id, fiber: 0, inv: zero, ret: zero, inited: true }).collect();
        let mut put = |p: usize, info: PosInfo| {
            if p > 1 << 22 {
                fail(POS, || format!("a growth call received position {p}"));
                return;
            }
            while pos.len() <= p {
                let mut s = zero;
                s.t = OPEN;
                pos.push(PosInfo { id: ABSENT, fiber: 0, inv: s, ret: s, inited: false });
            }
            pos[p] = info;
        };
        let mut holes = holes.into_iter();
        for g in &self.grows {
            let b = match g.begin {
                Some(b) => b,
                None if g.out_of_capacity => continue,
                None if g.ok => continue,
                // failed call of unknown positions: the hole, or the end
                None => match holes.next() {
                    Some((a, b)) if b - a == g.n => a,
                    Some(_) => continue,
                    None => at,
                },
            };
            for q in 0..g.n {
                let inited = g.ok || (q < g.ids.len() && g.name != "PUSH_FOR_IDX");
                if inited || g.begin.is_some() {
                    put(b + q, PosInfo { id: g.ids.get(q).copied().unwrap_or(ABSENT), fiber: g.fiber, inv: g.inv, ret: g.ret, inited });
                }
            }
            if g.ok {
                if g.calls > 1 {
                    fail(CALLS, || format!("{} called its function {} times", g.name, g.calls));
                }
                if g.ids.len() != g.n {
                    fail(POS, || format!("{} of {} items took {} values from its iterator", g.name, g.n, g.ids.len()));
                }
                if g.n > 0 && b + g.n > max_cap {
                    fail(CAPA, || format!("{} received positions {b}..{} although the maximum capacity is {max_cap}", g.name, b + g.n));
                }
            }
        }
        pos
    }

    fn lens(&mut self, pos: &[PosInfo]) {
        let weak = self.weak;
        let done = |p: &PosInfo, inv: &Stamp, f: usize| p.inited && p.ret.t != OPEN && (p.ret.t == 0 || precedes(&p.ret, p.fiber, inv, f, weak));
        let lower = |inv: &Stamp, f: usize| pos.iter().take_while(|p| done(p, inv, f)).count();
        let upper = |ret: &Stamp, f: usize| pos.iter().take_while(|p| p.inited && !(p.inv.t != 0 && precedes(ret, f, &p.inv, p.fiber, weak))).count();
        for o in &self.obs {
            self.checks += 1;
            let who = format!("{} by thread {}", o.name, o.fiber);
            match o.what {
                What::Len(n) => {
                    let (lo, hi) = (lower(&o.inv, o.fiber), upper(&o.ret, o.fiber));
                    if n < lo || n > hi {
                        fail(LEN, || format!("{who} observed {n} elements, but {lo} leading elements were pushed before it started and at most {hi} could be pushed before it ended; {}", self.show_grows()));
                    }
                }
                What::Vis(i, true) => {
                    let hi = upper(&o.ret, o.fiber);
                    if i >= hi {
                        fail(LEN, || format!("{who} observed an element at {i} although at most {hi} leading elements could be pushed; {}", self.show_grows()));
                    }
                }
                What::Vis(i, false) | What::GcNone(i) => {
                    let lo = lower(&o.inv, o.fiber);
                    if i < lo && matches!(o.what, What::GcNone(_)) {
                        fail(LIN, || format!("{who} read nothing at {i} although {lo} leading elements were pushed before it started; {}", self.show_grows()));
                    }
                    if i < lo {
                        fail(LEN, || format!("{who} did not find the element at {i} although {lo} leading elements were pushed before it started; {}", self.show_grows()));
                    }
                }
                What::Cap(c) => {
                    let cap = self.cap_for.as_ref().unwrap();
                    let req = self.init.len() + self.grows.iter().filter(|g| !precedes(&o.ret, o.fiber, &g.inv, g.fiber, weak)).map(|g| g.n).sum::<usize>();
                    let max = self.cap0.max(cap(req)).min(self.max_cap);
                    let lo = lower(&o.inv, o.fiber);
                    let min = self.cap0.max(cap(lo)).min(self.max_cap);
                    if c > max || c < min {
                        fail(GROWTH, || format!("{who} observed the capacity {c} although {lo} elements were pushed before and at most {req} positions were requested, for which the capacity is {min}..{max}; {}", self.show_grows()));
                    }
                }
                What::Raw(i, r) => {
                    match r {
                        None => {
                            if pos.get(i).map(|p| done(p, &o.inv, o.fiber)).unwrap_or(false) {
                                fail(RAW, || format!("{who} did not find the value at {i} although it was pushed before it started; {}", self.show_grows()));
                            }
                        }
                        Some(id) => {
                            let ok = pos.get(i).map(|p| p.inited && p.id == id && !(p.inv.t != 0 && precedes(&o.ret, o.fiber, &p.inv, p.fiber, weak))).unwrap_or(false);
                            if !ok {
                                fail(RAW, || format!("{who} found value {id:#x} at {i}, which is not the value pushed there; {}", self.show_grows()));
                            }
                        }
                    }
                }
            }
        }
        // monotone
        for a in &self.obs {
            for b in &self.obs {
                if !precedes(&a.ret, a.fiber, &b.inv, b.fiber, weak) {
                    continue;
                }
                self.checks += 1;
                let seen = match a.what {
                    What::Len(n) => n,
                    What::Vis(i, true) => i + 1,
                    What::Cap(c) => {
                        if let What::Cap(d) = b.what {
                            if d < c {
                                fail(CAPA, || format!("capacity shrinks from {c} to {d}"));
                            }
                        }
                        continue;
                    }
                    _ => continue,
                };
                match b.what {
                    What::Len(m) if m < seen => fail(LEN, || format!("length shrinks: {} by thread {} observed {seen} elements, and later {} by thread {} observed {m}", a.name, a.fiber, b.name, b.fiber)),
                    What::Vis(i, false) | What::GcNone(i) | What::Raw(i, None) if i < seen => {
                        let kind = if matches!(b.what, What::Raw(..)) { RAW } else { LEN };
                        fail(kind, || format!("{} by thread {} observed {seen} elements, but later {} by thread {} did not find position {i}", a.name, a.fiber, b.name, b.fiber))
                    }
                    What::Cap(c) if c < seen => fail(CAPA, || format!("capacity {c} is reported after {seen} elements were observed")),
                    _ => {}
                }
            }
        }
        // iter_ref
        for r in &self.raw_seqs {
            self.checks += 1;
            let mut at = 0;
            for id in &r.ids {
                match (at..pos.len()).find(|p| pos[*p].inited && pos[*p].id == *id) {
                    Some(p) => {
                        let skipped = (at..p).find(|q| pos[*q].inited && pos[*q].ret.t != OPEN && (pos[*q].ret.t == 0 || precedes(&pos[*q].ret, pos[*q].fiber, &r.inv, r.fiber, weak)));
                        if let Some(q) = skipped {
                            fail(RAW, || format!("iter_ref by thread {} skips position {q} although it was pushed before: {:x?}", r.fiber, r.ids));
                        }
                        if pos[p].inv.t != 0 && precedes(&r.ret, r.fiber, &pos[p].inv, pos[p].fiber, weak) {
                            fail(RAW, || "iter_ref yields a value which is pushed later".to_string());
                        }
                        at = p + 1;
                    }
                    None => fail(RAW, || format!("iter_ref by thread {} yields values which are not pushed or not in the order of positions: {:x?}; {}", r.fiber, r.ids, self.show_grows())),
                }
            }
            if let Some(q) = (at..pos.len()).find(|q| done(&pos[*q], &r.inv, r.fiber)) {
                fail(RAW, || format!("iter_ref by thread {} ends before position {q} although it was pushed before: {:x?}", r.fiber, r.ids));
            }
        }
    }

    fn linear(&mut self, pos: &[PosInfo], kind: i32, prefix_only: bool) -> (usize, bool) {
        for (p, i) in pos.iter().enumerate() {
            if i.inited && p >= self.init.len() {
                self.subs.push(Sub { fiber: i.fiber, op: 999, name: "push", loc: p, loc2: p, act: Act::Init(i.id), inv: i.inv, ret: i.ret, optional: false });
            }
        }
        let _ = prefix_only;
        let end = stamp();
        for s in &mut self.subs {
            if s.ret.t == OPEN {
                s.ret = end;
            }
        }
        self.checks += self.subs.len() as u64;
        match lin::check(&self.subs, &self.init, self.weak) {
            lin::Verdict::Ok { contended, .. } => (contended, true),
            lin::Verdict::TooLarge => (0, false),
            lin::Verdict::Bad(g) => {
                fail(kind, || {
                    let mut g = g;
                    g.sort_by_key(|s| s.inv.t);
                    let t: String = g
                        .iter()
                        .map(|s| format!("\n  thread {} [{}..{}] {} @{}{}: {:x?}{}", s.fiber, s.inv.t, s.ret.t, s.name, s.loc, if s.loc2 != s.loc { format!("/{}", s.loc2) } else { String::new() }, s.act, if s.optional { " (optional)" } else { "" }))
                        .collect();
                    format!("no order of the following operations explains their results:{t}")
                });
                (0, true)
            }
        }
    }
}

// ------------------------------------------------------------------ user supplied iterators
pub struct It<T> {
    ids: std::vec::IntoIter<u64>,
    ended: bool,
    grow: usize,
    _p: std::marker::PhantomData<T>,
}
impl<T: Pay> Iterator for It<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if cb(Cb::Iter) {
            self.ended = true;
        }
        if self.ended {
            return None;
        }
        let id = self.ids.next()?;
        let g = self.grow;
        let v = T::mk(id);
        off(|| h().grows[g].ids.push(id));
        Some(v)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.ids.len();
        (n, Some(n))
    }
}
impl<T: Pay> ExactSizeIterator for It<T> {
    fn len(&self) -> usize {
        cb(Cb::IterLen);
        self.ids.len()
    }
}
pub struct IntoIt<T>(It<T>);
impl<T: Pay> IntoIterator for IntoIt<T> {
    type Item = T;
    type IntoIter = It<T>;
    fn into_iter(self) -> It<T> {
        cb(Cb::IntoIter);
        self.0
    }
}

// ------------------------------------------------------------------ interpreter

/// ids listed by the `Debug` output
pub fn parse_debug(s: &str) -> Vec<u64> {
    let s = s.trim_start_matches('[').trim_end_matches(']');
    if s.is_empty() {
        return vec![];
    }
    s.split(", ").map(|x| x.trim_start_matches(|c: char| !c.is_ascii_digit()).parse().unwrap_or(u64::MAX - 1)).collect()
}

struct Run<'a, T: Pay, P: Store<T>> {
    v: &'a ConcurrentVec<T, P>,
    /// indices of operations are shifted by this number
    off: usize,
}

/// the operation with shifted indices
fn shifted(op: &Op, off: u64) -> Op {
    let mut o = *op;
    match o[0] {
        GET..=GET_COPIED | INDEX..=EL_DEBUG | HOLD | GET_RAW | GET_REF | GET_RAW_MUT => {
            o[1] += off;
            if o[0] == EL_EQ_EL {
                o[2] += off;
            }
        }
        VSWAP => {
            o[1] += off;
            o[2] += off;
        }
        // start of the slice
        SL_SWAP => o[1] += off,
        EQ_SELF => o[3] += off,
        FILL..=EQ_ARR => {
            if o[2] == 0 {
                // the whole vec
            } else if o[1] == 2 {
                o[1] = 0;
                o[3] += off;
            } else {
                o[1] += off;
            }
        }
        SL_GET_RAW | SL_GET_REF | SL_ITER_REF => {
            o[2] += off;
            if o[0] != SL_ITER_REF {
                o[1] += off;
            }
        }
        LEN_GET | SPLIT_AT => o[1] += off,
        _ => {}
    }
    o
}

fn read_id<T: Pay>(name: &'static str, loc: usize, inv: Stamp) -> impl Fn(&T) {
    move |x: &T| {
        cb(Cb::Closure);
        let id = x.id();
        off(|| {
            h().sub(name, loc, Act::Read(id), inv);
        });
    }
}

impl<'a, T: Pay, P: Store<T>> Run<'a, T, P> {
    fn slice(&self, a: u64, n: u64) -> Option<(usize, usize, ConcurrentSlice<'a, T, P>)> {
        let inv = stamp();
        let l = on(|| self.v.len());
        let ret = stamp();
        h().obs("len", What::Len(l), inv, ret);
        let a = (a as usize).min(l);
        let b = (a + n as usize).min(l);
        let s = on(|| self.v.slice(a..b));
        let sl = on(|| s.len());
        if sl != b - a {
            fail(BULK, || format!("slice({a}..{b}) of a vec with at least {l} elements has length {sl}"));
        }
        Some((a, b - a, s))
    }
    fn elem(&self, i: usize, name: &'static str) -> Option<&'a ConcurrentElement<T>> {
        let inv = stamp();
        let e = on(|| self.v.get(i));
        let ret = stamp();
        h().obs(name, What::Vis(i, e.is_some()), inv, ret);
        if let Some(e) = e {
            h().see_addr(i, e as *const _ as usize, name);
        }
        e
    }
    fn reads(&self, name: &'static str, at: usize, ids: &[u64], inv: Stamp) {
        for (k, id) in ids.iter().enumerate() {
            h().sub(name, at + k, Act::Read(*id), inv);
        }
    }

    fn grow_begin(&self, op: usize, name: &'static str, n: usize, inv: Stamp) -> usize {
        h().grows.push(Grow { fiber: rt::cur(), op, name, begin: None, n, ids: vec![], ok: false, calls: 0, out_of_capacity: false, reserved: false, inv, ret: Stamp { t: OPEN, ..inv } });
        h().grows.len() - 1
    }
    fn grow_end(&self, g: usize, begin: usize) {
        let ret = stamp();
        let g = &mut h().grows[g];
        if let Some(b) = g.begin {
            h().checks += 1;
            if b != begin {
                fail(POS, || format!("{} called its function with position {b} but returned {begin}", g.name));
            }
        }
        g.begin = Some(begin);
        g.ok = true;
        g.ret = ret;
    }

    fn exec(&self, f: usize, k: usize, op: &Op) {
        let v = self.v;
        let inv = stamp();
        h().cur_op[f] = k;
        h().cur_inv[f] = Some(inv);
        let name = op_name(op[0]);
        let op = &shifted(op, self.off as u64);
        let (a, b, c) = (op[1] as usize, op[2] as usize, op[3] as usize);
        match op[0] {
            PUSH => {
                let id = T::norm(value_id(f, k, 0));
                let g = self.grow_begin(k, name, 1, inv);
                h().grows[g].ids.push(id);
                let i = on(|| v.push(T::mk(id)));
                self.grow_end(g, i);
            }
            PUSH_FOR_IDX => {
                let id = T::norm(value_id(f, k, 0));
                let g = self.grow_begin(k, name, 1, inv);
                let i = on(|| {
                    v.push_for_idx(|i| {
                        off(|| {
                            h().grows[g].begin = Some(i);
                            h().grows[g].calls += 1;
                            h().grows[g].reserved = true;
                        });
                        cb(Cb::Closure);
                        let x = T::mk(id);
                        off(|| h().grows[g].ids.push(id));
                        x
                    })
                });
                self.grow_end(g, i);
            }
            EXTEND | EXTEND_N | EXTEND_FOR_IDX => {
                let n = a;
                let ids: Vec<u64> = (0..n).map(|q| T::norm(value_id(f, k, q))).collect();
                let g = self.grow_begin(k, name, n, inv);
                let it = IntoIt(It { ids: ids.into_iter(), ended: false, grow: g, _p: std::marker::PhantomData::<T> });
                let i = match op[0] {
                    EXTEND => on(|| v.extend(it)),
                    EXTEND_N => on(|| v.extend_n_items(it, n)),
                    _ => on(|| {
                        v.extend_for_idx(
                            |i| {
                                off(|| {
                                    h().grows[g].begin = Some(i);
                            h().grows[g].calls += 1;
                                    h().grows[g].reserved = true;
                                });
                                cb(Cb::Closure);
                                it
                            },
                            n,
                        )
                    }),
                };
                self.grow_end(g, i);
            }
            VLEN => {
                let n = on(|| v.len());
                h().obs(name, What::Len(n), inv, stamp());
            }
            IS_EMPTY => {
                let e = on(|| v.is_empty());
                h().obs(name, What::Vis(0, !e), inv, stamp());
            }
            CAPACITY => {
                let n = on(|| v.capacity());
                h().obs(name, What::Cap(n), inv, stamp());
            }
            GET => {
                if let Some(e) = self.elem(a, name) {
                    let inv = stamp();
                    let id = on(|| e.map(|x| x.id()));
                    h().sub(name, a, Act::Read(id), inv);
                }
            }
            INDEX => {
                let l = on(|| v.len());
                h().obs(name, What::Len(l), inv, stamp());
                let inv = stamp();
                let e = rt::try_on(|| &v[a]).ok();
                h().obs(name, What::Vis(a, e.is_some()), inv, stamp());
                if let Some(e) = e {
                    h().see_addr(a, e as *const _ as usize, name);
                    let inv = stamp();
                    let id = on(|| e.map(|x| x.id()));
                    h().sub(name, a, Act::Read(id), inv);
                }
            }
            GET_CLONED | GET_COPIED => {
                let r = on(|| {
                    let x = if op[0] == GET_CLONED { v.get_cloned(a) } else { T::vec_get_copied(v, a) };
                    x.as_ref().map(|x| x.id())
                });
                match r {
                    Some(id) => {
                        h().sub(name, a, Act::Read(id), inv);
                    }
                    None => h().obs(name, What::GcNone(a), inv, stamp()),
                }
            }
            LEN_GET => {
                let n = on(|| v.len());
                let ret = stamp();
                h().obs(name, What::Len(n), inv, ret);
                if n > 0 {
                    let i = if a % 2 == 0 { n - 1 } else { a % n };
                    match self.elem(i, name) {
                        Some(e) => {
                            let inv = stamp();
                            let id = on(|| e.map(|x| x.id()));
                            h().sub(name, i, Act::Read(id), inv);
                        }
                        None => fail(LEN, || format!("len() returned {n} but get({i}) returned None afterwards")),
                    }
                }
                let cap = on(|| v.capacity());
                h().checks += 1;
                if n > cap {
                    fail(LEN, || format!("len() returned {n} although capacity() is {cap}"));
                }
            }
            EL_CLONED | EL_COPIED | EL_MAP | EL_REPLACE | EL_SET | EL_UPDATE | EL_EQ_VAL | EL_DEBUG | HOLD => {
                let Some(e) = self.elem(a, name) else { return };
                let inv = stamp();
                let id = T::norm(value_id(f, k, 0));
                match op[0] {
                    EL_CLONED | EL_COPIED => {
                        let r = on(|| {
                            let x = if op[0] == EL_CLONED { e.cloned() } else { T::copied(e) };
                            x.id()
                        });
                        h().sub(name, a, Act::Read(r), inv);
                    }
                    EL_MAP => {
                        let k = h().subs.len();
                        on(|| e.map(read_id(name, a, inv)));
                        self.called(name, f, k);
                    }
                    EL_REPLACE => {
                        let old = on(|| {
                            let x = e.replace(T::mk(id));
                            x.id()
                        });
                        h().sub(name, a, Act::Replace(old, id), inv);
                    }
                    EL_SET => {
                        on(|| e.set(T::mk(id)));
                        h().sub(name, a, Act::Write(id), inv);
                    }
                    EL_UPDATE => {
                        let k = h().subs.len();
                        on(|| {
                            e.update(|x| {
                                cb(Cb::Closure);
                                let old = x.id();
                                x.set(id);
                                off(|| {
                                    h().sub(name, a, Act::Replace(old, id), inv);
                                });
                                cb(Cb::Closure);
                            })
                        });
                        self.called(name, f, k);
                    }
                    EL_EQ_VAL => {
                        let w = T::norm(self.guess(b));
                        let r = on(|| {
                            let w = T::mk(w);
                            e == &w
                        });
                        h().sub(name, a, Act::Pred(w, r), inv);
                    }
                    EL_DEBUG => {
                        let id = on(|| {
                            let s = format!("{:?}", e);
                            off(|| parse_debug(&s).first().copied().unwrap_or(u64::MAX - 1))
                        });
                        h().sub(name, a, Act::Read(if T::NAME == "zst" { 0 } else { id }), inv);
                    }
                    _ => {
                        // keep the reference while others grow the vector
                        for _ in 0..b % 4 + 1 {
                            rt::yield_now();
                        }
                        let inv = stamp();
                        let id = on(|| e.map(|x| x.id()));
                        h().sub(name, a, Act::Read(id), inv);
                        h().close();
                        self.elem(a, name);
                    }
                }
            }
            EL_EQ_EL => {
                let Some(x) = self.elem(a, name) else { return };
                let Some(y) = self.elem(b, name) else { return };
                let inv = stamp();
                let r = on(|| x == y);
                h().sub2(name, a, b, Act::EqPair(r), inv);
            }
            VSWAP => {
                let r = on(|| v.swap(a, b));
                if r {
                    h().sub2(name, a, b, Act::Swap, inv);
                    h().obs(name, What::Vis(a, true), inv, stamp());
                    h().obs(name, What::Vis(b, true), inv, stamp());
                } else {
                    h().obs(name, What::Vis(a.max(b), false), inv, stamp());
                }
            }
            SL_SWAP => {
                let Some((s0, n, s)) = self.slice(a as u64, b as u64) else { return };
                let inv = stamp();
                let (i, j) = (c % 8, op[4] as usize % 8);
                let r = on(|| s.swap(i, j));
                h().checks += 1;
                if r != (i < n && j < n) {
                    fail(SWAP, || format!("swap({i}, {j}) on a slice of length {n} returned {r}"));
                }
                if r {
                    h().sub2(name, s0 + i, s0 + j, Act::Swap, inv);
                }
            }
            FILL => {
                let id = T::norm(value_id(f, k, 0));
                if b == 0 {
                    // the length is not known: positions which might or might not be covered are optional
                    let lo = on(|| v.len());
                    h().obs(name, What::Len(lo), inv, stamp());
                    let inv = stamp();
                    on(|| v.fill(T::mk(id)));
                    let hi = on(|| v.len());
                    for p in 0..hi {
                        let q = h().sub(name, p, Act::Write(id), inv);
                        h().subs[q].optional = p >= lo;
                    }
                } else {
                    let Some((s0, n, s)) = self.slice(a as u64, c as u64) else { return };
                    let inv = stamp();
                    on(|| s.fill(T::mk(id)));
                    for p in 0..n {
                        h().sub(name, s0 + p, Act::Write(id), inv);
                    }
                }
            }
            FILL_WITH => {
                let mut next = 0usize;
                let (s0, sl) = if b == 0 { (0, None) } else { self.slice(a as u64, c as u64).map(|(x, n, s)| (x, Some((n, s)))).unwrap() };
                let fun = |i: usize| {
                    cb(Cb::Closure);
                    off(|| {
                        h().checks += 1;
                        if i != next {
                            fail(BULK, || format!("fill_with called its function with {i} instead of {next}"));
                        }
                        next += 1;
                        h().close();
                    });
                    let id = T::norm(value_id(f, k, i));
                    let x = T::mk(id);
                    off(|| {
                        h().sub(name, s0 + i, Act::Write(id), stamp());
                    });
                    x
                };
                match &sl {
                    None => on(|| v.fill_with(fun)),
                    Some((_, s)) => on(|| s.fill_with(fun)),
                }
                match &sl {
                    None => h().obs(name, What::Len(next), inv, stamp()),
                    Some((n, _)) => {
                        h().checks += 1;
                        if next != *n {
                            fail(BULK, || format!("fill_with of a slice of length {n} called its function {next} times"));
                        }
                    }
                }
            }
            ITER..=EQ_ARR => self.bulk(f, k, op, inv),
            SLICES | CHUNKS | SPLIT_AT | SPLIT_FIRST | SPLIT_LAST => self.slices(op, inv),
            GET_RAW | GET_REF | GET_RAW_MUT | SL_GET_RAW | SL_GET_REF => {
                let r: Option<(usize, u64)> = match op[0] {
                    GET_RAW => on(|| v.get_raw(a).map(|p| (p as usize, unsafe { &*p }.id()))),
                    GET_REF => on(|| unsafe { v.get_ref(a) }.map(|p| (p as *const T as usize, p.id()))),
                    GET_RAW_MUT => on(|| v.get_raw_mut(a).map(|p| (p as usize, unsafe { &*p }.id()))),
                    _ => {
                        let Some((s0, n, s)) = self.slice(0, b as u64 + 1) else { return };
                        let inv = stamp();
                        let r = match op[0] {
                            SL_GET_RAW => on(|| s.get_raw(a).map(|p| (p as usize, unsafe { &*p }.id()))),
                            _ => on(|| unsafe { s.get_ref(a) }.map(|p| (p as *const T as usize, p.id()))),
                        };
                        h().checks += 1;
                        if r.is_some() != (a < n) {
                            fail(RAW, || format!("{name}({a}) on a slice of length {n} returned {}", if r.is_some() { "a value" } else { "None" }));
                        }
                        if let Some((p, id)) = r {
                            h().see_raw(s0 + a, p, name);
                            h().obs(name, What::Raw(s0 + a, Some(id)), inv, stamp());
                        }
                        return;
                    }
                };
                if let Some((p, _)) = r {
                    h().see_raw(a, p, name);
                }
                h().obs(name, What::Raw(a, r.map(|x| x.1)), inv, stamp());
            }
            ITER_REF | SL_ITER_REF => {
                let sl = if op[0] == SL_ITER_REF { self.slice(a as u64, b as u64) } else { None };
                let inv = stamp();
                let mut ids: Vec<(usize, u64)> = vec![];
                on(|| {
                    let it: Box<dyn Iterator<Item = &T>> = off(|| -> Box<dyn Iterator<Item = &T>> {
                        match &sl {
                            None => Box::new(on(|| unsafe { v.iter_ref() })),
                            Some((_, _, s)) => Box::new(on(|| unsafe { s.iter_ref() })),
                        }
                    });
                    for x in it {
                        let id = x.id();
                        off(|| ids.push((x as *const T as usize, id)));
                        cb(Cb::Closure);
                    }
                });
                let ret = stamp();
                if let Some((s0, n, _)) = sl {
                    h().checks += 1;
                    if ids.len() != n {
                        fail(RAW, || format!("iter_ref of a slice of length {n} yields {} values", ids.len()));
                    }
                    for (q, (p, id)) in ids.iter().enumerate() {
                        h().see_raw(s0 + q, *p, name);
                        h().obs(name, What::Raw(s0 + q, Some(*id)), inv, ret);
                    }
                } else {
                    h().raw_seqs.push(RawSeq { fiber: f, ids: ids.iter().map(|x| x.1).collect(), inv, ret });
                }
            }
            WAIT => {
                let u = a;
                if u != f && u >= 1 {
                    unsafe { rt::rt_wait_ops(u as i32, b as u32) };
                }
            }
            YIELD => rt::yield_now(),
            _ => {}
        }
    }

    /// the function of an element operation is called once
    fn called(&self, name: &str, f: usize, k: usize) {
        let n = h().subs[k..].iter().filter(|s| s.fiber == f).count();
        h().checks += 1;
        if n != 1 {
            fail(CALLS, || format!("{name} by thread {f} called its function {n} times"));
        }
    }

    /// a value to compare with: initial values or values written by the first operations of some thread
    fn guess(&self, b: usize) -> u64 {
        if b < 16 {
            init_id(self.off + b)
        } else {
            value_id(b / 16 % 5, b / 128 % 4, 0)
        }
    }

    fn bulk(&self, f: usize, k: usize, op: &Op, inv: Stamp) {
        let v = self.v;
        let name = op_name(op[0]);
        let (a, b, c) = (op[1], op[2], op[3]);
        let sl = if b == 0 { None } else { self.slice(a, c) };
        let s0 = sl.as_ref().map(|x| x.0).unwrap_or(0);
        let inv = if sl.is_some() { stamp() } else { inv };
        // number of elements covered, if complete
        let mut count: Option<usize> = None;
        match op[0] {
            ITER | FILTER => {
                let mut n = 0;
                on(|| {
                    let pred = |x: &T| {
                        cb(Cb::Closure);
                        let id = x.id();
                        let r = (id / 4096) % 3 != 0;
                        off(|| {
                            h().close();
                            h().sub(name, s0 + n, Act::Read(id), inv);
                            n += 1;
                        });
                        r
                    };
                    if op[0] == FILTER {
                        let mut yes = 0;
                        let mut pred = pred;
                        let total = &mut yes;
                        let fun = |x: &T| {
                            let r = pred(x);
                            if r {
                                *total += 1;
                            }
                            r
                        };
                        let got = match &sl {
                            None => v.filter(fun).count(),
                            Some((_, _, s)) => s.filter(fun).count(),
                        };
                        if got != yes {
                            fail(BULK, || format!("filter yields {got} elements although its predicate accepted {yes}"));
                        }
                    } else {
                        let it: Box<dyn Iterator<Item = &ConcurrentElement<T>>> = off(|| -> Box<dyn Iterator<Item = &ConcurrentElement<T>>> {
                            match &sl {
                                None => Box::new(on(|| v.iter())),
                                Some((_, _, s)) => Box::new(on(|| s.iter())),
                            }
                        });
                        let mut p = s0;
                        for e in it {
                            off(|| {
                                h().see_addr(p, e as *const _ as usize, name);
                                h().close();
                            });
                            p += 1;
                            let inv = off(stamp);
                            let id = e.map(|x| x.id());
                            cb(Cb::Closure);
                            off(|| {
                                h().sub(name, p - 1, Act::Read(id), inv);
                            });
                        }
                        n = p - s0;
                    }
                });
                count = Some(n);
            }
            ITER_CLONED | CLONE_TO_VEC | CLONE => {
                let mut ids = vec![];
                if op[0] == CLONE {
                    if !P::DEFAULT {
                        return;
                    }
                    on(|| {
                        let w = P::try_clone(v).unwrap();
                        for x in w {
                            let id = x.id();
                            off(|| ids.push(id));
                        }
                    });
                    self.reads(name, 0, &ids, inv);
                    h().obs(name, What::Len(ids.len()), inv, stamp());
                    return;
                }
                on(|| {
                    if op[0] == ITER_CLONED {
                        let it: Box<dyn Iterator<Item = T>> = off(|| -> Box<dyn Iterator<Item = T>> {
                            match &sl {
                                None => Box::new(on(|| v.iter_cloned())),
                                Some((_, _, s)) => Box::new(on(|| s.iter_cloned())),
                            }
                        });
                        for x in it {
                            let id = x.id();
                            off(|| ids.push(id));
                            cb(Cb::Closure);
                        }
                    } else {
                        let w = match &sl {
                            None => v.clone_to_vec(),
                            Some((_, _, s)) => s.clone_to_vec(),
                        };
                        for x in &w {
                            let id = x.id();
                            off(|| ids.push(id));
                        }
                    }
                });
                self.reads(name, s0, &ids, inv);
                count = Some(ids.len());
            }
            MAP | FOLD => {
                let mut n = 0;
                let mut out: Vec<u64> = vec![];
                on(|| {
                    let mut fun = |x: &T| {
                        cb(Cb::Closure);
                        let id = x.id();
                        off(|| {
                            h().close();
                            h().sub(name, s0 + n, Act::Read(id), inv);
                            n += 1;
                        });
                        id
                    };
                    if op[0] == MAP {
                        let it: Box<dyn Iterator<Item = u64> + '_> = off(|| -> Box<dyn Iterator<Item = u64> + '_> {
                            match &sl {
                                None => Box::new(on(|| v.map(fun))),
                                Some((_, _, s)) => Box::new(on(|| s.map(fun))),
                            }
                        });
                        for x in it {
                            off(|| out.push(x));
                        }
                    } else {
                        let ff = |(cnt, sum): (u64, u64), x: &T| (cnt + 1, sum ^ fun(x));
                        let (cnt, _) = match &sl {
                            None => v.fold((0, 0), ff),
                            Some((_, _, s)) => s.fold((0, 0), ff),
                        };
                        for _ in 0..cnt {
                            off(|| out.push(0));
                        }
                    }
                });
                if out.len() != n {
                    fail(BULK, || format!("{name} of {n} elements yields {} values", out.len()));
                }
                count = Some(n);
            }
            REDUCE => {
                let mut n = 0;
                let mut agg = 0u64;
                let r = on(|| {
                    let fun = |x: &T, y: &T| {
                        cb(Cb::Closure);
                        let (xi, yi) = (x.id(), y.id());
                        let z = T::norm((xi.wrapping_mul(31) ^ yi.wrapping_mul(7)) & 0xFFFF_FFFF_FFFF);
                        off(|| {
                            if n == 0 {
                                h().sub(name, s0, Act::Read(xi), inv);
                                n = 1;
                            } else if xi != agg {
                                fail(BULK, || format!("reduce passes {xi:#x} instead of the last aggregate {agg:#x}"));
                            }
                            h().close();
                            h().sub(name, s0 + n, Act::Read(yi), inv);
                            n += 1;
                            agg = z;
                        });
                        T::mk(z)
                    };
                    let r = match &sl {
                        None => v.reduce(fun),
                        Some((_, _, s)) => s.reduce(fun),
                    };
                    r.as_ref().map(|x| x.id())
                });
                match r {
                    None => count = Some(0),
                    Some(id) if n == 0 => {
                        h().sub(name, s0, Act::Read(id), inv);
                        count = Some(1);
                    }
                    Some(id) => {
                        if id != agg {
                            fail(BULK, || format!("reduce returns {id:#x} instead of the last aggregate {agg:#x}"));
                        }
                        count = Some(n);
                    }
                }
            }
            INDEX_OF | CONTAINS => {
                let w = T::norm(self.guess(op[4] as usize));
                if op[0] == INDEX_OF {
                    let r = on(|| {
                        let w = T::mk(w);
                        match &sl {
                            None => v.index_of(&w),
                            Some((_, _, s)) => s.index_of(&w),
                        }
                    });
                    let lo = match r {
                        Some(i) => {
                            if let Some((_, n, _)) = &sl {
                                if i >= *n {
                                    fail(BULK, || format!("index_of on a slice of length {n} returns {i}"));
                                }
                            }
                            h().sub(name, s0 + i, Act::Pred(w, true), inv);
                            i
                        }
                        None => match &sl {
                            Some((_, n, _)) => *n,
                            None => h().lower(&inv, f).0,
                        },
                    };
                    for p in 0..lo {
                        h().sub(name, s0 + p, Act::Pred(w, false), inv);
                    }
                } else {
                    let r = on(|| {
                        let w = T::mk(w);
                        match &sl {
                            None => v.contains(&w),
                            Some((_, _, s)) => s.contains(&w),
                        }
                    });
                    if !r {
                        let lo = match &sl {
                            Some((_, n, _)) => *n,
                            None => h().lower(&inv, f).0,
                        };
                        for p in 0..lo {
                            h().sub(name, s0 + p, Act::Pred(w, false), inv);
                        }
                    } else {
                        h().contains_true.push((f, k, w));
                    }
                }
                return;
            }
            DEBUG => {
                let mut ids = vec![];
                on(|| {
                    let s = match &sl {
                        None => format!("{:?}", v),
                        Some((_, _, s)) => format!("{:?}", s),
                    };
                    off(|| ids = parse_debug(&s));
                });
                if T::NAME == "zst" {
                    ids.iter_mut().for_each(|x| *x = 0);
                }
                self.reads(name, s0, &ids, inv);
                count = Some(ids.len());
            }
            EQ_SELF => {
                if !P::DEFAULT {
                    return;
                }
                let Some((s0, n, s)) = self.slice(a, c) else { return };
                let inv = stamp();
                let r = on(|| match b % 3 {
                    0 => P::eq_vs(v, &s),
                    1 => P::eq_sv(&s, v),
                    _ => P::eq_ss(&s, &s),
                })
                .unwrap();
                if r {
                    // every compared pair was equal at some point
                    for p in 0..n {
                        let q = if b % 3 == 2 { s0 + p } else { p };
                        h().sub2(name, q, s0 + p, Act::EqPair(true), inv);
                    }
                    if b % 3 != 2 {
                        h().obs(name, What::Len(n), inv, stamp());
                    }
                }
                return;
            }
            EQ_ARR => {
                if !P::DEFAULT {
                    return;
                }
                let n = if self.off > 0 && op[4] % 4 == 0 { sl.as_ref().map(|x| x.1).unwrap_or(h().init.len()) } else { c as usize % 5 };
                let ids: Vec<u64> = (0..n).map(|i| T::norm(if self.off > 0 { init_id(s0 + i) } else { self.guess((op[4] as usize + s0 + i) % 16) })).collect();
                let r = on(|| {
                    let arr: Vec<T> = ids.iter().map(|x| T::mk(*x)).collect();
                    match &sl {
                        None => P::eq_va(v, &arr),
                        Some((_, _, s)) => P::eq_sa(s, &arr),
                    }
                })
                .unwrap();
                if r {
                    for (p, id) in ids.iter().enumerate() {
                        h().sub(name, s0 + p, Act::Pred(*id, true), inv);
                    }
                    count = Some(n);
                } else {
                    return;
                }
            }
            _ => {}
        }
        if let Some(n) = count {
            match &sl {
                None => h().obs(name, What::Len(n), inv, stamp()),
                Some((_, m, _)) => {
                    h().checks += 1;
                    if n != *m {
                        fail(BULK, || format!("{name} on a slice of length {m} covers {n} elements"));
                    }
                }
            }
        }
        let _ = (f, k);
    }

    fn slices(&self, op: &Op, inv: Stamp) {
        let v = self.v;
        let name = op_name(op[0]);
        let (a, b, c) = (op[1] as usize, op[2] as usize, op[3] as usize);
        match op[0] {
            SLICES => {
                let s = match b % 3 {
                    0 => on(|| v.as_slice()),
                    1 => on(|| v.slice(..)),
                    _ => on(|| v.slice(0..)),
                };
                let n = on(|| s.len());
                h().obs(name, What::Len(n), inv, stamp());
                for i in [0, n / 2, n.wrapping_sub(1), n] {
                    let e = on(|| s.get(i));
                    h().checks += 1;
                    if e.is_some() != (i < n) {
                        fail(BULK, || format!("get({i}) on a slice of length {n} returned {}", if e.is_some() { "an element" } else { "None" }));
                    }
                    if let Some(e) = e {
                        h().see_addr(i, e as *const _ as usize, name);
                        let inv = stamp();
                        let id = on(|| {
                            let x = s.get_cloned(i).expect("get_cloned within the slice");
                            x.id()
                        });
                        h().sub(name, i, Act::Read(id), inv);
                    }
                }
            }
            CHUNKS => {
                let size = if self.off > 0 && c % 2 == 0 { self.off / 2 + a % 4 } else { a % 4 + 1 };
                let mut total = 0;
                let mut lens = vec![];
                on(|| {
                    let it = v.chunks(size);
                    let announced = it.len();
                    for s in it {
                        let l = s.len();
                        for i in 0..l {
                            let p = s.get(i).map(|e| e as *const _ as usize);
                            off(|| match p {
                                Some(p) => h().see_addr(total + i, p, name),
                                None => fail(BULK, || format!("get({i}) on a chunk of length {l} returned None")),
                            });
                        }
                        total += l;
                        off(|| lens.push(l));
                    }
                    if announced != lens.len() {
                        fail(BULK, || format!("chunks announced {announced} chunks and yielded {}", lens.len()));
                    }
                });
                h().checks += 1;
                if lens.iter().rev().skip(1).any(|l| *l != size) || lens.last().map(|l| *l > size || *l == 0).unwrap_or(false) {
                    fail(BULK, || format!("chunks({size}) yields chunks of lengths {lens:?}"));
                }
                h().obs(name, What::Len(total), inv, stamp());
            }
            SPLIT_AT => {
                let l = on(|| v.len());
                h().obs(name, What::Len(l), inv, stamp());
                let mid = if l == 0 { 0 } else { a % (l + 1) };
                let (x, y) = on(|| v.split_at(mid));
                let (m, n) = (x.len(), y.len());
                h().checks += 1;
                if m != mid {
                    fail(BULK, || format!("left part of split_at({mid}) has length {m}"));
                }
                h().obs(name, What::Len(m + n), inv, stamp());
                if let Some(e) = on(|| y.get(0)) {
                    h().see_addr(mid, e as *const _ as usize, name);
                }
            }
            SPLIT_FIRST => match on(|| v.split_first()) {
                None => h().obs(name, What::Vis(0, false), inv, stamp()),
                Some((e, s)) => {
                    h().see_addr(0, e as *const _ as usize, name);
                    let n = on(|| s.len());
                    h().obs(name, What::Len(n + 1), inv, stamp());
                    if let Some(e) = on(|| s.get(0)) {
                        h().see_addr(1, e as *const _ as usize, name);
                    }
                }
            },
            _ => match on(|| v.split_last()) {
                None => h().obs(name, What::Vis(0, false), inv, stamp()),
                Some((e, s)) => {
                    let n = on(|| s.len());
                    h().see_addr(n, e as *const _ as usize, name);
                    h().obs(name, What::Len(n + 1), inv, stamp());
                    let inv = stamp();
                    let id = on(|| e.map(|x| x.id()));
                    h().sub(name, n, Act::Read(id), inv);
                }
            },
        }
    }

    fn step(&self, f: usize, k: usize, op: &Op) {
        let n_grow = h().grows.len();
        let mark_subs = h().subs.len();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.exec(f, k, op)));
        off(|| {
            let ret = h().close();
            if let Err(e) = r {
                let c = if e.is::<rt::Injected>() {
                    Caught::Injected
                } else {
                    Caught::Other(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
                };
                on(|| drop(e));
                let name = op_name(op[0]);
                let c = match c {
                    // the iterator of this call was too short
                    Caught::Other(_) if op[0] <= EXTEND_N && plan_short() && plan_fiber() == f && h().injected.is_empty() => Caught::Injected,
                    c => c,
                };
                match c {
                    Caught::Injected => {
                        h().injected.push((f, k));
                        for s in &mut h().subs[mark_subs..] {
                            if s.fiber == f && s.op == k && matches!(s.act, Act::Replace(..) | Act::Write(_)) {
                                s.optional = true;
                            }
                        }
                        if op[0] == FILL {
                            // unknown progress
                            let inv = h().cur_inv[f].unwrap();
                            let id = T::norm(value_id(f, k, 0));
                            for p in 0..self.off + 32 {
                                if on(|| self.v.get(p).is_some()) {
                                    let q = h().sub(name, p, Act::Write(id), inv);
                                    h().subs[q].optional = true;
                                }
                            }
                            h().close();
                        }
                    }
                    Caught::Other(m) => {
                        if op[0] <= EXTEND_N {
                            // judged against the capacity afterwards
                            for g in &mut h().grows[n_grow..] {
                                if g.fiber == f && g.op == k {
                                    g.out_of_capacity = true;
                                }
                            }
                            h().fatal_panics.push(format!("{name}: {m}"));
                        } else {
                            fail(rt::K_ORACLE, || format!("{name}{:?} of thread {f} panicked: {m}", &op[1..]));
                        }
                    }
                }
                for g in &mut h().grows[n_grow..] {
                    if g.fiber == f && g.op == k {
                        g.ret = ret;
                    }
                }
            }
        });
    }
}

pub struct RawSeq {
    fiber: usize,
    ids: Vec<u64>,
    inv: Stamp,
    ret: Stamp,
}

// ------------------------------------------------------------------ running a case

pub fn params(c: &Case) -> rt::Params {
    rt::Params {
        seed: c.sched[0],
        policy: c.sched[1] as u32,
        sw_den: c.sched[2] as u32,
        stale_den: c.sched[3] as u32,
        n_pct: c.sched[4] as u32,
        pct_len: c.sched[5] as u32,
        soft_stall: c.cfg[C_SOFT] as u32,
        replay: c.replay as u32,
        race_on: c.cfg[C_RACE] as u32,
        ll_limit: c.cfg[C_LL] * (1 + scale_of(c) / 16),
        budget: 4_000_000 * (1 + 3 * c.cfg[C_SOFT] + c.cfg[C_LL] / 100_000 * 4) * c.cfg.get(C_SCALE).copied().unwrap_or(0).max(1) * (1 + scale_of(c) / 64),
    }
}
pub fn begin_case(c: &Case) {
    let p = params(c);
    unsafe {
        rt::rt_set_on(0);
        rt::rt_case_begin(&p, c.sw.as_ptr(), c.sw.len(), c.st.as_ptr(), c.st.len());
    }
    reset_case();
}
/// number of elements of large programs
fn scale_of(c: &Case) -> u64 {
    match offset(c) {
        0 => 0,
        o => o as u64 + c.threads.iter().flatten().filter(|o| matches!(o[0], EXTEND | EXTEND_N | EXTEND_FOR_IDX)).map(|o| o[1]).sum::<u64>(),
    }
}
/// see C_OFF
fn offset(c: &Case) -> usize {
    c.cfg.get(C_OFF).copied().unwrap_or(0) as usize
}
pub fn store_cfg(c: &Case) -> StoreCfg {
    let (o, exp) = (offset(c), c.cfg[C_EXP] as usize);
    StoreCfg { exp, frags: c.cfg[C_FRAGS] as usize + o.div_ceil(1 << exp), cap: c.cfg[C_CAP] as usize + o }
}

pub fn run(c: &Case) -> Outcome {
    match c.cfg[C_COMBO] {
        0 => run_tp::<Tr, Dbl<Tr>>(c),
        1 => run_tp::<Tr, Lin<Tr>>(c),
        2 => run_tp::<Tr, Fix<Tr>>(c),
        3 => run_tp::<P2, Dbl<P2>>(c),
        4 => run_tp::<Big, Fix<Big>>(c),
        _ => run_tp::<Z, Lin<Z>>(c),
    }
}

/// classes of a case
pub const CL_CONTENDED: u64 = 0;
pub const CL_OVERLAP_GROW: u64 = 1;
pub const CL_GREW: u64 = 2;
pub const CL_WEAK: u64 = 3;
pub const CL_INJECTED: u64 = 4;
pub const CL_STALLED: u64 = 5;
pub const CL_OVERFLOW: u64 = 6;
pub const CL_HOLE: u64 = 7;
pub const CL_PARTIAL_LEN: u64 = 8;
pub const CL_LIN_TOO_LARGE: u64 = 9;
pub const CL_PCT: u64 = 10;
pub const CL_RAW_OVERLAP: u64 = 11;
pub const CL_CAS_FAIL: u64 = 12;
pub const CLASSES: &[&str] = &[
    "an element's history has reads and writes of several threads",
    "growth calls of several threads overlap in time",
    "capacity grew while other threads were running",
    "a load returned a stale value permitted by its memory order",
    "a panic was injected into user code",
    "a thread was suspended inside user code until no other thread could continue",
    "growth beyond the maximum capacity failed",
    "a position was left without a value",
    "a length was observed while pushes were in progress",
    "element histories too large to be searched (not judged)",
    "priority based schedule",
    "an unsafe read overlapped with a growth call",
    "a compare-exchange failed",
];

/// The maximum capacity belongs to the growth strategy and to the capacity limit.
pub fn max_cap_kind() -> i32 {
    if driver::enabled(GROWTH) {
        GROWTH
    } else {
        CAPA
    }
}

fn run_tp<T: Pay, P: Store<T>>(c: &Case) -> Outcome {
    driver::only(None);
    begin_case(c);
    let sc = store_cfg(c);
    let weak = c.sched[3] != 0;
    unsafe { HIST = Some(Hist::new(weak)) };
    let n0 = c.cfg[C_INIT] as usize + offset(c);
    let init: Vec<u64> = (0..n0).map(|i| T::norm(init_id(i))).collect();
    h().init = init.clone();
    let max_cap = P::max_cap(&sc);
    // on the heap, so that accesses to its fields are checked
    let v: Box<ConcurrentVec<T, P>> = on(|| Box::new(P::build(&sc)));
    let m = on(|| v.maximum_capacity());
    if m < max_cap.min(1 << 32) || m != max_cap && P::NAME != "split-doubling" {
        fail(max_cap_kind(), || format!("a new vec reports maximum capacity {m} instead of {max_cap}"));
    }
    if n0 > 0 {
        let it = IntoIt(It { ids: init.clone().into_iter(), ended: false, grow: 0, _p: std::marker::PhantomData::<T> });
        h().grows.push(Grow { fiber: 0, op: 0, name: "init", begin: None, n: 0, ids: vec![], ok: true, calls: 0, out_of_capacity: false, reserved: true, inv: stamp(), ret: stamp() });
        on(|| v.extend(it));
        h().grows.clear();
    }
    let cap0 = on(|| v.capacity());
    if cap0 > P::cap_for(&sc, n0.max(1)) {
        fail(GROWTH, || format!("a vec of {n0} elements has capacity {cap0}"));
    }
    h().cap0 = cap0;
    h().max_cap = max_cap;
    h().cap_for = Some(Box::new(move |n| P::cap_for(&sc, n)));
    let run = Run { v: &v, off: offset(c) };
    // the main thread's own operations
    for (k, op) in c.threads[0].iter().enumerate() {
        unsafe { rt::rt_op_begin() };
        run.step(0, k, op);
    }
    set_plan(Plan { mask: c.cfg[C_MASK] as u32, fiber: c.cfg[C_FIBER] as u32, at: c.cfg[C_AT], action: c.cfg[C_ACT] as u32, yields: c.cfg[C_YIELDS] as u32 });
    let nt = c.threads.len() - 1;
    if nt > 0 {
        rt::run_fibers(nt, &|f| {
            for (k, op) in c.threads[f].iter().enumerate() {
                unsafe { rt::rt_op_begin() };
                run.step(f, k, op);
                unsafe { rt::rt_op_done() };
            }
        });
    }
    let injected_plan = plan_fired() > 0;
    set_plan(Plan::default());
    unsafe { rt::rt_op_begin() };

    // what the single remaining owner sees
    let grew = on(|| v.capacity()) > cap0;
    let pos = h().positions(max_cap);
    let total_requested = n0 + h().grows.iter().map(|g| g.n).sum::<usize>();
    let overflow = h().grows.iter().any(|g| g.out_of_capacity);
    if overflow && total_requested <= max_cap {
        fail(CAPA, || format!("a growth call panicked although {total_requested} elements fit into the maximum capacity {max_cap}: {:?}", h().fatal_panics));
    }
    if c.prop == "C11" && !injected_plan {
        driver::only(Some(&[]));
    }
    if c.prop == "C10" && !overflow {
        driver::only(Some(&[CAPA]));
    }
    let only_pushes = h().grows.iter().all(|g| g.n <= 1);
    let lost: usize = h().grows.iter().filter(|g| !g.ok && !g.out_of_capacity).map(|g| g.n).sum();
    let hole = lost > 0 || pos.iter().any(|p| !p.inited);
    let visible = pos.iter().take_while(|p| p.inited).count();
    h().cur_op[0] = 1000;
    let inv = stamp();
    let cap = on(|| v.capacity());
    h().obs("capacity", What::Cap(cap), inv, stamp());
    if !overflow && !hole && lost == 0 {
        let e = cap0.max(P::cap_for(&sc, total_requested));
        h().checks += 1;
        if cap != e {
            fail(GROWTH, || format!("the capacity is {cap} instead of {e} after {total_requested} positions were requested; {}", h().show_grows()));
        }
    }
    let inv = stamp();
    let l = on(|| v.len());
    h().obs("len", What::Len(l), inv, stamp());
    if overflow && only_pushes && total_requested > max_cap && !c.threads.is_empty() && c.cfg[C_ACT] == 0 {
        h().checks += 1;
        if l != max_cap {
            fail(CAPA, || format!("{total_requested} elements are pushed to a vec of maximum capacity {max_cap}: its length is {l}; {}", h().show_grows()));
        }
    }
    let inv = stamp();
    let fin: Vec<u64> = {
        let mut ids = vec![];
        on(|| {
            for x in v.iter_cloned() {
                let id = x.id();
                off(|| ids.push(id));
            }
        });
        ids
    };
    h().obs("iter_cloned", What::Len(fin.len()), inv, stamp());
    for (p, id) in fin.iter().enumerate() {
        h().sub("final", p, Act::Read(*id), inv);
    }
    h().close();
    for p in 0..fin.len() {
        let e = on(|| v.get(p));
        match e {
            Some(e) => h().see_addr(p, e as *const _ as usize, "get"),
            None => fail(LEN, || format!("get({p}) returns None for a vec of {} elements", fin.len())),
        }
    }
    let subs_mutate = h().subs.iter().any(|s| !matches!(s.act, Act::Read(_) | Act::Pred(..) | Act::EqPair(_)));
    if !subs_mutate {
        // values are located where growth calls said
        for (p, id) in fin.iter().enumerate() {
            h().checks += 1;
            if pos.get(p).map(|i| i.id != *id).unwrap_or(true) {
                fail(POS, || format!("position {p} holds value {id:#x} instead of the one which was pushed there; {}", h().show_grows()));
            }
        }
    }
    h().lens(&pos);
    let kind = lin_kind(&c.prop);
    let (contended, judged) = h().linear(&pos, kind, hole);
    for (f, k, w) in &h().contains_true {
        let possible = h().subs.iter().any(|s| matches!(s.act, Act::Init(x) | Act::Write(x) | Act::Replace(_, x) if x == *w)) || init.contains(w);
        if !possible {
            fail(BULK, || format!("contains by thread {f} (operation {k}) finds a value which was never in the vec"));
        }
    }

    // further growth by the owner
    let mut fin = fin;
    let mut total = visible;
    let can_more = !hole && !overflow && visible + 1 <= max_cap;
    if can_more && c.cfg[C_END] & 8 != 0 {
        let i = on(|| v.push(T::mk(init_id(77))));
        h().checks += 1;
        if i != visible {
            fail(POS, || format!("a push to the vec of {visible} elements returned {i}"));
        }
        fin.push(T::norm(init_id(77)));
        total += 1;
    } else if hole && c.cfg[C_ACT] != ACT_STALL as u64 && pos.len() + lost + 8 < max_cap {
        // growth is possible after a user function panicked
        let used: Vec<usize> = h().grows.iter().filter_map(|g| g.begin.map(|b| b + g.n)).collect();
        let at = used.into_iter().max().unwrap_or(0);
        let i = on(|| v.push(T::mk(init_id(78))));
        h().checks += 1;
        if i < at {
            fail(POS, || format!("a push after a panicked growth call returned position {i} which is already used"));
        }
        let got = on(|| v.get_cloned(i).map(|x| x.id()));
        if let Some(g) = got {
            if g != T::norm(init_id(78)) {
                fail(PANIC, || "the value pushed after a panicked growth call is not found at its position".into());
            }
        }
    }
    let v = on(|| *v);
    consume(c, v, &fin, total, hole || (overflow && !only_pushes), injected_plan);

    let st = rt::stats();
    let mut cl = 0u64;
    let mut set = |b: u64, x: bool| cl |= (x as u64) << b;
    let hh = h();
    let overlap = hh.grows.iter().any(|a| hh.grows.iter().any(|b| a.fiber != b.fiber && a.inv.t < b.ret.t && b.inv.t < a.ret.t));
    let partial = hh.obs.iter().any(|o| matches!(o.what, What::Len(_)) && hh.grows.iter().any(|g| g.fiber != o.fiber && g.inv.t < o.ret.t && o.inv.t < g.ret.t));
    let raw_overlap = hh.obs.iter().any(|o| matches!(o.what, What::Raw(..)) && hh.grows.iter().any(|g| g.fiber != o.fiber && g.inv.t < o.ret.t && o.inv.t < g.ret.t))
        || hh.raw_seqs.iter().any(|o| hh.grows.iter().any(|g| g.fiber != o.fiber && g.inv.t < o.ret.t && o.inv.t < g.ret.t));
    set(CL_CONTENDED, contended > 0);
    set(CL_OVERLAP_GROW, overlap);
    set(CL_GREW, grew);
    set(CL_WEAK, st.stale > 0);
    set(CL_INJECTED, injected_plan && c.cfg[C_ACT] != ACT_STALL as u64);
    set(CL_STALLED, st.stall_wakes > 0);
    set(CL_OVERFLOW, overflow);
    set(CL_HOLE, hole);
    set(CL_PARTIAL_LEN, partial);
    set(CL_LIN_TOO_LARGE, !judged);
    set(CL_PCT, c.sched[1] == 1);
    set(CL_RAW_OVERLAP, raw_overlap);
    set(CL_CAS_FAIL, st.contended > 0);
    let mut hash = Hash64::new();
    hash.add(c.hash());
    hash.add(st.steps);
    hash.add(st.switches);
    for s in &hh.subs {
        hash.add(s.inv.t);
    }
    let checks = hh.checks;
    Outcome { classes: cl, nontrivial: false, hash: hash.get(), checks }
}

fn lin_kind(prop: &str) -> i32 {
    match prop {
        "C05" => SWAP,
        "C14" => BULK,
        "C11" => PANIC,
        "C13" => LIN,
        _ => LIN,
    }
}

/// The vector is taken apart in one of several ways; every value must be returned or dropped exactly once.
fn consume<T: Pay, P: Store<T>>(c: &Case, v: ConcurrentVec<T, P>, fin: &[u64], total: usize, partial: bool, injected: bool) {
    let mode = c.cfg[C_END] % 8;
    let mode = if partial && matches!(mode, 1 | 2 | 3) { 0 } else { mode };
    let mut got: Option<(Vec<u64>, &str)> = None;
    let mut v = v;
    let mut held = 0;
    match mode {
        1 => {
            let w = on(|| v.to_vec());
            got = Some((w.iter().map(|x| x.id()).collect(), "to_vec"));
            held = w.len();
            check_live(held as i64, "to_vec", injected);
            on(|| drop(w));
        }
        2 => {
            let mut ids = vec![];
            let take = total / 2;
            let mut it = on(|| v.into_iter());
            for _ in 0..take {
                match on(|| it.next()) {
                    Some(x) => {
                        ids.push(x.id());
                        on(|| drop(x));
                    }
                    None => break,
                }
            }
            check_live(total as i64 - ids.len() as i64, "a partially consumed into_iter", injected);
            on(|| drop(it));
            if ids != fin[..take] {
                fail(OWN, || format!("into_iter yields {ids:x?} instead of {:x?}", &fin[..take]));
            }
        }
        3 => {
            let p = on(|| v.into_inner());
            let n = PinnedVec::len(&p);
            held = n;
            let mut ids = vec![];
            on(|| {
                for e in p {
                    let id = e.map(|x| x.id());
                    off(|| ids.push(id));
                }
            });
            if n != total {
                fail(OWN, || format!("into_inner returns a storage of {n} elements instead of {total}"));
            }
            got = Some((ids, "into_inner"));
        }
        4 => {
            on(|| v.clear());
            let n = on(|| v.len());
            if n != 0 {
                fail(OWN, || format!("len is {n} after clear"));
            }
            check_live(0, "clear", injected);
            let i = on(|| v.push(T::mk(5)));
            if i != 0 {
                fail(OWN, || format!("first push after clear returns {i}"));
            }
            on(|| drop(v));
        }
        5 => {
            let p = on(|| v.into_iter());
            let mut ids = vec![];
            if partial {
                on(|| drop(p));
            } else {
                for x in p {
                    ids.push(x.id());
                    on(|| drop(x));
                }
                got = Some((ids, "into_iter"));
            }
        }
        _ => on(|| drop(v)),
    }
    if let Some((ids, name)) = got {
        h().checks += 1;
        if ids != fin {
            fail(OWN, || format!("{name} returns {ids:x?} instead of {fin:x?}"));
        }
    }
    let _ = held;
    check_live(0, "the vec is consumed or dropped", injected);
    let blocks = unsafe { rt::rt_live() };
    h().checks += 1;
    if blocks != 0 {
        fail(rt::K_LEAK, || format!("{blocks} heap block(s) are not freed after the vec is consumed or dropped"));
    }
}
fn check_live(expect: i64, what: &str, _injected: bool) {
    h().checks += 1;
    let l = live_values();
    // only tracked values are counted
    let tracked = reg().created > 0 || reg().zlive != 0;
    if tracked && l != expect {
        fail(OWN, || format!("{l} values are alive after {what}, expected {expect}"));
    }
}

pub fn describe(c: &Case) -> String {
    let g = |i: usize| c.cfg.get(i).copied().unwrap_or(0);
    let combo = COMBOS.get(g(C_COMBO) as usize).copied().unwrap_or("?");
    let st = match g(C_COMBO) {
        1 | 5 => format!("(2^{} x {})", g(C_EXP), store_cfg(c).frags),
        2 | 4 => format!("({})", store_cfg(c).cap),
        _ => String::new(),
    };
    let mut s = format!("{combo}{st}, {} initial elements, memory model {}, schedule {}", g(C_INIT) + g(C_OFF), if c.sched[3] > 0 { "weak" } else { "sc" }, if c.sched[1] == 1 { "pct" } else { "random" });
    match g(C_ACT) {
        1 => s += &format!(", panic at user call #{} (kinds {:#x}, thread {})", g(C_AT), g(C_MASK), g(C_FIBER)),
        3 => s += &format!(", the iterator ends too early at user call #{} (thread {})", g(C_AT), g(C_FIBER)),
        2 => s += &format!(", thread {} stalls in user call #{} (kinds {:#x})", g(C_FIBER), g(C_AT), g(C_MASK)),
        _ => {}
    }
    for (f, t) in c.threads.iter().enumerate() {
        if t.is_empty() {
            continue;
        }
        s += &format!("\nthread {f}: ");
        s += &t.iter().map(|o| format!("{}{:?}", op_name(o[0]), &o[1..])).collect::<Vec<_>>().join("; ");
    }
    s += &format!("\nafterwards: {}", g(C_END));
    if c.replay {
        s += &format!("\nschedule: {:?}{}", c.sw.iter().map(|d| (d.f, d.k, d.v)).collect::<Vec<_>>(), if c.st.is_empty() { String::new() } else { format!(", stale reads {:?}", c.st.iter().map(|d| (d.f, d.k, d.v)).collect::<Vec<_>>()) });
    }
    s
}
