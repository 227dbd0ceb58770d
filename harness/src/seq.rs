//! Generated sequential histories, compared step by step with a `Vec` of value identities.
//! One machine serves the sequential model, slices, conversions, exclusive methods, capacity limits and ownership.
use crate::case::*;
use crate::conc::{self, parse_debug, ADDR, CAPA, GROWTH, C_ACT, C_AT, C_COMBO, C_END, C_INIT, C_MASK, C_QUIET, C_SCALE, OWN, PANIC};
use crate::driver::{self, fail, Outcome};
use crate::payload::*;
use crate::rt::{self, off, on, try_on, Caught};
use crate::store::*;
use orx_concurrent_vec::*;
use std::cell::{Cell, RefCell};
use std::ops::Bound;
use std::rc::Rc;

pub const SEQ: i32 = 106;
pub const SLICE: i32 = 107;
pub const CONV: i32 = 112;
pub const EXCL: i32 = 117;
pub const CALLS: i32 = 120;

macro_rules! sops {
    ($($name:ident = $v:expr),* $(,)?) => {
        $(pub const $name: u64 = $v;)*
        pub fn sop_name(o: u64) -> &'static str {
            match o { $($v => stringify!($name),)* _ => "?" }
        }
    };
}
sops! {
    S_PUSH = 0, S_PUSH_FOR_IDX = 1, S_EXTEND = 2, S_EXTEND_FOR_IDX = 3, S_EXTEND_N = 4,
    S_GETS = 5, S_LENS = 6, S_ITER = 7, S_FOLDS = 8, S_FIND = 9, S_DEBUG = 10, S_EQ = 11, S_WRITE = 12, S_SWAP = 13,
    S_FILL = 14, S_FILL_WITH = 15, S_RAW = 16, S_ELEM_EQ = 17, S_SPLIT = 18, S_CHUNKS = 19, S_TO = 20, S_ITER_GROW = 21,
    S_REENTER = 22, S_SLICE_KEEP = 23,
    S_CLONE = 30, S_TO_VEC = 31, S_INNER = 32, S_COLLECT = 33, S_INTO_ITER = 34, S_FROM = 35,
    S_CLEAR = 40, S_RESERVE = 41, S_OVERFLOW = 42, S_EPOCH = 43, S_NEW = 44, S_WRONG_LEN = 45,
    S_CALLS = 50,
}

pub const COMBOS: &[&str] = &[
    "tracked/split-doubling",
    "tracked/split-linear",
    "tracked/fixed",
    "pair/split-doubling",
    "big/fixed",
    "zst/split-linear",
    "u8/split-linear",
    "irreflexive/split-doubling",
    "big/split-linear",
    "zst/fixed",
    "tracked/doubling, linear and fixed in parallel",
];
pub const N_SINGLE: u64 = 10;
pub const ALL_STORES: u64 = 10;

pub const CL_GREW: u64 = 0;
pub const CL_WRITE: u64 = 1;
pub const CL_SLICED: u64 = 2;
pub const CL_NESTED: u64 = 3;
pub const CL_CONV: u64 = 4;
pub const CL_EXCL_LATE: u64 = 5;
pub const CL_OVERFLOW: u64 = 6;
pub const CL_EPOCH: u64 = 7;
pub const CL_INJECTED: u64 = 8;
pub const CL_MULTI_FRAG: u64 = 9;
pub const CL_REGROWN: u64 = 10;
pub const CL_REENTER: u64 = 11;
pub const CL_CALLS: u64 = 12;
pub const CL_WRONG_LEN: u64 = 13;
pub const CLASSES: &[&str] = &[
    "the storage allocated memory after its creation",
    "elements are changed in place",
    "a proper sub-slice was used",
    "a slice of a slice was used",
    "a conversion or clone of a non-empty vec",
    "clear or reserve on a vec which had grown",
    "growth beyond the maximum capacity failed",
    "several threads grew the vec between exclusive calls",
    "a panic was injected into user code",
    "elements are distributed to at least three fragments",
    "the vec grew again after an exclusive call",
    "the vec was used within a user function called by an operation on it",
    "calls of a user function on at least two elements were counted",
    "an iterator did not have the announced length",
];

struct ItX {
    ids: std::vec::IntoIter<u64>,
    ended: bool,
}
struct It<T>(ItX, std::marker::PhantomData<T>);
fn it<T>(ids: Vec<u64>) -> It<T> {
    It(ItX { ids: ids.into_iter(), ended: false }, std::marker::PhantomData)
}
/// An iterator over very many values, only the first ones of which can be taken.
struct Many<T> {
    left: usize,
    yields: usize,
    x: u64,
    _p: std::marker::PhantomData<T>,
}
impl<T: Pay> Iterator for Many<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if cb(Cb::Iter) {
            self.yields = 0;
            self.left = 0;
            return None;
        }
        assert!(self.yields > 0, "too many values are taken");
        self.yields -= 1;
        self.left -= 1;
        Some(T::mk(self.x))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.left, Some(self.left))
    }
}
impl<T: Pay> ExactSizeIterator for Many<T> {
    fn len(&self) -> usize {
        self.left
    }
}
impl<T: Pay> Iterator for It<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if cb(Cb::Iter) {
            // not fused: the promised number of values remains
            self.0.ended = true;
        }
        if self.0.ended {
            return None;
        }
        let id = self.0.ids.next()?;
        Some(T::mk(id))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.ids.len();
        (n, Some(n))
    }
}
impl<T: Pay> ExactSizeIterator for It<T> {}
/// an iterator which does not know its length
struct Vague<T>(It<T>, u64);
impl<T: Pay> Iterator for Vague<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0 .0.ids.len();
        match self.1 % 10 {
            0 => (0, None),
            1 => (n / 2, None),
            2 => (0, Some(n + 3)),
            3 => (n, None),
            4 => (n / 2, Some(n)),
            5 => (n / 2, Some(n + 3)),
            6 => (n.min(1), Some(n)),
            7 => (n.saturating_sub(1), Some(n + 1)),
            8 => (n, Some(n + 1)),
            _ => (0, Some(usize::MAX)),
        }
    }
}

fn ids_of<'a, T: Pay, I: Iterator<Item = T>>(it: I) -> Vec<u64> {
    let mut ids = vec![];
    on(|| {
        for x in it {
            let i = x.id();
            off(|| ids.push(i));
        }
    });
    ids
}
fn ids_ref<'a, T: Pay, I: Iterator<Item = &'a T>>(it: I) -> Vec<u64> {
    let mut ids = vec![];
    on(|| {
        for x in it {
            let i = x.id();
            off(|| ids.push(i));
        }
    });
    ids
}
fn ids_u64(it: impl Iterator<Item = u64>) -> Vec<u64> {
    let mut ids = vec![];
    on(|| {
        for i in it {
            off(|| ids.push(i));
        }
    });
    ids
}
fn clos<T: Pay>(x: &T) -> u64 {
    cb(Cb::Closure);
    x.id()
}
fn elems<'a, T: Pay + 'a, I: Iterator<Item = &'a ConcurrentElement<T>>>(it: I) -> Vec<&'a ConcurrentElement<T>> {
    let mut v = vec![];
    on(|| {
        for x in it {
            off(|| v.push(x));
        }
    });
    v
}
fn addr<T>(e: &ConcurrentElement<T>) -> usize {
    e as *const _ as usize
}

struct M<T: Pay, P: Store<T>> {
    v: Option<Box<ConcurrentVec<T, P>>>,
    m: Vec<u64>,
    sc: StoreCfg,
    next: u64,
    /// positions are lost: growth is not possible anymore
    stuck: bool,
    log: Vec<u64>,
    checks: u64,
    classes: u64,
    max_cap: usize,
    /// locations of the elements since the storage was created
    addrs: Vec<usize>,
    cap0: usize,
    excl: u32,
    /// classes of failures of the current step
    kind: i32,
    step: usize,
    name: &'static str,
    alone: bool,
    lockstep: bool,
    /// a growth call failed: positions beyond the capacity may be in use
    over: bool,
    /// positions below this one are used by calls made by user functions
    nested: Cell<usize>,
    /// largest number of positions in use since the storage was created
    high: usize,
}

macro_rules! both {
    ($sl:expr, $v:expr, |$r:ident| $body:expr) => {
        match $sl {
            None => {
                let $r = $v;
                $body
            }
            Some(s) => {
                let $r = s;
                $body
            }
        }
    };
}

/// range number `lvl` of a path
fn level(path: u64, lvl: u32) -> Option<(u64, usize, usize)> {
    let w = path >> (16 * lvl) & 0xffff;
    if w & 15 == 0 {
        None
    } else {
        let s = SCALE.get();
        let (a, b) = ((w >> 4 & 63) as usize, (w >> 10 & 63) as usize);
        Some((w & 15, a * s + (a * 7 + b) % s, b * s + (b * 5 + a) % s))
    }
}
thread_local! {
    /// factor of sizes and indices
    static SCALE: Cell<usize> = const { Cell::new(1) };
}
pub fn mk_level(form: u64, a: u64, b: u64) -> u64 {
    form | (a & 63) << 4 | (b & 63) << 10
}
/// the range in terms of the model
fn window(form: u64, a: usize, b: usize, len: usize) -> (usize, usize) {
    let (x, y) = match form {
        1 => (0, len),
        2 => (a, b),
        3 => (a, b + 1),
        4 => (0, b),
        5 => (a, len),
        6 => (0, b + 1),
        7 => (a + 1, b),
        8 => (a + 1, b + 1),
        _ => (0, len),
    };
    let y = y.min(len);
    if x >= y {
        (0, 0)
    } else {
        (x, y)
    }
}
macro_rules! sliced {
    ($r:expr, $form:expr, $a:expr, $b:expr) => {
        match $form {
            1 => $r.slice(..),
            2 => $r.slice($a..$b),
            3 => $r.slice($a..=$b),
            4 => $r.slice(..$b),
            5 => $r.slice($a..),
            6 => $r.slice(..=$b),
            7 => $r.slice((Bound::Excluded($a), Bound::Excluded($b))),
            8 => $r.slice((Bound::Excluded($a), Bound::Included($b))),
            _ => $r.slice((Bound::<usize>::Unbounded, Bound::<usize>::Unbounded)),
        }
    };
}

fn with_view<T: Pay, P: Store<T>>(v: &ConcurrentVec<T, P>, path: u64, len: usize, f: &mut dyn FnMut(Option<&ConcurrentSlice<T, P>>, usize, usize)) {
    let Some((form, a, b)) = level(path, 0) else { return f(None, 0, len) };
    let s = on(|| if form == 10 { v.as_slice() } else { sliced!(v, form, a, b) });
    let (lo, hi) = window(form, a, b, len);
    let Some((form, a, b)) = level(path, 1) else { return f(Some(&s), lo, hi) };
    let s2 = on(|| sliced!(s, form, a, b));
    let (l2, h2) = window(form, a, b, hi - lo);
    let (l2, h2) = (lo + l2, lo + h2);
    let Some((form, a, b)) = level(path, 2) else { return f(Some(&s2), l2, h2) };
    let s3 = on(|| sliced!(s2, form, a, b));
    let (l3, h3) = window(form, a, b, h2 - l2);
    f(Some(&s3), l2 + l3, l2 + h3)
}

/// number of calls into user code of this kind while `f` runs
fn count(kind: Cb, f: impl FnOnce()) -> u64 {
    let before = cb_counts()[kind as usize];
    f();
    cb_counts()[kind as usize] - before
}

impl<T: Pay, P: Store<T>> M<T, P> {
    fn new(sc: StoreCfg) -> Self {
        let v = on(|| Box::new(P::build(&sc)));
        let max_cap = on(|| v.maximum_capacity());
        if max_cap != P::max_cap(&sc) && P::NAME != "split-doubling" {
            fail(conc::max_cap_kind(), || format!("a new vec reports maximum capacity {max_cap} instead of {}", P::max_cap(&sc)));
        }
        if max_cap < P::max_cap(&sc).min(1 << 32) {
            fail(conc::max_cap_kind(), || format!("a new vec reports maximum capacity {max_cap}"));
        }
        let cap0 = on(|| v.capacity());
        if cap0 > P::cap_for(&sc, 1) {
            fail(GROWTH, || format!("a new vec allocates memory for {cap0} elements"));
        }
        M { v: Some(v), m: vec![], sc, next: 1, stuck: false, log: vec![], checks: 0, classes: 0, max_cap, addrs: vec![], cap0, excl: 0, kind: SEQ, step: 0, name: "", alone: true, lockstep: false, over: false, nested: Cell::new(0), high: 0 }
    }
    fn v(&self) -> &ConcurrentVec<T, P> {
        self.v.as_ref().unwrap()
    }
    fn bad(&self, msg: impl FnOnce() -> String) {
        let (k, n, m) = (self.step, self.name, &self.m);
        let short = |s: String| match s.char_indices().nth(900) {
            Some((i, _)) => format!("{} ...", &s[..i]),
            None => s,
        };
        fail(self.kind, || format!("step {k} ({n}): {}; the values of the vec are expected to be {}", short(msg()), short(format!("{m:x?}"))))
    }
    fn eq<X: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: X, exp: X) {
        self.checks += 1;
        if got != exp {
            self.bad(|| format!("{what} is {got:x?} instead of {exp:x?}"));
        }
    }
    fn set(&mut self, c: u64) {
        self.classes |= 1 << c;
    }
    fn fresh(&mut self, sel: u64) -> u64 {
        let id = if sel % 3 == 0 { 1 + sel / 3 % 5 } else { 1000 + self.next };
        self.next += 1;
        T::norm(id)
    }
    fn room(&self) -> usize {
        self.max_cap.saturating_sub(self.m.len())
    }
    fn n_items(&self, a: u64) -> usize {
        (a as usize % (12 * SCALE.get())).min(self.room())
    }
    /// number of live values which the harness itself does not own
    fn owned(&mut self, extra: usize) {
        if T::TRACKED && self.alone {
            self.checks += 1;
            let l = live_values();
            let e = (self.m.len() + extra) as i64;
            if l != e {
                let (k, n) = (self.step, self.name);
                fail(OWN, || format!("step {k} ({n}): {l} values are alive, expected {e}"));
            }
        }
    }

    /// complete comparison of the vec with the model
    fn full(&mut self) {
        mute(true);
        self.full_check();
        mute(false);
    }
    fn full_check(&mut self) {
        let v = self.v();
        let n = on(|| v.len());
        let ids = ids_of(on(|| v.iter_cloned()));
        let (cap, mc) = on(|| (v.capacity(), v.maximum_capacity()));
        let es: Vec<usize> = elems(on(|| v.iter())).into_iter().map(addr).collect();
        let exp = self.m.clone();
        self.eq("the number of elements", n, exp.len());
        self.eq("the sequence of values", ids, exp);
        self.checks += 3;
        if cap < n || mc < cap {
            let (k, nm) = (self.step, self.name);
            fail(CAPA, || format!("step {k} ({nm}): len {n}, capacity {cap} and maximum capacity {mc} are not ordered"));
        }
        if self.max_cap != mc {
            let (k, nm, x) = (self.step, self.name, self.max_cap);
            fail(conc::max_cap_kind(), || format!("step {k} ({nm}): the maximum capacity changed from {x} to {mc}"));
        }
        for (i, a) in es.iter().enumerate() {
            match self.addrs.get(i) {
                Some(b) if a != b => {
                    let (k, nm) = (self.step, self.name);
                    fail(ADDR, || format!("step {k} ({nm}): element {i} moved from {b:#x} to {a:#x}"));
                }
                Some(_) => {}
                None => self.addrs.push(*a),
            }
        }
        self.high = self.high.max(n);
        if !self.over && !self.stuck {
            let e = self.cap0.max(P::cap_for(&self.sc, self.high));
            if cap != e {
                let (k, nm, h) = (self.step, self.name, self.high);
                fail(GROWTH, || format!("step {k} ({nm}): the capacity is {cap} instead of {e} after {h} positions were in use"));
            }
        }
        let mut u = es.clone();
        u.sort();
        u.dedup();
        if u.len() != es.len() {
            fail(ADDR, || "two elements have the same location".into());
        }
        if cap > self.cap0 {
            self.set(CL_GREW);
            if self.excl > 0 {
                self.set(CL_REGROWN);
            }
        }
        let jumps = es.windows(2).filter(|w| w[1] != w[0] + std::mem::size_of::<ConcurrentElement<T>>()).count();
        if jumps >= 2 {
            self.set(CL_MULTI_FRAG);
        }
    }
    /// the storage was replaced
    fn renew(&mut self, v: Box<ConcurrentVec<T, P>>) {
        self.max_cap = on(|| v.maximum_capacity());
        self.cap0 = on(|| v.capacity());
        let (c, e) = (self.cap0, P::cap_for(&self.sc, self.m.len() + 1));
        self.checks += 1;
        if c > e && !P::FIXED {
            let (k, nm, n) = (self.step, self.name, self.m.len());
            fail(GROWTH, || format!("step {k} ({nm}): the capacity of the new vec of {n} elements is {c}, more than {e}"));
        }
        self.high = 0;
        self.v = Some(v);
        self.addrs.clear();
        self.stuck = false;
        self.over = false;
    }
    fn rebuild(&mut self, ids: Vec<u64>) {
        let sc = self.sc;
        let v = on(|| Box::new(P::build(&sc)));
        let mc = on(|| v.maximum_capacity());
        self.m = ids;
        self.m.truncate(mc);
        let i = it::<T>(self.m.clone());
        on(|| v.extend(i));
        self.renew(v);
    }

    fn check_window(&mut self, s: &ConcurrentSlice<T, P>, lo: usize, hi: usize, what: &str) {
        let (n, e) = on(|| (s.len(), s.is_empty()));
        let ids = ids_of(on(|| s.iter_cloned()));
        let es: Vec<usize> = elems(on(|| s.iter())).into_iter().map(addr).collect();
        let all: Vec<usize> = elems(on(|| self.v().iter())).into_iter().map(addr).collect();
        let exp = self.m[lo..hi].to_vec();
        self.eq(&format!("length of {what}"), n, hi - lo);
        self.eq(&format!("is_empty of {what}"), e, hi == lo);
        self.eq(&format!("values of {what}"), ids, exp);
        self.checks += 1;
        if es[..] != all[lo..hi] {
            self.bad(|| format!("{what} does not refer to the elements {lo}..{hi} of the vec"));
        }
        let last = on(|| s.get(hi - lo).is_some());
        self.eq(&format!("get behind the end of {what}"), last, false);
    }

    fn grow_ids(&mut self, n: usize, sel: u64) -> Vec<u64> {
        (0..n).map(|q| self.fresh(sel.wrapping_add(q as u64))).collect()
    }
    fn returned(&mut self, i: usize) {
        let e = self.m.len();
        if !self.over || self.room() > 0 {
            self.eq("the returned position", i, e);
        }
    }

    fn exec(&mut self, op: &Op) {
        let (a, b, path, d) = (op[1] as usize, op[2] as usize, op[3], op[4]);
        match op[0] {
            S_PUSH | S_PUSH_FOR_IDX | S_EXTEND | S_EXTEND_FOR_IDX | S_EXTEND_N | S_ITER_GROW | S_REENTER | S_SLICE_KEEP if self.stuck => {}
            S_PUSH => {
                if self.room() == 0 {
                    return;
                }
                let id = self.fresh(d);
                let i = on(|| self.v().push(T::mk(id)));
                self.returned(i);
                self.m.push(id);
            }
            S_PUSH_FOR_IDX => {
                if self.room() < 2 {
                    return;
                }
                let id = self.fresh(d);
                let nested = b % 3 == 0;
                let id2 = if nested { self.fresh(d / 2) } else { 0 };
                let seen = Cell::new((0, 0, 0));
                let v = self.v();
                let i = on(|| {
                    v.push_for_idx(|i| {
                        cb(Cb::Closure);
                        if nested {
                            // the vec can be used while the value is being created
                            let j = v.push(T::mk(id2));
                            seen.set((i, j, v.len()));
                        } else {
                            seen.set((i, 0, v.len()));
                        }
                        T::mk(id)
                    })
                });
                self.returned(i);
                let n = self.m.len();
                let (x, y, l) = seen.get();
                self.eq("the position passed to the function", x, n);
                self.eq("the length during push_for_idx", l, n);
                self.m.push(id);
                if nested {
                    self.eq("the position of the nested push", y, n + 1);
                    self.m.push(id2);
                }
            }
            S_EXTEND | S_EXTEND_FOR_IDX | S_EXTEND_N if b % 7 == 6 && self.room() > 2 && !self.over => {
                // the iterator itself uses the vec
                let n = 1 + self.n_items(op[1]).min(self.room() - 2);
                let ids = self.grow_ids(n, d);
                let id = self.fresh(d);
                let n0 = self.m.len();
                let v = self.v();
                let mut seen = (0, 0);
                let mut hook = || {
                    seen = on(|| (v.push(T::mk(id)), v.len()));
                    self.nested.set(seen.0 + 1);
                };
                let src = ids.clone();
                let (i, reached) = with_hook(1 << Cb::Iter as u32, 1 + d % n as u64, &mut hook, || match op[0] {
                    S_EXTEND => on(|| v.extend(it(src))),
                    S_EXTEND_N => on(|| v.extend_n_items(it(src), n)),
                    _ => on(|| v.extend_for_idx(|_| it(src), n)),
                });
                self.eq("the returned position", i, n0);
                self.eq("whether the iterator was used", reached, true);
                self.eq("the position of a push during an extension", seen.0, n0 + n);
                self.eq("whether the length during an extension is within its bounds", seen.1 >= n0 && seen.1 < n0 + n, true);
                self.m.extend(ids);
                self.m.push(id);
                self.nested.set(0);
                self.set(CL_REENTER);
            }
            S_EXTEND => {
                let n = self.n_items(op[1]);
                let ids = self.grow_ids(n, d);
                let v = self.v();
                let src = ids.clone();
                let i = match b % 4 {
                    0 => on(|| v.extend(it(src))),
                    1 => {
                        let w: Vec<T> = on(|| src.iter().map(|i| T::mk(*i)).collect());
                        on(|| v.extend(w))
                    }
                    2 => on(|| v.extend(src.iter().map(|i| T::mk(*i)))),
                    _ => {
                        let w: std::collections::VecDeque<T> = on(|| src.iter().map(|i| T::mk(*i)).collect());
                        on(|| v.extend(w))
                    }
                };
                self.returned(i);
                self.m.extend(ids);
            }
            S_EXTEND_FOR_IDX => {
                let n = self.n_items(op[1]);
                let ids = self.grow_ids(n, d);
                let seen = Cell::new(usize::MAX);
                let src = ids.clone();
                let i = on(|| {
                    self.v().extend_for_idx(
                        |i| {
                            cb(Cb::Closure);
                            seen.set(i);
                            it(src)
                        },
                        n,
                    )
                });
                self.returned(i);
                let e = self.m.len();
                if !self.over || self.room() > 0 {
                    self.eq("the position passed to the function", seen.get(), e);
                }
                self.m.extend(ids);
            }
            S_EXTEND_N => {
                let n = self.n_items(op[1]);
                let extra = b % 3;
                let ids = self.grow_ids(n + extra, d);
                let src = ids.clone();
                let i = if b % 2 == 0 { on(|| self.v().extend_n_items(it(src), n)) } else { on(|| self.v().extend_n_items(Vague(it(src), b as u64), n)) };
                self.returned(i);
                self.m.extend(&ids[..n]);
            }
            S_ITER_GROW => {
                // elements are pushed while an iterator exists
                let n = self.room().min(3);
                let n0 = self.m.len();
                let ids = self.grow_ids(n, d);
                let v = self.v();
                let mut seen = vec![];
                let mut k = 0;
                let (lo, sl) = if b % 4 == 0 { (a % (n0 + 1), Some(on(|| v.slice(a % (n0 + 1)..)))) } else { (0, None) };
                let cloned = b % 8 >= 6;
                let mut iter: Box<dyn Iterator<Item = u64> + '_> = off(|| match (cloned, &sl) {
                    (false, None) => Box::new(on(|| v.iter()).map(|e| e.map(|x| x.id()))) as Box<dyn Iterator<Item = u64> + '_>,
                    (false, Some(s)) => Box::new(on(|| s.iter()).map(|e| e.map(|x| x.id()))),
                    (true, None) => Box::new(on(|| v.iter_cloned()).map(|e| e.id())),
                    (true, Some(s)) => Box::new(on(|| s.iter_cloned()).map(|e| e.id())),
                });
                for _ in 0..n0 + 10 {
                    let Some(e) = on(|| iter.next()) else { break };
                    seen.push(e);
                    if k < n {
                        on(|| v.push(T::mk(ids[k])));
                        k += 1;
                    }
                }
                off(|| drop(iter));
                // the first element is asked for before the first push
                let exp = self.m[lo..].to_vec();
                self.m.extend(&ids[..k]);
                self.checks += 1;
                if seen != exp {
                    self.bad(|| format!("an iterator over the elements from {lo} which was created with {n0} elements yields {seen:x?} instead of {exp:x?} while elements are pushed"));
                }
            }
            S_REENTER => {
                // other elements and growth are available while an element is accessed
                let n0 = self.m.len();
                if n0 == 0 {
                    return;
                }
                let (p, q) = (a % n0, b % n0);
                if d % 3 != 0 {
                    return self.reenter(p, q, path, d / 3);
                }
                if self.room() == 0 {
                    return;
                }
                let id = self.fresh(d);
                let w = self.fresh(d / 2);
                let v = self.v();
                let other = self.m[q];
                let (own, j, l, o) = on(|| {
                    let e = &v[p];
                    e.map(|x| {
                        cb(Cb::Closure);
                        let j = v.push(T::mk(id));
                        let l = v.len();
                        let o = if p != q {
                            let r = v[q].map(|y| y.id());
                            v[q].set(T::mk(w));
                            r
                        } else {
                            x.id()
                        };
                        (x.id(), j, l, o)
                    })
                });
                let e = self.m[p];
                self.eq("the mapped value", own, e);
                self.eq("the position of a push within map", j, n0);
                self.eq("the length within map", l, n0 + 1);
                self.eq("the value of another element within map", o, other);
                if p != q {
                    self.m[q] = w;
                }
                self.m.push(id);
                self.set(CL_WRITE);
            }
            S_SLICE_KEEP => {
                // a slice keeps its window while the vec grows
                let n = self.room().min(1 + b % 6);
                let ids = self.grow_ids(n, d);
                let p: *const ConcurrentVec<T, P> = self.v();
                let v = unsafe { &*p };
                let len = self.m.len();
                with_view(v, if path & 15 == 0 { path | 1 } else { path }, len, &mut |s, lo, hi| {
                    let s = s.unwrap();
                    let i = on(|| v.extend(it(ids.clone())));
                    self.returned(i);
                    self.m.extend(&ids);
                    self.check_window(s, lo, hi, "a slice which was created before growth");
                });
            }
            S_CLONE | S_TO_VEC | S_INNER | S_COLLECT | S_INTO_ITER | S_FROM => self.convert(op),
            S_CLEAR | S_RESERVE | S_OVERFLOW | S_EPOCH | S_NEW | S_WRONG_LEN => self.exclusive(op),
            _ => {
                let p: *const ConcurrentVec<T, P> = self.v();
                let v = unsafe { &*p };
                let len = self.m.len();
                with_view(v, path, len, &mut |s, lo, hi| {
                    if s.is_some() && (lo, hi) != (0, len) {
                        self.set(CL_SLICED);
                        if level(path, 1).is_some() {
                            self.set(CL_NESTED);
                        }
                    }
                    self.view(v, s, lo, hi, op);
                });
            }
        }
    }

    /// While an operation on the whole vec, or on element `p`, is inside user code at element `p`, another element `q` is used.
    fn reenter(&mut self, p: usize, q: usize, path: u64, d: u64) {
        let n = self.m.len();
        let id = self.fresh(d);
        let win = self.m.clone();
        let vp: *const ConcurrentVec<T, P> = self.v();
        let v = unsafe { &*vp };
        let full = path & 15 == 0 || path & 3 == 1;
        let sl = on(|| v.as_slice());
        let sl = if full { None } else { Some(&sl) };
        let how = d % 14;
        // elements are added as well, which the operation is not concerned with
        let add = if how == 13 || self.over || self.stuck || path & 0x30 == 0 || (self.lockstep && matches!(how, 6 | 8)) { 0 } else { self.room().min(1 + (path >> 6) as usize % 3) };
        let added = self.fresh(d / 14);
        // q is not accessed by the operation at this time
        let free = p != q || how >= 12;
        let e = win[q];
        let mut seen = (0, 0, 0, 0);
        let mut hook = || {
            seen = on(|| {
                let l = v.len();
                for _ in 0..add {
                    v.push(T::mk(added));
                }
                if free {
                    let x = v[q].map(|x| x.id());
                    let y = v[q].replace(T::mk(e)).id();
                    v[q].update(|x| x.set(e));
                    let z = v[q].cloned().id();
                    (l, x, y, z)
                } else {
                    (l, e, e, e)
                }
            })
        };
        let (c, eq, f, cl, it) = (1 << Cb::Closure as u32, 1 << Cb::Eq as u32, 1 << Cb::Fmt as u32, 1 << Cb::Clone as u32, 1 << Cb::Iter as u32);
        let at = p as u64 + 1;
        let mut out: Vec<u64> = vec![];
        let mut exp = win.clone();
        let none = T::norm(77_777);
        let absent = !win.iter().any(|x| T::same(none, *x));
        let what;
        let (_, reached) = match how {
            0 => {
                what = "map";
                with_hook(c, at, &mut hook, || {
                    out = match sl {
                        None => ids_u64(on(|| v.map(|x| clos(x)))),
                        Some(s) => ids_u64(on(|| s.map(|x| clos(x)))),
                    }
                })
            }
            1 => {
                what = "filter";
                with_hook(c, at, &mut hook, || {
                    on(|| both!(sl, v, |r| for e in r.filter(|x| clos(x) != !0) {
                        let i = e.map(|x| x.id());
                        off(|| out.push(i));
                    }))
                })
            }
            2 => {
                what = "fold";
                with_hook(c, at, &mut hook, || {
                    on(|| both!(sl, v, |r| r.fold((), |_, x| {
                        let i = clos(x);
                        off(|| out.push(i))
                    })))
                })
            }
            3 => {
                // element 0 is cloned, then the others are visited
                what = "reduce";
                let at = p.max(1);
                if at == q || q == 0 {
                    return;
                }
                let r = with_hook(c, at as u64, &mut hook, || {
                    on(|| both!(sl, v, |r| drop(r.reduce(|x, y| {
                        let i = clos(y);
                        off(|| out.push(i));
                        T::mk(x.id())
                    }))))
                });
                exp.remove(0);
                r
            }
            4 => {
                what = "iter_cloned";
                with_hook(cl, at, &mut hook, || out = both!(sl, v, |r| ids_of(on(|| r.iter_cloned()))))
            }
            5 => {
                what = "clone_to_vec";
                with_hook(cl, at, &mut hook, || {
                    on(|| {
                        let w = both!(sl, v, |r| r.clone_to_vec());
                        for x in &w {
                            let i = x.id();
                            off(|| out.push(i));
                        }
                    })
                })
            }
            6 => {
                what = "clone";
                with_hook(cl, at, &mut hook, || {
                    on(|| match P::try_clone(v) {
                        Some(w) => off(|| out = ids_of(on(|| w.iter_cloned()))),
                        None => off(|| out = exp.clone()),
                    })
                })
            }
            7 => {
                what = "index_of";
                let r = with_hook(eq, at, &mut hook, || {
                    let r = on(|| {
                        let x = T::mk(none);
                        both!(sl, v, |r| r.index_of(&x))
                    });
                    out = vec![r.is_none() as u64];
                });
                exp = vec![absent as u64];
                r
            }
            8 => {
                what = "== with an array";
                let arr: Vec<T> = on(|| win.iter().map(|x| T::mk(*x)).collect());
                let r = with_hook(eq, at, &mut hook, || {
                    let r = on(|| match sl {
                        None => P::eq_va(v, &arr),
                        Some(s) => P::eq_sa(s, &arr),
                    });
                    out = vec![r.unwrap_or(true) as u64];
                });
                on(|| drop(arr));
                exp = vec![win.iter().all(|x| T::same(*x, *x)) as u64];
                if !P::DEFAULT {
                    exp = vec![1];
                }
                r
            }
            9 => {
                what = "the debug text";
                let r = with_hook(f, at, &mut hook, || {
                    let s = on(|| both!(sl, v, |r| format!("{r:?}")));
                    out = off(|| s.bytes().map(|x| x as u64).collect());
                    on(|| drop(s));
                });
                exp = format!("[{}]", win.iter().map(|x| T::fmt_id(*x)).collect::<Vec<_>>().join(", ")).bytes().map(|x| x as u64).collect();
                r
            }
            10 => {
                what = "update";
                let r = with_hook(c, 1, &mut hook, || {
                    on(|| {
                        v[p].update(|x| {
                            let i = clos(x);
                            off(|| out.push(i));
                            x.set(id)
                        })
                    })
                });
                exp = vec![win[p]];
                self.m[p] = id;
                r
            }
            11 => {
                what = "== with a value";
                let x = on(|| T::mk(id));
                let r = with_hook(eq, 1, &mut hook, || out = vec![on(|| v[p] == x) as u64]);
                on(|| drop(x));
                exp = vec![T::same(win[p], id) as u64];
                r
            }
            12 => {
                // the clones are made before the element is accessed
                what = "fill";
                let r = with_hook(cl, 1, &mut hook, || on(|| both!(sl, v, |r| r.fill(T::mk(e)))));
                out = exp.clone();
                self.m.fill(e);
                r
            }
            _ => {
                // values are taken from the iterator without holding anything
                what = "extend";
                if self.room() < 2 {
                    return;
                }
                let src = vec![id, id];
                let r = with_hook(it, 1, &mut hook, || out = vec![on(|| v.extend(self::it::<T>(src))) as u64]);
                exp = if self.over { out.clone() } else { vec![n as u64] };
                self.m.extend([id, id]);
                r
            }
        };
        self.set(CL_WRITE);
        self.eq(&format!("the outcome of {what} while other elements are used or added"), out, exp);
        if reached {
            self.set(CL_REENTER);
            self.m.extend((0..add).map(|_| added));
            let (l, x, y, z) = seen;
            let grown = if how == 13 { 2 } else { 0 };
            self.eq("whether the length is that of the vec within the operation", l >= n && l <= n + grown, true);
            self.eq("the values of another element within the operation", [x, y, z], [e, e, e]);
        }
    }

    /// operations on the vec (`sl` is none) or on a slice of it
    fn view(&mut self, v: &ConcurrentVec<T, P>, sl: Option<&ConcurrentSlice<T, P>>, lo: usize, hi: usize, op: &Op) {
        let (a, b, d) = (op[1] as usize, op[2] as usize, op[4]);
        let n = hi - lo;
        let win: Vec<u64> = self.m[lo..hi].to_vec();
        // an index which may be out of bounds
        let i = a % (n + 2);
        let j = b % (n + 2);
        match op[0] {
            S_CALLS => self.calls(v, sl, lo, hi, op),
            S_GETS => {
                let e = on(|| both!(sl, v, |r| r.get(i).map(|e| e.map(|x| x.id()))));
                self.eq("get", e, win.get(i).copied());
                let e = on(|| both!(sl, v, |r| r.get_cloned(i).map(|x| x.id())));
                self.eq("get_cloned", e, win.get(i).copied());
                let e = on(|| match sl {
                    None => T::vec_get_copied(v, i).map(|x| x.id()),
                    Some(s) => T::slice_get_copied(s, i).map(|x| x.id()),
                });
                self.eq("get_copied", e, win.get(i).copied());
                let e = try_on(|| both!(sl, v, |r| r[i].map(|x| x.id())));
                match (e, win.get(i)) {
                    (Ok(x), Some(y)) => self.eq("indexing", x, *y),
                    (Ok(x), None) => self.bad(|| format!("indexing {i} of {n} elements returns {x:#x}")),
                    (Err(Caught::Other(m)), Some(_)) => self.bad(|| format!("indexing {i} of {n} elements panics: {m}")),
                    _ => {}
                }
                if i < n {
                    let (x, y) = on(|| {
                        let e = both!(sl, v, |r| r.get(i).unwrap());
                        (e.cloned().id(), T::copied(e).id())
                    });
                    self.eq("cloned", x, win[i]);
                    self.eq("copied", y, win[i]);
                }
                for far in [n + 1000, usize::MAX] {
                    let e = on(|| both!(sl, v, |r| r.get(far).is_some() || r.get_cloned(far).is_some()));
                    self.eq("get far behind the end", e, false);
                }
            }
            S_LENS => {
                let (l, e) = on(|| both!(sl, v, |r| (r.len(), r.is_empty())));
                self.eq("len", l, n);
                self.eq("is_empty", e, n == 0);
            }
            S_ITER => {
                let mut it: Box<dyn Iterator<Item = &ConcurrentElement<T>> + '_> = match sl {
                    None => Box::new(on(|| v.iter())),
                    Some(s) => Box::new(on(|| s.iter())),
                };
                let mut got = vec![];
                loop {
                    let (l, u) = on(|| it.size_hint());
                    let rest = n.saturating_sub(got.len());
                    self.checks += 1;
                    if l > rest || u.map(|u| u < rest).unwrap_or(false) {
                        self.bad(|| format!("the iterator promises {l}..{u:?} elements while {rest} are left"));
                    }
                    match on(|| it.next()) {
                        Some(e) => got.push(on(|| e.map(|x| x.id()))),
                        None => break,
                    }
                    if got.len() > n {
                        break;
                    }
                }
                off(|| drop(it));
                self.eq("iter", got, win.clone());
                let c = on(|| both!(sl, v, |r| r.iter().count()));
                self.eq("count of iter", c, n);
                let x = on(|| both!(sl, v, |r| r.iter().nth(i).map(|e| e.map(|x| x.id()))));
                self.eq("nth of iter", x, win.get(i).copied());
                let x = on(|| both!(sl, v, |r| r.iter_cloned().skip(i).step_by(1 + b % 3).fold(0u64, |s, x| s.wrapping_mul(31).wrapping_add(x.id()))));
                let y = win.iter().skip(i).step_by(1 + b % 3).fold(0u64, |s, x| s.wrapping_mul(31).wrapping_add(*x));
                self.eq("a strided iteration", x, y);
                let got = both!(sl, v, |r| ids_of(on(|| r.iter_cloned())));
                self.eq("iter_cloned", got, win);
            }
            S_FOLDS => {
                let got = RefCell::new(vec![]);
                on(|| {
                    both!(sl, v, |r| for x in r.map(|x| {
                        cb(Cb::Closure);
                        x.id()
                    }) {
                        off(|| got.borrow_mut().push(x))
                    })
                });
                self.eq("map", got.into_inner(), win.clone());
                let modulus = 2 + d % 3;
                let pred = |x: u64| (x >> (a % 4)) % modulus == 0;
                let mut got = vec![];
                let mut calls = 0;
                on(|| {
                    both!(sl, v, |r| for e in r.filter(|x| {
                        cb(Cb::Closure);
                        calls += 1;
                        pred(x.id())
                    }) {
                        let id = e.map(|x| x.id());
                        off(|| got.push(id))
                    })
                });
                self.eq("filter", got, win.iter().copied().filter(|x| pred(*x)).collect::<Vec<_>>());
                self.eq("the number of calls of the predicate", calls, n);
                let got = on(|| {
                    both!(sl, v, |r| r.fold(7u64, |s, x| {
                        cb(Cb::Closure);
                        s.wrapping_mul(1_000_003).wrapping_add(x.id())
                    }))
                });
                let exp = win.iter().fold(7u64, |s, x| s.wrapping_mul(1_000_003).wrapping_add(*x));
                self.eq("fold", got, exp);
                // not associative, not commutative
                let rf = |x: u64, y: u64| T::norm((x.wrapping_mul(3) ^ y.rotate_left(1)) & 0xffff_ffff);
                let got = on(|| {
                    both!(sl, v, |r| r.reduce(|x, y| {
                        cb(Cb::Closure);
                        T::mk(rf(x.id(), y.id()))
                    }))
                    .map(|x| x.id())
                });
                let exp = win.iter().copied().reduce(rf);
                self.eq("reduce", got, exp);
            }
            S_FIND => {
                let id = if i < n && b % 3 != 0 { win[i] } else { self.fresh(d) };
                let x = on(|| T::mk(id));
                let got = on(|| both!(sl, v, |r| r.index_of(&x)));
                self.eq(&format!("index_of({id:#x})"), got, win.iter().position(|y| T::same(id, *y)));
                let got = on(|| both!(sl, v, |r| r.contains(&x)));
                self.eq(&format!("contains({id:#x})"), got, win.iter().any(|y| T::same(id, *y)));
                on(|| drop(x));
            }
            S_DEBUG => {
                let s = on(|| both!(sl, v, |r| format!("{r:?}")));
                let s = off(|| s.as_str().to_string());
                let exp = format!("[{}]", win.iter().map(|x| T::fmt_id(*x)).collect::<Vec<_>>().join(", "));
                self.eq("the debug text", s.clone(), exp);
                for ch in s.bytes() {
                    self.log.push(ch as u64);
                }
                let _ = parse_debug;
                if i < n {
                    let s = on(|| both!(sl, v, |r| format!("{:?}", r.get(i).unwrap())));
                    let s = off(|| s.as_str().to_string());
                    self.eq("the debug text of an element", s, T::fmt_id(win[i]));
                }
            }
            S_EQ => {
                // against an array which is equal, changed at one position, shorter or longer
                let mut w = win.clone();
                match b % 5 {
                    1 if i < n => w[i] = self.fresh(d),
                    2 => {
                        w.pop();
                    }
                    3 => {
                        let x = self.fresh(d);
                        w.push(x)
                    }
                    4 if n > 1 => w.swap(0, n - 1),
                    _ => {}
                }
                let exp = w.len() == n && w.iter().zip(&win).all(|(x, y)| T::same(*y, *x));
                let arr: Vec<T> = on(|| w.iter().map(|x| T::mk(*x)).collect());
                let got = on(|| match sl {
                    None => P::eq_va(v, &arr),
                    Some(s) => P::eq_sa(s, &arr),
                });
                if let Some(g) = got {
                    self.eq("== with an array", g, exp);
                }
                macro_rules! of_size {
                    ($($n:literal),*) => {
                        match arr.len() {
                            $($n => {
                                let a: &[T; $n] = (&arr[..]).try_into().unwrap();
                                on(|| match sl {
                                    None => P::eq_van(v, a),
                                    Some(s) => P::eq_san(s, a),
                                })
                            })*
                            _ => None,
                        }
                    };
                }
                let got = of_size!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 20);
                if let Some(g) = got {
                    self.eq("== with an array of a certain size", g, exp);
                }
                if P::DEFAULT {
                    // another vec with these values; itself; parts of it
                    let other = on(|| P::build(&StoreCfg::default()));
                    on(|| other.extend(arr));
                    let os = on(|| other.as_slice());
                    let me = on(|| v.slice(lo..hi));
                    let got = on(|| match sl {
                        None => [P::eq_vv(v, &other), P::eq_vs(v, &os), P::eq_sv(&os, v), P::eq_ss(&os, &me)],
                        Some(s) => [P::eq_sv(s, &other), P::eq_vs(&other, s), P::eq_ss(s, &os), P::eq_ss(&os, s)],
                    });
                    // same() is symmetric
                    self.eq("== between vecs and slices", got, [Some(exp); 4]);
                    let refl = win.iter().all(|x| T::same(*x, *x));
                    let got = on(|| match sl {
                        None => [P::eq_vv(v, v), P::eq_vs(v, &me), P::eq_sv(&me, v)],
                        Some(s) => [P::eq_ss(s, s), P::eq_ss(s, &me), P::eq_ss(&me, s)],
                    });
                    self.eq("== with itself", got, [Some(refl); 3]);
                    on(|| drop(other));
                } else {
                    on(|| drop(arr));
                }
            }
            S_WRITE => {
                if n == 0 {
                    return;
                }
                let i = a % n;
                let id = self.fresh(d);
                let e = on(|| both!(sl, v, |r| r.get(i).unwrap()));
                match b % 4 {
                    0 => on(|| e.set(T::mk(id))),
                    1 => {
                        let old = on(|| e.replace(T::mk(id)).id());
                        self.eq("the replaced value", old, win[i]);
                    }
                    2 => {
                        let old = on(|| {
                            let c = Cell::new(0);
                            e.update(|x| {
                                cb(Cb::Closure);
                                c.set(x.id());
                                x.set(id);
                            });
                            c.get()
                        });
                        self.eq("the value passed to update", old, win[i]);
                    }
                    _ => {
                        // replaced as a whole
                        on(|| {
                            e.update(|x| {
                                cb(Cb::Closure);
                                *x = T::mk(id)
                            })
                        });
                    }
                }
                self.m[lo + i] = id;
                self.set(CL_WRITE);
            }
            S_SWAP => {
                let ok = on(|| both!(sl, v, |r| r.swap(i, j)));
                self.eq(&format!("swap({i}, {j}) of {n} elements"), ok, i < n && j < n);
                if i < n && j < n {
                    self.m.swap(lo + i, lo + j);
                    self.set(CL_WRITE);
                }
                let ok = on(|| both!(sl, v, |r| r.swap(0, usize::MAX)));
                self.eq("swap with an index far behind the end", ok, false);
            }
            S_FILL => {
                let id = self.fresh(d);
                on(|| both!(sl, v, |r| r.fill(T::mk(id))));
                self.m[lo..hi].fill(id);
                self.set(CL_WRITE);
            }
            S_FILL_WITH => {
                let ids = self.grow_ids(n + 1, d);
                let mut k = 0;
                let mut order = true;
                let reads = b % 3 == 0;
                let mut old = vec![];
                on(|| {
                    both!(sl, v, |r| r.fill_with(|q| {
                        cb(Cb::Closure);
                        let x = ids.get(k).copied().unwrap_or(0);
                        order &= q == k;
                        if reads {
                            // the element itself is still accessible
                            let o = r.get(q).map(|e| e.map(|x| x.id()));
                            let p = if q > 0 { r.get(q - 1).map(|e| e.map(|x| x.id())) } else { None };
                            let ok = p == (if q > 0 { ids.get(q - 1).copied() } else { None });
                            off(|| old.push(if ok { o } else { None }));
                        }
                        k += 1;
                        T::mk(x)
                    }))
                });
                if reads {
                    let exp: Vec<Option<u64>> = win.iter().map(|x| Some(*x)).collect();
                    self.eq("the values seen by the function of fill_with", old, exp);
                }
                self.eq("the number of calls of the function of fill_with", k, n);
                self.eq("whether the function of fill_with receives the index of each element", order, true);
                self.m[lo..hi].copy_from_slice(&ids[..n]);
                self.set(CL_WRITE);
            }
            S_RAW => {
                let (x, y) = on(|| {
                    both!(sl, v, |r| {
                        let p = r.get_raw(i);
                        let q = r.get_raw_mut(i);
                        let same = p.map(|x| x as usize) == q.map(|x| x as usize);
                        let re = unsafe { r.get_ref(i) }.map(|x| x as *const T as usize);
                        let me = unsafe { r.get_mut(i) }.map(|x| x as *mut T as usize);
                        (p.map(|p| unsafe { (*p).id() }), same && p.map(|x| x as usize) == re && re == me)
                    })
                });
                self.eq("the value behind get_raw", x, win.get(i).copied());
                self.eq("agreement of get_raw, get_raw_mut, get_ref and get_mut", y, true);
                let got = both!(sl, v, |r| ids_ref(on(|| unsafe { r.iter_ref() })));
                self.eq("iter_ref", got, win.clone());
                let inside = on(|| match both!(sl, v, |r| (r.get(i), r.get_raw(i))) {
                    (Some(e), Some(p)) => {
                        let (e, p) = (addr(e), p as usize);
                        p >= e && p + std::mem::size_of::<T>() <= e + std::mem::size_of::<ConcurrentElement<T>>()
                    }
                    (None, None) => true,
                    _ => false,
                });
                self.eq("whether get_raw points into the element of get", inside, true);
                match b % 3 {
                    0 => {
                        let ids = self.grow_ids(n, d);
                        let mut k = 0;
                        on(|| both!(sl, v, |r| for x in unsafe { r.iter_mut() } {
                            if let Some(id) = ids.get(k) {
                                x.set(*id);
                            }
                            k += 1;
                        }));
                        self.eq("the number of elements of iter_mut", k, n);
                        self.m[lo..hi].copy_from_slice(&ids);
                        self.set(CL_WRITE);
                    }
                    1 if i < n => {
                        let id = self.fresh(d);
                        on(|| both!(sl, v, |r| *unsafe { r.get_mut(i) }.unwrap() = T::mk(id)));
                        self.m[lo + i] = id;
                        self.set(CL_WRITE);
                    }
                    2 if i < n => {
                        let id = self.fresh(d);
                        on(|| both!(sl, v, |r| unsafe { (*r.get_raw_mut(i).unwrap()).set(id) }));
                        self.m[lo + i] = id;
                        self.set(CL_WRITE);
                    }
                    _ => {}
                }
            }
            S_ELEM_EQ => {
                if n == 0 {
                    return;
                }
                let (i, j) = (a % n, b % n);
                let got = on(|| both!(sl, v, |r| r[i] == r[j]));
                self.eq(&format!("element {i} == element {j}"), got, T::same(win[i], win[j]));
                let id = if d % 2 == 0 { win[j] } else { self.fresh(d) };
                let x = on(|| T::mk(id));
                let got = on(|| both!(sl, v, |r| r[i] == x));
                self.eq(&format!("element {i} == {id:#x}"), got, T::same(win[i], id));
                on(|| drop(x));
            }
            S_SPLIT => {
                let r = try_on(|| both!(sl, v, |r| r.split_at(i)));
                match r {
                    Ok((x, y)) => {
                        if i > n {
                            self.bad(|| format!("split_at({i}) of {n} elements does not panic"));
                        } else {
                            self.check_window(&x, lo, lo + i, "the first part of split_at");
                            self.check_window(&y, lo + i, hi, "the second part of split_at");
                        }
                    }
                    Err(Caught::Other(m)) if i <= n => self.bad(|| format!("split_at({i}) of {n} elements panics: {m}")),
                    _ => {}
                }
                match on(|| both!(sl, v, |r| r.split_first())) {
                    Some((e, s)) if n > 0 => {
                        let x = on(|| e.map(|x| x.id()));
                        self.eq("the element of split_first", x, win[0]);
                        self.check_window(&s, lo + 1, hi, "the rest of split_first");
                    }
                    x => {
                        let x = x.is_some();
                        self.eq("the result of split_first", x, n > 0)
                    }
                }
                match on(|| both!(sl, v, |r| r.split_last())) {
                    Some((e, s)) if n > 0 => {
                        let x = on(|| e.map(|x| x.id()));
                        self.eq("the element of split_last", x, win[n - 1]);
                        self.check_window(&s, lo, hi - 1, "the rest of split_last");
                    }
                    x => {
                        let x = x.is_some();
                        self.eq("the result of split_last", x, n > 0)
                    }
                }
            }
            S_CHUNKS => {
                let k = match d % 8 {
                    0 => [usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, usize::MAX - n / 2, usize::MAX - n, (usize::MAX - n).wrapping_add(1).max(1 << 40), isize::MAX as usize, 1 << 32][b % 8],
                    1 => n * (1 + a % 3) + b % 2,
                    _ => a % (n + 3),
                };
                if k == 0 {
                    if try_on(|| both!(sl, v, |r| r.chunks(0).count())).is_ok() {
                        self.bad(|| "chunks(0) does not panic".into());
                    }
                    return;
                }
                let mut chunks: Box<dyn ExactSizeIterator<Item = ConcurrentSlice<T, P>> + '_> = match sl {
                    None => Box::new(on(|| v.chunks(k))),
                    Some(s) => Box::new(on(|| s.chunks(k))),
                };
                let total = n.div_ceil(k);
                let mut at = 0;
                for c in 0..total + 1 {
                    let l = on(|| chunks.len());
                    self.eq("the number of remaining chunks", l, total - c);
                    let Some(s) = on(|| chunks.next()) else {
                        self.eq("the number of chunks", c, total);
                        break;
                    };
                    if c == total {
                        self.bad(|| format!("chunks({k}) of {n} elements yields more than {total} chunks"));
                        break;
                    }
                    if b % 4 == 3 && !self.stuck && !self.over && self.room() > 0 && self.m.len() < 60 {
                        // the chunks are those of the elements which existed when the iterator was created
                        let x = self.fresh(d);
                        let i = on(|| self.v().push(T::mk(x)));
                        self.returned(i);
                        self.m.push(x);
                    }
                    let e = (at + k).min(n);
                    self.check_window(&s, lo + at, lo + e, &format!("chunk {c} of chunks({k})"));
                    at = e;
                }
                off(|| drop(chunks));
            }
            S_TO => {
                let w = on(|| both!(sl, v, |r| r.clone_to_vec()));
                let ids: Vec<u64> = on(|| w.iter().map(|x| x.id()).fold(off(Vec::new), |mut s, x| {
                    off(|| s.push(x));
                    s
                }));
                self.eq("clone_to_vec", ids, win);
                let m = self.m.len();
                self.owned(w.len());
                let _ = m;
                on(|| drop(w));
            }
            _ => {}
        }
    }

    /// How often, when and with what user functions and iterators are called.
    fn calls(&mut self, v: &ConcurrentVec<T, P>, sl: Option<&ConcurrentSlice<T, P>>, lo: usize, hi: usize, op: &Op) {
        let (a, b, d) = (op[1] as usize, op[2] as usize, op[4]);
        let n = hi - lo;
        let win: Vec<u64> = self.m[lo..hi].to_vec();
        if n >= 2 {
            self.set(CL_CALLS);
        }
        // identities passed to the function, in order
        let seen: RefCell<Vec<u64>> = RefCell::new(vec![]);
        let see = |i: u64| off(|| seen.borrow_mut().push(i));
        let stop = if b % 3 == 0 { a % (n + 1) } else { n };
        let accept = |i: u64| (i >> (b % 3)) % 2 == 0;
        match d % 18 {
            0 | 1 => {
                // lazily, one call per element
                let mut it: Box<dyn Iterator<Item = u64> + '_> = both!(sl, v, |r| Box::new(on(|| r.map(|x| {
                    cb(Cb::Closure);
                    let i = x.id();
                    see(i);
                    i
                }))));
                for k in 0..stop {
                    self.eq("the values passed to the function of map after some steps", seen.borrow().clone(), win[..k].to_vec());
                    let (l, u) = on(|| it.size_hint());
                    self.eq("whether the size hint of map is correct", l <= n - k && u.map(|u| u >= n - k).unwrap_or(true), true);
                    let got = on(|| it.next());
                    self.eq("an item of map", got, Some(win[k]));
                }
                if stop == n {
                    let more = on(|| it.next());
                    self.eq("an item of map after the last", more, None);
                }
                off(|| drop(it));
                self.eq("the values passed to the function of map", seen.into_inner(), win[..stop].to_vec());
            }
            2 | 3 => {
                let mut it: Box<dyn Iterator<Item = &ConcurrentElement<T>> + '_> = both!(sl, v, |r| Box::new(on(|| r.filter(|x| {
                    cb(Cb::Closure);
                    let i = x.id();
                    see(i);
                    accept(i)
                }))));
                let mut at = 0;
                loop {
                    self.eq("the values passed to the function of filter after some steps", seen.borrow().clone(), win[..at].to_vec());
                    let left = win[at..].iter().filter(|x| accept(**x)).count();
                    let (l, u) = on(|| it.size_hint());
                    self.eq("whether the size hint of filter is correct", l <= left && u.map(|u| u >= left).unwrap_or(true), true);
                    if at >= stop {
                        break;
                    }
                    let got = on(|| it.next().map(|e| e.map(|x| x.id())));
                    let p = (at..n).find(|p| accept(win[*p]));
                    self.eq("an item of filter", got, p.map(|p| win[p]));
                    at = p.map(|p| p + 1).unwrap_or(n);
                }
                off(|| drop(it));
                self.eq("the values passed to the function of filter", seen.into_inner(), win[..at].to_vec());
            }
            4 => {
                let r = on(|| both!(sl, v, |r| r.fold(0usize, |s, x| {
                    cb(Cb::Closure);
                    see(x.id());
                    s + 1
                })));
                self.eq("the number of steps of fold", r, n);
                self.eq("the values passed to the function of fold", seen.into_inner(), win);
            }
            5 => {
                on(|| drop(both!(sl, v, |r| r.reduce(|x, y| {
                    cb(Cb::Closure);
                    see(y.id());
                    T::mk(x.id())
                }))));
                let e = if n > 0 { win[1..].to_vec() } else { vec![] };
                self.eq("the values passed to the function of reduce", seen.into_inner(), e);
            }
            6 => {
                let ids = self.grow_ids(n + 1, d);
                on(|| both!(sl, v, |r| r.fill_with(|i| {
                    cb(Cb::Closure);
                    see(i as u64);
                    T::mk(ids.get(i).copied().unwrap_or(0))
                })));
                self.eq("the indices passed to the function of fill_with", seen.into_inner(), (0..n as u64).collect());
                self.m[lo..hi].copy_from_slice(&ids[..n]);
            }
            7 if n > 0 => {
                let i = a % n;
                let id = self.fresh(d);
                on(|| both!(sl, v, |r| {
                    r[i].map(|x| see(x.id()));
                    r[i].update(|x| {
                        cb(Cb::Closure);
                        see(x.id());
                        x.set(id)
                    })
                }));
                self.eq("the values passed to the functions of map and update", seen.into_inner(), vec![win[i]; 2]);
                self.m[lo + i] = id;
            }
            8 if self.room() > 0 => {
                let id = self.fresh(d);
                let i = on(|| v.push_for_idx(|i| {
                    cb(Cb::Closure);
                    see(i as u64);
                    T::mk(id)
                }));
                self.returned(i);
                self.eq("the positions passed to the function of push_for_idx", seen.into_inner(), vec![i as u64]);
                self.m.push(id);
            }
            9 | 10 | 11 => {
                // an iterator which is lent is left with the values which were not requested
                let k = self.n_items(op[1]);
                let extra = if d % 18 == 9 { b % 4 } else { 0 };
                let ids = self.grow_ids(k + extra, d);
                let mut src = it::<T>(ids.clone());
                let i = match d % 18 {
                    9 => on(|| v.extend_n_items(&mut src, k)),
                    10 => on(|| {
                        let src = &mut src;
                        v.extend_for_idx(
                            |i| {
                                cb(Cb::Closure);
                                see(i as u64);
                                src
                            },
                            k,
                        )
                    }),
                    _ => on(|| v.extend(&mut src)),
                };
                self.returned(i);
                if d % 18 == 10 {
                    self.eq("the positions passed to the function of extend_for_idx", seen.into_inner(), vec![i as u64]);
                }
                let rest: Vec<u64> = src.0.ids.collect();
                self.eq("the values which are left in a lent iterator", rest, ids[k..].to_vec());
                self.m.extend(&ids[..k]);
            }
            12 => {
                // elements are visited when the iterator reaches them
                let ids = self.grow_ids(n, d);
                let mut it: Box<dyn Iterator<Item = T> + '_> = both!(sl, v, |r| Box::new(on(|| r.iter_cloned())));
                for k in 0..stop {
                    let id = ids[k];
                    on(|| v[lo + k].set(T::mk(id)));
                    self.m[lo + k] = id;
                    let (l, u) = on(|| it.size_hint());
                    self.eq("whether the size hint of iter_cloned is correct", l <= n - k && u.map(|u| u >= n - k).unwrap_or(true), true);
                    let got = on(|| it.next().map(|x| x.id()));
                    self.eq("the item of iter_cloned for an element which was just changed", got, Some(id));
                    self.owned(0);
                }
                off(|| drop(it));
            }
            13 if n > 0 => {
                // comparisons with a value
                let i = a % n;
                let x = on(|| T::mk(win[i]));
                let before = cb_counts()[Cb::Eq as usize];
                on(|| both!(sl, v, |r| r[i] == x));
                let k = cb_counts()[Cb::Eq as usize] - before;
                self.eq("whether == of an element with a value compares once", k <= 1, true);
                on(|| drop(x));
            }
            14 | 15 => {
                // values are compared until the first one which is equal
                let id = if n > 0 && b % 4 != 0 { win[a % n] } else { self.fresh(d) };
                let x = on(|| T::mk(id));
                let counted = count(Cb::Eq, || drop(on(|| PartialEq::eq(&x, &x)))) == 1;
                let k = count(Cb::Eq, || {
                    if d % 18 == 14 {
                        on(|| both!(sl, v, |r| r.index_of(&x)));
                    } else {
                        on(|| both!(sl, v, |r| r.contains(&x)));
                    }
                });
                if counted {
                    let e = win.iter().position(|y| T::same(id, *y)).map(|p| p + 1).unwrap_or(n);
                    self.eq("the number of comparisons of a search", k as usize, e);
                }
                on(|| drop(x));
            }
            16 => {
                let k = count(Cb::Fmt, || drop(on(|| both!(sl, v, |r| format!("{r:?}")))));
                if n > 0 {
                    let counted = count(Cb::Fmt, || drop(on(|| v[lo].map(|x| format!("{x:?}"))))) == 1;
                    if counted {
                        self.eq("the number of formatted values", k as usize, n);
                    }
                }
            }
            17 => {
                // comparisons stop at the first difference
                let mut w = win.clone();
                if n > 0 && b % 4 != 0 {
                    w[a % n] = self.fresh(d);
                }
                let arr: Vec<T> = on(|| w.iter().map(|x| T::mk(*x)).collect());
                let k = count(Cb::Eq, || {
                    on(|| match sl {
                        None => P::eq_va(v, &arr),
                        Some(s) => P::eq_sa(s, &arr),
                    });
                });
                let e = win.iter().zip(&w).position(|(x, y)| !T::same(*x, *y)).map(|p| p + 1).unwrap_or(n);
                self.eq("whether == compares no values behind the first difference", k as usize <= e, true);
                let k = count(Cb::Eq, || {
                    on(|| match sl {
                        None => P::eq_vv(v, v),
                        Some(s) => P::eq_vs(v, s),
                    });
                });
                let e = win.iter().zip(&self.m).position(|(x, y)| !T::same(*x, *y)).map(|p| p + 1).unwrap_or(n);
                self.eq("whether == of vecs and slices compares no values behind the first difference", k as usize <= e, true);
                on(|| drop(arr));
            }
            _ => {}
        }
    }

    fn convert(&mut self, op: &Op) {
        let (a, b, d) = (op[1] as usize, op[2] as usize, op[4]);
        let n = self.m.len();
        if self.stuck && !matches!(op[0], S_CLONE) {
            return;
        }
        if n > 0 {
            self.set(CL_CONV);
        }
        match op[0] {
            S_CLONE => {
                let Some(w) = on(|| P::try_clone(self.v())) else { return };
                let w = on(|| Box::new(w));
                let (l, ids) = (on(|| w.len()), ids_of(on(|| w.iter_cloned())));
                let exp = self.m.clone();
                self.eq("length of the clone", l, n);
                self.eq("values of the clone", ids, exp.clone());
                self.owned(n);
                // clones are independent
                let id = self.fresh(d);
                let mut wm = exp.clone();
                if n > 0 {
                    on(|| w[a % n].set(T::mk(id)));
                    wm[a % n] = id;
                }
                let i = on(|| w.push(T::mk(id)));
                self.eq("the position of a push to the clone", i, n);
                wm.push(id);
                let ids = ids_of(on(|| self.v().iter_cloned()));
                self.eq("values of the source after the clone was changed", ids, exp);
                let ids = ids_of(on(|| w.iter_cloned()));
                self.eq("values of the changed clone", ids, wm.clone());
                if b % 2 == 0 {
                    let old = self.v.take().unwrap();
                    on(|| drop(old));
                    self.m = wm;
                    self.renew(w);
                } else {
                    on(|| drop(w));
                }
            }
            S_TO_VEC => {
                let v = self.v.take().unwrap();
                let w = on(|| v.to_vec());
                let ids: Vec<u64> = w.iter().map(|x| on(|| x.id())).collect();
                let exp = self.m.clone();
                self.eq("to_vec", ids, exp);
                self.owned(0);
                let sc = self.sc;
                let v = on(|| Box::new(P::build(&sc)));
                if v.maximum_capacity() < w.len() {
                    on(|| drop(w));
                    self.m.clear();
                } else {
                    on(|| v.extend(w));
                }
                self.renew(v);
            }
            S_INNER => {
                let v = self.v.take().unwrap();
                let mut p = on(|| v.into_inner());
                self.eq("length of the inner storage", PinnedVec::len(&p), n);
                let mut ids = vec![];
                for i in 0..PinnedVec::len(&p) {
                    match on(|| p.get(i)) {
                        Some(e) => ids.push(on(|| e.map(|x| x.id()))),
                        None => self.bad(|| format!("the inner storage has no element at {i}")),
                    }
                }
                let exp = self.m.clone();
                self.eq("values of the inner storage", ids, exp);
                self.owned(0);
                let room = if self.lockstep { 4 } else { on(|| PinnedVec::capacity(&p)) - n };
                for _ in 0..(b % 4).min(room) {
                    let id = self.fresh(d);
                    on(|| p.push(some_elem(T::mk(id))));
                    self.m.push(id);
                }
                if a % 3 == 0 && !self.m.is_empty() {
                    on(|| drop(p.pop()));
                    self.m.pop();
                }
                let v = on(|| Box::new(ConcurrentVec::<T, P>::from(p)));
                self.renew(v);
            }
            S_COLLECT => {
                let k = a % 20;
                let ids = self.grow_ids(k, d);
                // what happens if the announced length is wrong is not specified here
                mute(plan_action() == ACT_SHORT);
                let w = if b % 3 == 0 { on(|| P::try_collect(&mut it::<T>(ids.clone()))) } else { on(|| P::try_collect(&mut Vague(it::<T>(ids.clone()), d))) };
                mute(false);
                let Some(w) = w else { return };
                let w = on(|| Box::new(w));
                let old = self.v.take().unwrap();
                on(|| drop(old));
                self.m = ids;
                self.renew(w);
            }
            S_INTO_ITER => {
                let v = self.v.take().unwrap();
                let take = if a % 2 == 0 { n } else { b % (n + 1) };
                let mut it = on(|| Box::new(v.into_iter()));
                let mut ids = vec![];
                for _ in 0..take {
                    let (l, u) = on(|| it.size_hint());
                    let rest = n - ids.len();
                    self.checks += 1;
                    if l > rest || u.map(|u| u < rest).unwrap_or(false) {
                        self.bad(|| format!("into_iter promises {l}..{u:?} elements while {rest} are left"));
                    }
                    match on(|| it.next()) {
                        Some(x) => {
                            ids.push(on(|| x.id()));
                            on(|| drop(x));
                        }
                        None => break,
                    }
                }
                let exp = self.m[..take].to_vec();
                self.eq("into_iter", ids.clone(), exp);
                if take == n {
                    let more = on(|| it.next().is_some());
                    self.eq("an element of into_iter after the last", more, false);
                }
                self.m.drain(..take);
                self.owned(0);
                on(|| drop(it));
                self.m.clear();
                self.owned(0);
                self.rebuild(ids);
            }
            _ => {
                // from a storage with values
                let sc = self.sc;
                let mut p = on(|| P::pinned(&sc));
                let k = (a % 20).min(if P::FIXED { sc.cap } else { 20 });
                let k = if P::NAME == "split-linear" { k.min(P::max_cap(&sc)) } else { k };
                let ids = self.grow_ids(k, d);
                for id in &ids {
                    on(|| p.push(some_elem(T::mk(*id))));
                }
                let old = self.v.take().unwrap();
                on(|| drop(old));
                let v = on(|| Box::new(ConcurrentVec::<T, P>::from(p)));
                self.m = ids;
                self.renew(v);
            }
        }
    }

    fn exclusive(&mut self, op: &Op) {
        let (a, b, d) = (op[1] as usize, op[2] as usize, op[4]);
        match op[0] {
            S_CLEAR => {
                if self.classes >> CL_GREW & 1 == 1 {
                    self.set(CL_EXCL_LATE);
                }
                on(|| self.v.as_mut().unwrap().clear());
                self.m.clear();
                self.owned(0);
                self.addrs.clear();
                self.stuck = false;
                self.excl += 1;
                let mc = on(|| self.v().maximum_capacity());
                self.checks += 1;
                if mc < self.max_cap {
                    let x = self.max_cap;
                    self.bad(|| format!("the maximum capacity shrinks from {x} to {mc}"));
                }
                self.max_cap = mc;
                let cap = on(|| self.v().capacity());
                if cap > self.cap0.max(P::cap_for(&self.sc, self.high.max(1))) && !self.over && !self.stuck {
                    let c0 = self.cap0;
                    fail(GROWTH, || format!("clear raises the capacity from {c0} to {cap}"));
                }
                self.cap0 = cap;
                self.high = 0;
            }
            S_RESERVE => {
                if self.stuck {
                    return;
                }
                if self.classes >> CL_GREW & 1 == 1 {
                    self.set(CL_EXCL_LATE);
                }
                let want = if self.max_cap > 1 << 20 { a * 10 } else { (self.max_cap + a % 40).saturating_sub(b % 8) };
                let cap = on(|| self.v().capacity());
                let r = on(|| self.v.as_mut().unwrap().reserve_maximum_capacity(want));
                let mc = on(|| self.v().maximum_capacity());
                self.eq("the returned maximum capacity", r, mc);
                self.checks += 1;
                let old = self.max_cap;
                if r < old {
                    self.bad(|| format!("reserve_maximum_capacity({want}) reduces the maximum capacity from {old} to {r}"));
                }
                if !P::FIXED && r < want {
                    self.bad(|| format!("reserve_maximum_capacity({want}) returns {r}"));
                }
                let c2 = on(|| self.v().capacity());
                if c2 < cap {
                    self.bad(|| format!("reserve_maximum_capacity({want}) reduces the capacity from {cap} to {c2}"));
                }
                if c2 != cap {
                    fail(GROWTH, || format!("reserve_maximum_capacity({want}) changes the capacity from {cap} to {c2}"));
                }
                self.max_cap = r;
                self.excl += 1;
            }
            S_OVERFLOW if b % 8 == 7 => self.huge(a, d),
            S_OVERFLOW => {
                if self.stuck || self.room() > 80 || self.max_cap > 1 << 20 {
                    return;
                }
                if b % 3 != 0 {
                    // fill up to the limit
                    let k = self.room();
                    let ids = self.grow_ids(k, d);
                    let i = on(|| self.v().extend(it(ids.clone())));
                    self.returned(i);
                    self.m.extend(ids);
                }
                let room = self.room();
                let x = self.fresh(d);
                let v = self.v();
                let how = if room == 0 { a % 5 } else { 1 + a % 3 };
                let k = room + 1 + b % 4;
                let ids: Vec<u64> = (0..k).map(|_| x).collect();
                let r = match how {
                    0 => try_on(|| v.push(T::mk(x))),
                    1 => try_on(|| v.extend(it(ids))),
                    2 => try_on(|| v.extend_n_items(it(ids), k)),
                    3 => try_on(|| v.extend_for_idx(|_| it(ids), k)),
                    _ => try_on(|| v.push_for_idx(|_| T::mk(x))),
                };
                self.checks += 1;
                match r {
                    Ok(i) => self.bad(|| format!("growth of a full vec succeeds with position {i}")),
                    Err(Caught::Injected) => std::panic::resume_unwind(Box::new(rt::Injected)),
                    Err(Caught::Other(_)) => {}
                }
                if room > 0 {
                    self.stuck = true;
                }
                self.over = true;
                self.set(CL_OVERFLOW);
            }
            S_WRONG_LEN => {
                // extend_for_idx panics if the iterator does not have the announced length
                if self.stuck || self.over {
                    return;
                }
                let k = self.n_items(op[1]);
                let l = if b % 2 == 0 && k > 0 { k - 1 - b / 2 % k } else { k + 1 + b / 2 % 3 };
                let ids = self.grow_ids(l, d);
                let v = self.v();
                let src = ids.clone();
                let r = try_on(|| v.extend_for_idx(|_| it(src), k));
                self.checks += 1;
                match r {
                    Ok(i) => self.bad(|| format!("extend_for_idx with {l} instead of {k} values succeeds with position {i}")),
                    Err(Caught::Injected) => std::panic::resume_unwind(Box::new(rt::Injected)),
                    Err(Caught::Other(_)) => {}
                }
                // some of the values might have been pushed; the other positions stay unused
                let n = self.m.len();
                let now = on(|| self.v().len());
                self.eq("whether the length is one of those which are possible", now >= n && now <= n + k.min(l), true);
                self.m.extend(&ids[..now - n]);
                self.stuck = k > 0;
                self.set(CL_WRONG_LEN);
            }
            S_NEW => {
                let v = self.v.take().unwrap();
                on(|| drop(v));
                self.m.clear();
                self.owned(0);
                if P::NAME == "split-linear" {
                    self.sc.exp = 1 + a % 4;
                    self.sc.frags = 1 + b % 12;
                }
                if P::FIXED {
                    self.sc.cap = a % 40;
                }
                let sc = self.sc;
                let v = on(|| Box::new(P::build(&sc)));
                self.renew(v);
                let mc = self.max_cap;
                if P::FIXED || P::NAME == "split-linear" {
                    self.eq("the maximum capacity of a new vec", mc, P::max_cap(&sc));
                }
            }
            _ => {
                // several threads grow the vec
                if self.stuck {
                    return;
                }
                let nt = 1 + a % 3;
                let mut r = Rng::new(d.wrapping_mul(977).wrapping_add(b as u64));
                let mut room = self.room();
                let mut plan: Vec<Vec<(u64, Vec<u64>)>> = vec![vec![]; nt];
                for _ in 0..4 {
                    for t in 0..nt {
                        let k = (if r.chance(1, 2) { 1 } else { r.range(0, 5) as usize }).min(room);
                        if k == 0 {
                            continue;
                        }
                        room -= k;
                        let ids = self.grow_ids(k, r.next());
                        plan[t].push((r.below(4), ids));
                    }
                }
                let got: RefCell<Vec<(usize, Vec<u64>)>> = RefCell::new(vec![]);
                let v = self.v();
                mute(true); // faults among several threads: see the concurrent cases
                rt::run_fibers(nt, &|f| {
                    for (kind, ids) in &plan[f - 1] {
                        unsafe { rt::rt_op_begin() };
                        let i = on(|| {
                            if ids.len() == 1 {
                                match kind % 2 {
                                    0 => v.push(T::mk(ids[0])),
                                    _ => v.push_for_idx(|_| T::mk(ids[0])),
                                }
                            } else {
                                let src = off(|| ids.clone());
                                match kind % 3 {
                                    0 => v.extend(it(src)),
                                    1 => v.extend_n_items(it(src), ids.len()),
                                    _ => {
                                        let k = ids.len();
                                        v.extend_for_idx(|_| it(src), k)
                                    }
                                }
                            }
                        });
                        got.borrow_mut().push((i, ids.clone()));
                        unsafe { rt::rt_op_done() };
                    }
                });
                mute(false);
                unsafe { rt::rt_op_begin() };
                let mut got = got.into_inner();
                got.sort();
                for (i, ids) in got {
                    let at = self.m.len();
                    self.eq("a position returned to one of several threads", i, at);
                    self.m.extend(ids);
                }
                self.set(CL_EPOCH);
            }
        }
    }

    /// A request which can never be fulfilled, whose size is close to the number of positions that exist.
    fn huge(&mut self, a: usize, d: u64) {
        if self.stuck {
            return;
        }
        let n = self.m.len();
        let x = self.fresh(d);
        // begin + k is 0, slightly more than 0, the length of the vec, or does not overflow
        let k = match a % 6 {
            0 => usize::MAX - n,
            1 => (usize::MAX - n).wrapping_add(1).max(usize::MAX / 2),
            2 => usize::MAX,
            3 => usize::MAX - 1,
            4 => usize::MAX / 2,
            _ => usize::MAX - n / 2,
        };
        let v = self.v();
        let src = || Many { left: k, yields: 40, x, _p: std::marker::PhantomData };
        let r = match d % 3 {
            0 => try_on(|| v.extend(src())),
            1 => try_on(|| v.extend_n_items(src(), k)),
            _ => try_on(|| v.extend_for_idx(|_| src(), k)),
        };
        self.checks += 1;
        match r {
            Ok(i) => self.bad(|| format!("extending by {k} items succeeds with position {i}")),
            Err(Caught::Injected) => std::panic::resume_unwind(Box::new(rt::Injected)),
            Err(Caught::Other(_)) => {}
        }
        self.over = true;
        self.set(CL_OVERFLOW);
        // no position which is in use is handed out again
        let y = self.fresh(d ^ 1);
        match try_on(|| self.v().push(T::mk(y))) {
            Ok(i) => {
                if self.room() == 0 {
                    self.bad(|| format!("push to a full vec succeeds with position {i}"));
                }
                let n = self.m.len();
                self.eq("the returned position", i, n);
                self.m.push(y);
            }
            Err(Caught::Injected) => std::panic::resume_unwind(Box::new(rt::Injected)),
            Err(Caught::Other(_)) => self.stuck = self.room() > 0,
        }
    }

    fn run(&mut self, k: usize, op: &Op, quiet: bool) -> bool {
        unsafe { rt::rt_op_begin() };
        let s = SCALE.get() as u64;
        let op = &[op[0], op[1] * s + op[4] * 7919 % s, op[2] * s + op[4] * 104_729 % s, op[3], op[4]];
        self.step = k;
        self.name = sop_name(op[0]);
        self.kind = match op[0] {
            S_CLONE..=S_FROM => CONV,
            S_CLEAR..=S_RESERVE | S_EPOCH | S_NEW => EXCL,
            S_OVERFLOW => CAPA,
            S_CALLS => CALLS,
            S_SPLIT | S_CHUNKS | S_SLICE_KEEP => SLICE,
            S_GETS..=S_TO if op[3] & 15 != 0 => SLICE,
            _ => SEQ,
        };
        if self.excl > 0 && self.kind == SEQ {
            // the state after clear and reserve is part of their contract
            if driver::enabled(EXCL) {
                self.kind = EXCL;
            }
        }
        let was = self.m.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.exec(op)));
        unsafe { rt::rt_set_on(0) };
        match r {
            Ok(()) => {
                self.high = self.high.max(self.m.len());
                if !quiet {
                    self.full();
                    self.owned(0);
                }
                true
            }
            Err(e) => {
                // the iterator of a growth call was too short
                let short = plan_short() && matches!(op[0], S_PUSH..=S_EXTEND_N | S_ITER_GROW | S_REENTER | S_SLICE_KEEP | S_TO_VEC | S_COLLECT | S_INTO_ITER | S_EQ | S_OVERFLOW);
                let injected = short || e.is::<rt::Injected>();
                let m = if injected { String::new() } else { e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default() };
                on(|| drop(e));
                if !injected {
                    fail(rt::K_ORACLE, || format!("step {k} ({} {:?}) panicked: {m}", sop_name(op[0]), &op[1..]));
                    return false;
                }
                self.set(CL_INJECTED);
                self.after_panic(op, was);
                false
            }
        }
    }

    /// a user function panicked during `op`, `was` is the expectation before the step
    fn after_panic(&mut self, op: &Op, was: Vec<u64>) {
        set_plan(Plan::default());
        self.name = "after a panic of a user function";
        self.kind = PANIC;
        if self.v.is_none() {
            return;
        }
        let grows = matches!(op[0], S_PUSH..=S_EXTEND_N | S_ITER_GROW | S_REENTER | S_SLICE_KEEP | S_OVERFLOW);
        let writes = matches!(op[0], S_WRITE | S_FILL | S_FILL_WITH | S_RAW | S_REENTER);
        let ids = ids_of(on(|| self.v().iter_cloned()));
        self.checks += 1;
        self.m = was.clone();
        let n = was.len();
        if ids.len() < n || (!grows && ids.len() != n) {
            self.bad(|| format!("{} elements are left", ids.len()));
        }
        if !writes {
            let k = n.min(ids.len());
            if ids[..k] != was[..k] {
                self.bad(|| format!("the values are {ids:x?}"));
            }
        }
        // growth and element access are still possible
        if !self.stuck && !self.over && op[0] != S_OVERFLOW && self.room() > 20 * SCALE.get() + ids.len() - n {
            let x = T::norm(4242);
            let i = on(|| self.v().push(T::mk(x)));
            self.checks += 1;
            if i < ids.len() || i < self.nested.get() {
                self.bad(|| format!("a push returned the position {i} which is in use"));
            }
            let g = on(|| self.v().get_cloned(i).map(|x| x.id()));
            if g.map(|g| g != x).unwrap_or(false) {
                self.bad(|| "a pushed value is not at its position".into());
            }
        }
        for i in 0..ids.len() {
            let x = T::norm(9000 + i as u64);
            let old = on(|| self.v()[i].replace(T::mk(x)).id());
            self.eq("an element", old, ids[i]);
        }
    }

    fn finish(mut self, end: u64, clean: bool) -> (u64, u64) {
        unsafe { rt::rt_op_begin() };
        self.name = "the end";
        self.kind = CONV;
        let n = self.m.len();
        if let Some(v) = self.v.take() {
            let exp = self.m.clone();
            match end % 5 {
                1 if clean && !self.stuck => {
                    let w = on(|| v.to_vec());
                    let ids: Vec<u64> = w.iter().map(|x| on(|| x.id())).collect();
                    on(|| drop(w));
                    self.eq("to_vec", ids, exp);
                }
                2 if clean && !self.stuck => {
                    let mut it = on(|| Box::new(v.into_iter()));
                    for k in 0..n / 2 {
                        let x = on(|| it.next());
                        let id = x.as_ref().map(|x| on(|| x.id()));
                        on(|| drop(x));
                        self.eq("into_iter", id, Some(exp[k]));
                    }
                    on(|| drop(it));
                }
                3 if clean && !self.stuck => {
                    let p = on(|| v.into_inner());
                    self.eq("the length of the inner storage", PinnedVec::len(&p), n);
                    on(|| drop(p));
                }
                4 => {
                    let mut v = v;
                    on(|| v.clear());
                    let l = on(|| v.len());
                    self.eq("len after clear", l, 0);
                    on(|| drop(v));
                }
                _ => on(|| drop(v)),
            }
        }
        self.m.clear();
        self.owned(0);
        (self.classes, self.checks)
    }
}

fn exec<T: Pay, P: Store<T>>(c: &Case, alone: bool) -> (u64, u64, Vec<u64>) {
    let mut sc = conc::store_cfg(c);
    if !alone {
        // large enough for all programs
        sc.exp = sc.exp.max(2);
        sc.frags = sc.frags.max(60);
        sc.cap = 400;
    }
    SCALE.set(c.cfg.get(C_SCALE).map(|s| *s as usize).unwrap_or(1).max(1));
    if !alone {
        sc.cap *= SCALE.get();
        sc.frags *= SCALE.get();
    }
    unsafe { rt::rt_op_begin() };
    let mut m = M::<T, P>::new(sc);
    m.lockstep = !alone;
    let n0 = (c.cfg[C_INIT] as usize).min(m.room());
    if n0 > 0 {
        let ids = m.grow_ids(n0, 1);
        on(|| m.v().extend(it(ids.clone())));
        m.m = ids;
    }
    set_plan(Plan { mask: c.cfg[C_MASK] as u32, fiber: 0, at: c.cfg[C_AT], action: c.cfg[C_ACT] as u32, yields: 0 });
    let mut clean = true;
    for (k, op) in c.threads[0].iter().enumerate() {
        if !m.run(k, op, c.cfg.get(C_QUIET).map(|q| q >> (k % 64) & 1 == 1).unwrap_or(false)) {
            clean = false;
            break;
        }
        if !alone {
            let d = m.m.iter().fold(m.m.len() as u64, |s, x| s.wrapping_mul(0x100000001b3).wrapping_add(*x));
            m.log.push(d);
        }
    }
    set_plan(Plan::default());
    let log = std::mem::take(&mut m.log);
    let (cl, ch) = m.finish(c.cfg[C_END], clean);
    let blocks = unsafe { rt::rt_live() };
    if blocks != 0 {
        fail(rt::K_LEAK, || format!("{blocks} heap block(s) are not freed after the vec is consumed or dropped"));
    }
    (cl, ch, log)
}

pub fn run(c: &Case) -> Outcome {
    driver::only(None);
    conc::begin_case(c);
    
    let _: Option<Rc<u8>> = None;
    let (classes, checks) = match c.cfg[C_COMBO] {
        0 => exec::<Tr, Dbl<Tr>>(c, true),
        1 => exec::<Tr, Lin<Tr>>(c, true),
        2 => exec::<Tr, Fix<Tr>>(c, true),
        3 => exec::<P2, Dbl<P2>>(c, true),
        4 => exec::<Big, Fix<Big>>(c, true),
        5 => exec::<Z, Lin<Z>>(c, true),
        6 => exec::<U8, Lin<U8>>(c, true),
        7 => exec::<Nq, Dbl<Nq>>(c, true),
        8 => exec::<Big, Lin<Big>>(c, true),
        9 => exec::<Z, Fix<Z>>(c, true),
        _ => {
            let a = exec::<Tr, Dbl<Tr>>(c, false);
            let b = exec::<Tr, Lin<Tr>>(c, false);
            let d = exec::<Tr, Fix<Tr>>(c, false);
            if a.2 != b.2 || a.2 != d.2 {
                let k = (0..a.2.len()).find(|k| a.2.get(*k) != b.2.get(*k) || a.2.get(*k) != d.2.get(*k)).unwrap_or(0);
                fail(CONV, || format!("the observations of split-doubling, split-linear and fixed storages differ (first at {k})"));
            }
            (a.0 | b.0 | d.0, a.1 + b.1 + d.1, vec![])
        }
    }
    .into_pair();
    let st = rt::stats();
    let mut hash = Hash64::new();
    hash.add(c.hash());
    hash.add(st.switches);
    hash.add(st.steps);
    Outcome { classes, nontrivial: false, hash: hash.get(), checks }
}
trait Pair {
    fn into_pair(self) -> (u64, u64);
}
impl Pair for (u64, u64, Vec<u64>) {
    fn into_pair(self) -> (u64, u64) {
        (self.0, self.1)
    }
}

pub fn describe(c: &Case) -> String {
    let g = |i: usize| c.cfg.get(i).copied().unwrap_or(0);
    let combo = COMBOS.get(g(C_COMBO) as usize).copied().unwrap_or("?");
    let mut s = format!("sequential: {combo}(2^{} x {}, {}), {} initial elements, end {}", g(conc::C_EXP), g(conc::C_FRAGS), g(conc::C_CAP), g(C_INIT), g(C_END) % 5);
    if g(C_ACT) == ACT_SHORT as u64 {
        s += &format!(", the iterator ends too early at user call #{}", g(C_AT));
    }
    if g(C_ACT) == ACT_PANIC as u64 {
        s += &format!(", panic at user call #{} (kinds {:#x})", g(C_AT), g(C_MASK));
    }
    for o in &c.threads[0] {
        s += &format!("\n  {}[{}, {}, {:#x}, {}]", sop_name(o[0]), o[1], o[2], o[3], o[4]);
    }
    s
}
