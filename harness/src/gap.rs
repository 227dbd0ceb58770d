//! Generated sequential histories in which growth calls fail, and which continue afterwards.
//! The model knows for each position whether it holds a value; failed calls leave positions without one.
use crate::case::*;
use crate::conc::{self, parse_debug, ADDR, CAPA, C_COMBO, C_END, C_INIT, C_QUIET, GROWTH, LEN, OWN, PANIC, POS, RAW};
use crate::driver::{self, fail, Outcome};
use crate::payload::*;
use crate::rt::{self, off, on, try_on, Caught};
use crate::seq::{CALLS, EXCL};
use crate::store::*;
use orx_concurrent_vec::*;
use std::cell::{Cell, RefCell};

macro_rules! gops {
    ($($name:ident = $v:expr),* $(,)?) => {
        $(pub const $name: u64 = $v;)*
        pub fn gop_name(o: u64) -> &'static str {
            match o { $($v => stringify!($name),)* _ => "?" }
        }
    };
}
gops! {
    G_PUSH = 0, G_PUSH_FOR_IDX = 1, G_EXTEND = 2, G_EXTEND_N = 3, G_EXTEND_FOR_IDX = 4, G_EPOCH = 5,
    G_GET = 6, G_WRITE = 7, G_SWAP = 8, G_FILL = 9, G_FILL_WITH = 10, G_READS = 11, G_SLICES = 12, G_RAW_WRITE = 13, G_EQ = 14,
    G_CLEAR = 15, G_RESERVE = 16, G_OVERFLOW = 17,
}

pub const CL_GAP: u64 = 0;
pub const CL_FAULTS: u64 = 1;
pub const CL_EXCL: u64 = 2;
pub const CL_OVER: u64 = 3;
pub const CL_GREW: u64 = 4;
pub const CL_EPOCH: u64 = 5;
pub const CLASSES: &[&str] = &[
    "a value is located behind a position without a value",
    "several user functions panicked",
    "clear or reserve on a vec with a position without a value",
    "growth beyond the maximum capacity failed, and the history went on",
    "the storage allocated memory after a call had failed",
    "growth calls of several threads, some of which failed",
];

fn panic_now() -> ! {
    std::panic::resume_unwind(Box::new(rt::Injected))
}

/// An iterator which announces `announce` values, ends before or panics instead of yielding the one with number `at`.
struct Src<T> {
    ids: std::vec::IntoIter<u64>,
    announce: usize,
    k: usize,
    /// 1: panics, 2: ends
    fault: u64,
    at: usize,
    ended: bool,
    _p: std::marker::PhantomData<T>,
}
impl<T: Pay> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        cb(Cb::Iter);
        self.k += 1;
        if self.k == self.at + 1 {
            match self.fault {
                1 => panic_now(),
                2 => self.ended = true,
                _ => {}
            }
        }
        if self.ended {
            return None;
        }
        self.ids.next().map(T::mk)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.announce, Some(self.announce))
    }
}
impl<T: Pay> ExactSizeIterator for Src<T> {
    fn len(&self) -> usize {
        self.announce
    }
}

struct G<T: Pay, P: Store<T>> {
    v: Option<Box<ConcurrentVec<T, P>>>,
    sc: StoreCfg,
    /// values of the positions which are in use
    m: Vec<Option<u64>>,
    /// the next position is `m.len()..=hi`
    hi: usize,
    addrs: Vec<Option<usize>>,
    max_cap: usize,
    cap0: usize,
    /// growth failed for lack of capacity: it may fail from now on, although there are unused positions
    over: bool,
    next: u64,
    kind: i32,
    step: usize,
    name: &'static str,
    classes: u64,
    checks: u64,
    faults: u32,
    excl: u32,
}

impl<T: Pay, P: Store<T>> G<T, P> {
    fn v(&self) -> &ConcurrentVec<T, P> {
        self.v.as_ref().unwrap()
    }
    fn set(&mut self, c: u64) {
        self.classes |= 1 << c;
    }
    /// The failure belongs to the kind, or to what preceded it.
    fn bad(&self, kind: i32, msg: impl FnOnce() -> String) {
        let kind = if driver::enabled(kind) {
            kind
        } else if self.excl > 0 && driver::enabled(EXCL) {
            EXCL
        } else if self.over && driver::enabled(CAPA) {
            CAPA
        } else if self.faults > 0 && driver::enabled(PANIC) {
            PANIC
        } else {
            kind
        };
        let (k, n) = (self.step, self.name);
        let m = || {
            let t: Vec<String> = self.m.iter().map(|x| x.map(|x| format!("{x:x}")).unwrap_or("-".into())).collect();
            let mut t = t.join(" ");
            t.truncate(600);
            t
        };
        fail(kind, || format!("step {k} ({n}): {}; the positions are expected to hold [{}], and the next one to be {}..={}", msg(), m(), self.m.len(), self.hi));
    }
    fn eq<X: PartialEq + std::fmt::Debug>(&mut self, kind: i32, what: &str, got: X, exp: X) {
        self.checks += 1;
        if got != exp {
            self.bad(kind, || {
                let mut s = format!("{what} is {got:x?} instead of {exp:x?}");
                s.truncate(900);
                s
            });
        }
    }
    fn fresh(&mut self, sel: u64) -> u64 {
        let id = if sel % 4 == 0 { 1 + sel / 4 % 5 } else { 1000 + self.next };
        self.next += 1;
        T::norm(id)
    }
    fn ids(&mut self, n: usize, sel: u64) -> Vec<u64> {
        (0..n).map(|q| self.fresh(sel.wrapping_add(q as u64))).collect()
    }
    fn room(&self) -> usize {
        self.max_cap.saturating_sub(self.hi)
    }
    /// number of leading values
    fn len(&self) -> usize {
        self.m.iter().take_while(|x| x.is_some()).count()
    }
    fn prefix(&self) -> Vec<u64> {
        self.m.iter().map_while(|x| *x).collect()
    }
    fn values(&self) -> usize {
        self.m.iter().flatten().count()
    }
    fn owned(&mut self, extra: usize) {
        if T::TRACKED {
            self.checks += 1;
            let (l, e) = (live_values(), (self.values() + extra) as i64);
            if l != e {
                let (k, n) = (self.step, self.name);
                fail(OWN, || format!("step {k} ({n}): {l} values are alive, expected {e}"));
            }
        }
    }
    /// positions `i..` were handed out to a call for `n` positions, the first ones of which hold the values
    fn took(&mut self, i: usize, ids: &[u64], n: usize) {
        self.checks += 1;
        if i < self.m.len() || i > self.hi {
            let e = (self.m.len(), self.hi);
            self.bad(POS, || format!("the position {i} is handed out, which is not within {}..={}", e.0, e.1));
        }
        if n > 0 && i.saturating_add(n) > self.max_cap && ids.len() == n {
            let mc = self.max_cap;
            self.bad(CAPA, || format!("{n} positions starting at {i} are handed out although the maximum capacity is {mc}"));
        }
        if n == 0 || i > 1 << 24 {
            return;
        }
        self.m.resize(i.max(self.m.len()), None);
        self.m.extend(ids.iter().map(|x| Some(*x)));
        self.hi = self.hi.max(i + n).max(self.m.len());
        if ids.len() == n && self.m.len() == i + n {
            self.hi = i + n;
        }
    }
    /// The outcome of a growth call for `n` positions. `known`: a position which was passed to a user function.
    fn grown(&mut self, r: Result<usize, Caught>, known: Option<usize>, ids: &[u64], n: usize, fault: bool) {
        match r {
            Ok(i) => {
                self.checks += 1;
                if fault {
                    self.bad(PANIC, || "a growth call succeeds although its function or iterator failed".into());
                }
                if known.map(|k| k != i).unwrap_or(false) {
                    self.bad(POS, || format!("the position {i} is returned, but {known:?} was passed to the function"));
                }
                self.took(i, ids, n);
            }
            Err(Caught::Other(m)) if !fault => {
                self.checks += 1;
                if !self.over || n == 0 {
                    self.bad(if self.faults > 0 { PANIC } else { CAPA }, || format!("a growth call panics: {m}"));
                }
                self.hi = self.hi.saturating_add(n);
            }
            Err(_) => {
                self.faults += 1;
                if self.faults > 1 {
                    self.set(CL_FAULTS);
                }
                // find the values which were pushed
                let at = match known {
                    Some(k) => k,
                    None => (self.m.len()..=self.hi.min(self.m.len() + 4000)).find(|p| on(|| unsafe { self.v().get_ref(*p) }.is_some())).unwrap_or(self.m.len()),
                };
                let mut k = 0;
                while k < ids.len() {
                    let x = on(|| unsafe { self.v().get_ref(at + k) }.map(|x| x.id()));
                    match x {
                        Some(x) if x == ids[k] => k += 1,
                        Some(x) => {
                            self.bad(PANIC, || format!("value {x:x} is found at {}, which was handed out to a failed call", at + k));
                            break;
                        }
                        None => break,
                    }
                }
                if known.is_some() || k > 0 {
                    self.took(at, &ids[..k], n);
                    self.hi = self.hi.max(at + n);
                } else {
                    self.hi = self.hi.saturating_add(n);
                }
                if self.hi > self.max_cap {
                    self.over = true;
                }
            }
        }
    }

    fn full(&mut self) {
        let v = self.v();
        let n = on(|| v.len());
        let e = self.prefix();
        let (cap, mc) = on(|| (v.capacity(), v.maximum_capacity()));
        let mut ids = vec![];
        on(|| {
            for x in v.iter_cloned() {
                let i = x.id();
                off(|| ids.push(i));
            }
        });
        self.eq(LEN, "the number of elements", n, e.len());
        self.eq(PANIC, "the sequence of values", ids, e);
        let (x, y) = on(|| (self.v().is_empty(), self.v().get(n).is_some()));
        self.eq(LEN, "is_empty", x, n == 0);
        self.eq(LEN, "get of the first position without a value", y, false);
        self.checks += 3;
        if cap < n || mc < cap {
            self.bad(CAPA, || format!("len {n}, capacity {cap} and maximum capacity {mc} are not ordered"));
        }
        if self.max_cap != mc {
            let x = self.max_cap;
            self.bad(CAPA, || format!("the maximum capacity changed from {x} to {mc}"));
        }
        if !self.over {
            let (a, b) = (self.cap0.max(P::cap_for(&self.sc, self.m.len())), self.cap0.max(P::cap_for(&self.sc, self.hi)));
            if cap < a || cap > b {
                self.bad(GROWTH, || format!("the capacity is {cap} instead of {a}..={b}"));
            }
        }
        if cap > self.cap0 && self.faults > 0 {
            self.set(CL_GREW);
        }
        // values behind gaps
        for p in 0..self.m.len() + 2 {
            let e = self.m.get(p).copied().flatten();
            let r = on(|| unsafe { self.v().get_ref(p) }.map(|x| (x as *const T as usize, x.id())));
            self.eq(RAW, &format!("the value at {p}"), r.map(|x| x.1), e);
            if let Some((a, _)) = r {
                if self.addrs.len() <= p {
                    self.addrs.resize(p + 1, None);
                }
                match self.addrs[p] {
                    Some(b) if a != b => self.bad(ADDR, || format!("the value at {p} moved from {b:#x} to {a:#x}")),
                    _ => self.addrs[p] = Some(a),
                }
                if p > n {
                    self.set(CL_GAP);
                }
            }
        }
        let mut all = vec![];
        on(|| {
            for x in unsafe { self.v().iter_ref() } {
                let i = x.id();
                off(|| all.push(i));
            }
        });
        let e: Vec<u64> = self.m.iter().flatten().copied().collect();
        self.eq(RAW, "iter_ref", all, e);
    }

    /// after a panic in `fill` or similar: values are the old or the new ones
    fn adopt(&mut self, n: usize, new: impl Fn(usize) -> u64) {
        for p in 0..n {
            let got = on(|| self.v().get(p).map(|e| e.map(|x| x.id())));
            let old = self.m[p];
            self.checks += 1;
            match got {
                Some(x) if Some(x) == old || x == new(p) => self.m[p] = Some(x),
                _ => self.bad(PANIC, || format!("the value at {p} is {got:x?} after an operation panicked, which is neither the old nor the new one")),
            }
        }
    }
    fn faulty(&mut self) {
        self.faults += 1;
        if self.faults > 1 {
            self.set(CL_FAULTS);
        }
    }

    fn exec(&mut self, op: &Op) {
        let (a, b, c, d) = (op[1] as usize, op[2] as usize, op[3] as usize, op[4]);
        let n = self.len();
        match op[0] {
            G_PUSH => {
                if self.room() == 0 && !self.over {
                    return;
                }
                let id = self.fresh(d);
                let r = try_on(|| self.v().push(T::mk(id)));
                self.grown(r, None, &[id], 1, false);
            }
            G_PUSH_FOR_IDX => {
                if self.room() == 0 && !self.over {
                    return;
                }
                let id = self.fresh(d);
                let known = Cell::new(None);
                let fault = a % 5;
                let r = try_on(|| {
                    self.v().push_for_idx(|i| {
                        known.set(Some(i));
                        if fault == 1 {
                            panic_now();
                        }
                        let x = T::mk(id);
                        if fault == 2 {
                            panic_now();
                        }
                        x
                    })
                });
                let f = (fault == 1 || fault == 2) && known.get().is_some();
                self.grown(r, known.get(), if f { &[] } else { std::slice::from_ref(&id) }, 1, f);
            }
            G_EXTEND | G_EXTEND_N | G_EXTEND_FOR_IDX => {
                let k = a % 14;
                if self.room() < k && !self.over {
                    return;
                }
                let at = if k > 0 { b % k } else { 0 };
                // 1: the iterator panics, 2: it ends too early, 3: the function panics, 4: a wrong number is announced
                let mut fault = if k == 0 { 0 } else { c as u64 % 8 };
                if op[0] != G_EXTEND_FOR_IDX && fault > 2 || fault > 4 {
                    fault = 0;
                }
                let l = if fault == 4 { (k + b % 5).saturating_sub(2) } else { k };
                if l == k && fault == 4 {
                    fault = 0;
                }
                let ids = self.ids(l, d);
                let known = Cell::new(None);
                let src = Src::<T> { ids: ids.clone().into_iter(), announce: l, k: 0, fault, at, ended: false, _p: std::marker::PhantomData };
                let r = try_on(|| match op[0] {
                    G_EXTEND => self.v().extend(src),
                    G_EXTEND_N => self.v().extend_n_items(src, k),
                    _ => self.v().extend_for_idx(
                        |i| {
                            known.set(Some(i));
                            if fault == 3 {
                                panic_now();
                            }
                            src
                        },
                        k,
                    ),
                });
                let reached = op[0] != G_EXTEND_FOR_IDX || known.get().is_some();
                let fault_ = fault != 0 && reached && !(self.over && matches!(r, Err(Caught::Other(_))) && matches!(fault, 1 | 3));
                if fault_ {
                    let pushed = match fault {
                        1 | 2 => &ids[..at.min(ids.len())],
                        3 => &[],
                        _ => &ids[..k.min(l)],
                    };
                    self.grown(r, known.get(), pushed, k, true);
                } else {
                    self.grown(r, known.get(), &ids, k, false);
                }
            }
            G_EPOCH => {
                // several threads push; some of their functions panic
                let nt = 1 + a % 3;
                let per = 1 + b % 4;
                if self.room() < nt * per || self.over {
                    return;
                }
                let mut r = Rng::new(d.wrapping_mul(31).wrapping_add(c as u64));
                let plan: Vec<Vec<(u64, u64)>> = (0..nt).map(|_| (0..per).map(|_| (r.below(4), self.fresh(r.next()))).collect()).collect();
                let got: RefCell<Vec<(usize, Option<u64>)>> = RefCell::new(vec![]);
                let bad: RefCell<Option<String>> = RefCell::new(None);
                let v = self.v();
                rt::run_fibers(nt, &|f| {
                    for (kind, id) in &plan[f - 1] {
                        unsafe { rt::rt_op_begin() };
                        let known = Cell::new(None);
                        let r = try_on(|| match kind {
                            0 | 1 => v.push(T::mk(*id)),
                            _ => v.push_for_idx(|i| {
                                known.set(Some(i));
                                let x = T::mk(*id);
                                rt::yield_now();
                                if *kind == 3 {
                                    panic_now();
                                }
                                x
                            }),
                        });
                        match r {
                            Ok(i) => got.borrow_mut().push((i, Some(*id))),
                            Err(Caught::Injected) => got.borrow_mut().push((known.get().unwrap(), None)),
                            Err(Caught::Other(m)) => *bad.borrow_mut() = Some(m),
                        }
                        unsafe { rt::rt_op_done() };
                    }
                });
                unsafe { rt::rt_op_begin() };
                if let Some(m) = bad.into_inner() {
                    self.bad(PANIC, || format!("a push of one of several threads panics: {m}"));
                }
                let mut got = got.into_inner();
                got.sort();
                let first = got[0].0;
                for (k, (i, id)) in got.into_iter().enumerate() {
                    self.eq(POS, "a position given to one of several threads", i, first + k);
                    match id {
                        Some(id) => self.took(i, &[id], 1),
                        None => {
                            self.faulty();
                            self.took(i, &[], 1);
                            self.m.resize(i + 1, None);
                            self.hi = self.hi.max(i + 1);
                        }
                    }
                    self.set(CL_EPOCH);
                }
            }
            G_GET => {
                let i = a % (self.hi.min(self.m.len() + 10) + 3);
                let e = self.m.get(i).copied().flatten();
                let x = on(|| self.v().get(i).map(|e| e.cloned().id()));
                self.eq(LEN, &format!("get({i})"), x, if i < n { e } else { None });
                let x = try_on(|| std::hint::black_box(&self.v()[i]) as *const _ as usize).is_ok();
                self.eq(LEN, &format!("whether [{i}] exists"), x, i < n);
                for copied in [false, true] {
                    let x = on(|| if copied { T::vec_get_copied(self.v(), i) } else { self.v().get_cloned(i) }.map(|x| x.id()));
                    if i < n || x.is_some() {
                        self.eq(PANIC, &format!("get_cloned({i})"), x, e);
                    }
                }
                let x = on(|| self.v().get_raw(i).map(|p| unsafe { &*p }.id()));
                self.eq(RAW, &format!("get_raw({i})"), x, e);
            }
            G_WRITE if n > 0 => {
                let i = a % n;
                let id = self.fresh(d);
                let old = self.m[i];
                let e = on(|| self.v().get(i)).unwrap_or_else(|| panic!("get({i}) within the length"));
                match b % 6 {
                    0 => {
                        on(|| e.set(T::mk(id)));
                        self.m[i] = Some(id);
                    }
                    1 => {
                        let x = on(|| e.replace(T::mk(id)).id());
                        self.m[i] = Some(id);
                        self.eq(PANIC, "the replaced value", Some(x), old);
                    }
                    2 => {
                        on(|| e.update(|x| x.set(id)));
                        self.m[i] = Some(id);
                    }
                    3 | 4 => {
                        let before = b % 6 == 3;
                        let r = try_on(|| {
                            e.update(|x| {
                                if before {
                                    panic_now();
                                }
                                x.set(id);
                                panic_now()
                            })
                        });
                        self.faulty();
                        self.eq(PANIC, "whether the panic of the function of update reaches the caller", matches!(r, Err(Caught::Injected)), true);
                        let o = old.unwrap();
                        self.m[i] = Some(o);
                        let x = on(|| self.v().get(i).map(|e| e.map(|x| x.id())));
                        let ok = x == old || !before && x == Some(id);
                        self.eq(PANIC, "whether the value is the old or the new one after update panicked", ok, true);
                        self.m[i] = x;
                    }
                    _ => {
                        let r = try_on(|| e.map(|_| -> u64 { panic_now() }));
                        self.faulty();
                        self.eq(PANIC, "whether the panic of the function of map reaches the caller", matches!(r, Err(Caught::Injected)), true);
                    }
                }
            }
            G_SWAP => {
                let (i, j) = (a % (self.m.len() + 2), b % (self.m.len() + 2));
                let r = on(|| self.v().swap(i, j));
                self.eq(PANIC, &format!("swap({i}, {j})"), r, i < n && j < n);
                if r && i < self.m.len() && j < self.m.len() {
                    self.m.swap(i, j);
                }
            }
            G_FILL => {
                let id = self.fresh(d);
                let lo = if n > 0 { a % n } else { 0 };
                let (lo, hi) = if b % 2 == 0 { (0, n) } else { (lo, lo + c % (n - lo + 1)) };
                if c % 3 == 0 {
                    set_plan(Plan { mask: 1 << Cb::Clone as u32, fiber: 0, at: 1 + c as u64 / 3, action: ACT_PANIC, yields: 0 });
                }
                let r = try_on(|| match b % 2 {
                    0 => self.v().fill(T::mk(id)),
                    _ => self.v().slice(lo..hi).fill(T::mk(id)),
                });
                let fired = plan_fired() > 0;
                set_plan(Plan::default());
                if fired {
                    self.faulty();
                    self.adopt(n, |_| id);
                    return;
                }
                self.eq(PANIC, "whether fill returns", r.is_ok(), true);
                for p in lo..hi {
                    self.m[p] = Some(id);
                }
            }
            G_FILL_WITH => {
                let stop = if c % 3 == 0 { c / 3 } else { usize::MAX };
                let ids = self.ids(n, d);
                let lo = if n > 0 { a % n } else { 0 };
                let (lo, hi) = if b % 2 == 0 { (0, n) } else { (lo, lo + c % (n - lo + 1)) };
                let calls = Cell::new(0);
                let f = |i: usize| {
                    calls.set(calls.get() + 1);
                    if i == stop {
                        panic_now();
                    }
                    T::mk(ids[i.min(ids.len() - 1)])
                };
                let r = try_on(|| match b % 2 {
                    0 => self.v().fill_with(f),
                    _ => self.v().slice(lo..hi).fill_with(f),
                });
                let done = stop.min(hi - lo);
                if stop < hi - lo {
                    self.faulty();
                }
                self.eq(PANIC, "whether fill_with panics", r.is_err(), stop < hi - lo);
                self.eq(CALLS, "the number of calls by fill_with", calls.get(), if stop < hi - lo { stop + 1 } else { hi - lo });
                for p in 0..done {
                    self.m[lo + p] = Some(ids[p]);
                }
            }
            G_READS => self.reads(a, b, c, d),
            G_SLICES => self.slices(a, b, c),
            G_RAW_WRITE => {
                let i = a % (self.m.len() + 2);
                let id = self.fresh(d);
                let e = self.m.get(i).copied().flatten();
                let x = on(|| match b % 2 {
                    0 => unsafe { self.v().get_mut(i) }.map(|x| {
                        let old = x.id();
                        x.set(id);
                        old
                    }),
                    _ => self.v().get_raw_mut(i).map(|p| unsafe {
                        let old = (*p).id();
                        (*p).set(id);
                        old
                    }),
                });
                self.eq(RAW, &format!("the value behind a pointer for writing at {i}"), x, e);
                if x.is_some() && i < self.m.len() {
                    self.m[i] = Some(id);
                }
                if c % 3 == 0 {
                    // all values
                    let mut seen = vec![];
                    on(|| {
                        for x in unsafe { self.v().iter_mut() } {
                            let i = x.id();
                            off(|| seen.push(i));
                        }
                    });
                    let e: Vec<u64> = self.m.iter().flatten().copied().collect();
                    self.eq(RAW, "iter_mut", seen, e);
                }
            }
            G_EQ => {
                if !P::DEFAULT {
                    return;
                }
                let mut w = self.prefix();
                let w0 = w.clone();
                match c % 4 {
                    0 => {}
                    1 => w.push(self.fresh(d)),
                    2 => {
                        w.pop();
                    }
                    _ if n > 0 => w[a % n] = self.fresh(d),
                    _ => {}
                }
                let same = w.len() == w0.len() && w.iter().zip(&w0).all(|(x, y)| T::same(*x, *y));
                let arr: Vec<T> = on(|| w.iter().map(|x| T::mk(*x)).collect());
                let r = on(|| P::eq_va(self.v(), &arr)).unwrap();
                self.eq(PANIC, "== with an array", r, same);
                let refl = w0.iter().all(|x| T::same(*x, *x));
                let r = on(|| {
                    let s = self.v().as_slice();
                    P::eq_vs(self.v(), &s)
                })
                .unwrap();
                self.eq(PANIC, "== with the slice of all elements", r, refl);
                on(|| drop(arr));
            }
            G_CLEAR => {
                if self.m.len() > n || self.hi > self.m.len() {
                    self.set(CL_EXCL);
                }
                self.excl += 1;
                on(|| self.v.as_mut().unwrap().clear());
                self.m.clear();
                self.hi = 0;
                self.addrs.clear();
                self.owned(0);
                self.over = false;
                let (cap, mc) = on(|| (self.v().capacity(), self.v().maximum_capacity()));
                self.checks += 1;
                if mc < self.max_cap {
                    let x = self.max_cap;
                    self.bad(EXCL, || format!("clear reduces the maximum capacity from {x} to {mc}"));
                }
                self.max_cap = mc;
                self.cap0 = cap;
            }
            G_RESERVE => {
                if self.m.len() > n || self.hi > self.m.len() {
                    self.set(CL_EXCL);
                }
                self.excl += 1;
                let want = if self.max_cap > 1 << 20 { a * 10 } else { (self.max_cap + a % 60).saturating_sub(b % 8) };
                let cap = on(|| self.v().capacity());
                let r = on(|| self.v.as_mut().unwrap().reserve_maximum_capacity(want));
                let (c2, mc) = on(|| (self.v().capacity(), self.v().maximum_capacity()));
                let old = self.max_cap;
                self.eq(EXCL, "the returned maximum capacity", r, mc);
                self.checks += 1;
                if r < old || (!P::FIXED && r < want) {
                    self.bad(EXCL, || format!("reserve_maximum_capacity({want}) returns {r}, the maximum capacity was {old}"));
                }
                // elements are where they were
                for p in 0..self.addrs.len().min(self.m.len()) {
                    let (Some(_), Some(e)) = (self.addrs[p], self.m[p]) else { continue };
                    let x = on(|| unsafe { self.v().get_ref(p) }.map(|x| x.id()));
                    self.eq(ADDR, &format!("the value at {p} after reserve_maximum_capacity"), x, Some(e));
                }
                if c2 < cap {
                    self.bad(EXCL, || format!("reserve_maximum_capacity({want}) reduces the capacity from {cap} to {c2}"));
                }
                self.max_cap = r;
                if self.over && !P::FIXED {
                    // growth is possible again
                    self.over = false;
                    self.hi = self.hi.min(c2).max(self.m.len());
                    self.cap0 = c2;
                }
            }
            G_OVERFLOW => {
                if self.room() > 100 {
                    return;
                }
                let k = self.room() + 1 + a % 4;
                if !self.over && b % 3 == 0 && self.room() > 0 && self.hi == self.m.len() {
                    // until it is full
                    let l = self.room();
                    let ids = self.ids(l, d);
                    let r = try_on(|| self.v().extend(ids.iter().map(|x| T::mk(*x)).collect::<Vec<_>>()));
                    self.grown(r, None, &ids, l, false);
                    return;
                }
                let ids = self.ids(k, d);
                let known = Cell::new(None);
                let src = Src::<T> { ids: ids.clone().into_iter(), announce: k, k: 0, fault: 0, at: 0, ended: false, _p: std::marker::PhantomData };
                let r = try_on(|| match c % 5 {
                    0 => self.v().extend(src),
                    1 => self.v().extend_n_items(src, k),
                    _ if k == 1 && self.hi == self.m.len() => match c % 2 {
                        0 => self.v().push(T::mk(ids[0])),
                        _ => self.v().push_for_idx(|i| {
                            known.set(Some(i));
                            T::mk(ids[0])
                        }),
                    },
                    _ => self.v().extend_for_idx(
                        |i| {
                            known.set(Some(i));
                            src
                        },
                        k,
                    ),
                });
                self.checks += 1;
                match r {
                    // positions of failed calls might have been given back
                    Ok(i) if i + k <= self.max_cap && i >= self.m.len() => self.took(i, &ids, k),
                    Ok(i) => self.bad(CAPA, || format!("growth by {k} positions succeeds with {i}")),
                    Err(Caught::Injected) => panic_now(),
                    Err(Caught::Other(_)) => {
                        self.over = true;
                        self.hi = self.hi.saturating_add(k);
                        self.set(CL_OVER);
                    }
                }
            }
            _ => {}
        }
    }

    fn reads(&mut self, a: usize, b: usize, c: usize, d: u64) {
        let e = self.prefix();
        let n = e.len();
        // panics of comparisons, clones, ...
        let fault = b % 4 == 0;
        if fault {
            set_plan(Plan { mask: 0x17, fiber: 0, at: 1 + c as u64 % 8, action: ACT_PANIC, yields: 0 });
        }
        let mut got: Vec<u64> = vec![];
        let push = |got: &mut Vec<u64>, i: u64| off(|| got.push(i));
        let v = self.v();
        let mut exp = e.clone();
        let stop = if n > 0 { e[c % n] } else { 7 };
        let r = try_on(|| match a % 10 {
            0 => {
                for x in v.iter() {
                    let i = x.map(|x| {
                        cb(Cb::Closure);
                        x.id()
                    });
                    push(&mut got, i);
                }
            }
            1 => {
                for x in v.clone_to_vec() {
                    push(&mut got, x.id());
                }
            }
            2 => {
                for i in v.map(|x| {
                    cb(Cb::Closure);
                    x.id()
                }) {
                    push(&mut got, i);
                }
            }
            3 => {
                for x in v.filter(|x| {
                    cb(Cb::Closure);
                    x.id() % 2 == 0
                }) {
                    push(&mut got, x.map(|x| x.id()));
                }
            }
            4 => {
                let (k, x) = v.fold((0u64, 0u64), |(k, s), x| {
                    cb(Cb::Closure);
                    (k + 1, s.wrapping_mul(31) ^ x.id())
                });
                push(&mut got, k);
                push(&mut got, x);
            }
            5 => {
                let r = v.reduce(|x, y| {
                    cb(Cb::Closure);
                    T::mk(x.id().max(y.id()))
                });
                if let Some(x) = r {
                    push(&mut got, x.id());
                }
            }
            6 => {
                let x = T::mk(stop);
                if let Some(i) = v.index_of(&x) {
                    push(&mut got, i as u64);
                }
            }
            7 => {
                let s = format!("{v:?}");
                off(|| {
                    let t: Vec<String> = e.iter().map(|x| T::fmt_id(*x)).collect();
                    got = if *s == format!("[{}]", t.join(", ")) { e.clone() } else { parse_debug(&s) };
                });
            }
            8 => {
                if let Some(w) = P::try_clone(v) {
                    for x in w.into_iter() {
                        push(&mut got, x.id());
                    }
                } else {
                    for x in v.iter_cloned() {
                        push(&mut got, x.id());
                    }
                }
            }
            _ => {
                let s = v.slice(c % 4..);
                for x in s.iter_cloned() {
                    push(&mut got, x.id());
                }
            }
        });
        let fired = plan_fired() > 0;
        set_plan(Plan::default());
        match a % 10 {
            3 => exp.retain(|x| x % 2 == 0),
            4 => exp = vec![n as u64, e.iter().fold(0u64, |s, x| s.wrapping_mul(31) ^ x)],
            5 => exp = e.iter().copied().max().into_iter().collect(),
            6 => exp = e.iter().position(|x| T::same(stop, *x)).map(|p| p as u64).into_iter().collect(),
            9 => {
                exp.drain(..(c % 4).min(n));
            }
            _ => {}
        }
        on(|| drop(r.as_ref().err().map(|_| ())));
        if fired {
            self.faulty();
            self.eq(PANIC, "whether the panic of a user function reaches the caller", matches!(r, Err(Caught::Injected)), true);
            return;
        }
        if let Err(Caught::Other(m)) = &r {
            self.bad(PANIC, || format!("reading ({}) panics: {m}", a % 10));
        }
        let _ = d;
        self.eq(PANIC, &format!("the result of reading ({})", a % 10), got, exp);
    }

    fn slices(&mut self, a: usize, b: usize, c: usize) {
        let e = self.prefix();
        let n = e.len();
        let ids = |s: &ConcurrentSlice<T, P>| {
            let mut ids = vec![];
            on(|| {
                for x in s.iter_cloned() {
                    let i = x.id();
                    off(|| ids.push(i));
                }
            });
            ids
        };
        match c % 6 {
            0 => {
                // the range may exceed the elements
                let (x, y) = (a % (n + 3), a % (n + 3) + b);
                let s = on(|| self.v().slice(x..y));
                let w = e[x.min(n)..y.min(n)].to_vec();
                let (l, got) = (s.len(), ids(&s));
                let beyond = on(|| s.get(w.len()).is_some());
                self.eq(LEN, &format!("the length of slice({x}..{y})"), l, w.len());
                self.eq(PANIC, &format!("slice({x}..{y})"), got, w);
                self.eq(LEN, "get behind the end of a slice", beyond, false);
            }
            1 => {
                let k = 1 + b % 5;
                let mut got = vec![];
                on(|| {
                    for s in self.v().chunks(k) {
                        let w = off(|| ids(&s));
                        off(|| got.push(w));
                    }
                });
                let w: Vec<Vec<u64>> = e.chunks(k).map(|x| x.to_vec()).collect();
                self.eq(PANIC, &format!("chunks({k})"), got, w);
            }
            2 => {
                let k = a % (n + 1);
                let (x, y) = on(|| self.v().split_at(k));
                let (x, y) = (ids(&x), ids(&y));
                self.eq(PANIC, "split_at", (x, y), (e[..k].to_vec(), e[k..].to_vec()));
            }
            3 => {
                let r = on(|| self.v().split_first().map(|(x, y)| (x.map(|x| x.id()), y)));
                let r = r.map(|(x, y)| (x, ids(&y)));
                self.eq(PANIC, "split_first", r, e.split_first().map(|(x, y)| (*x, y.to_vec())));
            }
            4 => {
                let r = on(|| self.v().split_last().map(|(x, y)| (x.map(|x| x.id()), y)));
                let r = r.map(|(x, y)| (x, ids(&y)));
                self.eq(PANIC, "split_last", r, e.split_last().map(|(x, y)| (*x, y.to_vec())));
            }
            _ => {
                // splitting beyond the end panics
                let k = n + 1 + a % 3;
                let r = try_on(|| {
                    self.v().split_at(k);
                });
                self.eq(LEN, &format!("whether split_at({k}) panics"), r.is_err(), true);
            }
        }
    }

    fn run(&mut self, k: usize, op: &Op, quiet: bool) {
        unsafe { rt::rt_op_begin() };
        self.step = k;
        self.name = gop_name(op[0]);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.exec(op)));
        unsafe { rt::rt_set_on(0) };
        set_plan(Plan::default());
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            on(|| drop(e));
            fail(rt::K_ORACLE, || format!("step {k} ({} {:?}) panicked: {m}", gop_name(op[0]), &op[1..]));
        }
        if !quiet {
            self.full();
            self.owned(0);
        }
    }

    fn finish(&mut self, end: u64) {
        unsafe { rt::rt_op_begin() };
        self.name = "the end";
        self.full();
        self.owned(0);
        let complete = self.hi == self.m.len() && self.values() == self.hi && !self.over;
        let e = self.prefix();
        let mut v = self.v.take().unwrap();
        match end % 6 {
            1 | 2 => {
                // if there are gaps, all values are dropped nevertheless
                let mut ids = vec![];
                let r = try_on(|| {
                    let v = v;
                    if end % 6 == 1 {
                        for x in v.to_vec() {
                            let i = x.id();
                            off(|| ids.push(i));
                        }
                    } else {
                        for x in v.into_iter() {
                            let i = x.id();
                            off(|| ids.push(i));
                        }
                    }
                });
                if complete {
                    self.eq(OWN, "whether a conversion of a vec without gaps panics", r.is_err(), false);
                    self.eq(OWN, "the values of a converted vec", ids, e);
                }
            }
            3 => {
                let p = on(|| v.into_inner());
                let k = PinnedVec::len(&p);
                if complete {
                    self.eq(OWN, "the length of the inner storage", k, e.len());
                }
                on(|| drop(p));
            }
            4 => {
                on(|| v.clear());
                let l = on(|| v.len());
                self.eq(EXCL, "len after clear", l, 0);
                on(|| drop(v));
            }
            5 => {
                // some values are taken
                let mut k = 0;
                let r = try_on(|| {
                    let mut it = v.into_iter();
                    for _ in 0..self.values() / 2 {
                        if it.next().is_some() {
                            k += 1;
                        }
                    }
                });
                if complete {
                    self.eq(OWN, "whether iteration panics", r.is_err(), false);
                }
            }
            _ => on(|| drop(v)),
        }
        self.m.clear();
        self.owned(0);
        let blocks = unsafe { rt::rt_live() };
        if blocks != 0 {
            fail(rt::K_LEAK, || format!("{blocks} heap block(s) are not freed after the vec is consumed or dropped"));
        }
    }
}

fn exec<T: Pay, P: Store<T>>(c: &Case) -> (u64, u64) {
    let sc = conc::store_cfg(c);
    unsafe { rt::rt_op_begin() };
    let v = on(|| Box::new(P::build(&sc)));
    let (max_cap, cap0) = on(|| (v.maximum_capacity(), v.capacity()));
    let mut g = G::<T, P> { v: Some(v), sc, m: vec![], hi: 0, addrs: vec![], max_cap, cap0, over: false, next: 1, kind: PANIC, step: 0, name: "", classes: 0, checks: 0, faults: 0, excl: 0 };
    let _ = g.kind;
    let n0 = (c.cfg[C_INIT] as usize).min(max_cap);
    if n0 > 0 {
        let ids = g.ids(n0, 1);
        let i = on(|| g.v().extend(off(|| ids.clone()).into_iter().map(T::mk)));
        g.took(i, &ids, n0);
    }
    for (k, op) in c.threads[0].iter().enumerate() {
        g.run(k, op, c.cfg[C_QUIET] >> (k % 64) & 1 == 1);
    }
    g.finish(c.cfg[C_END]);
    (g.classes, g.checks)
}

pub fn run(c: &Case) -> Outcome {
    driver::only(None);
    conc::begin_case(c);
    let (classes, checks) = match c.cfg[C_COMBO] {
        0 => exec::<Tr, Dbl<Tr>>(c),
        1 => exec::<Tr, Lin<Tr>>(c),
        2 => exec::<Tr, Fix<Tr>>(c),
        3 => exec::<P2, Dbl<P2>>(c),
        4 => exec::<Big, Fix<Big>>(c),
        5 => exec::<Z, Lin<Z>>(c),
        6 => exec::<U8, Lin<U8>>(c),
        7 => exec::<Nq, Dbl<Nq>>(c),
        8 => exec::<Big, Lin<Big>>(c),
        _ => exec::<Z, Fix<Z>>(c),
    };
    let st = rt::stats();
    let mut hash = Hash64::new();
    hash.add(c.hash());
    hash.add(st.switches);
    hash.add(st.steps);
    Outcome { classes, nontrivial: false, hash: hash.get(), checks }
}

pub fn describe(c: &Case) -> String {
    let g = |i: usize| c.cfg.get(i).copied().unwrap_or(0);
    let combo = crate::seq::COMBOS.get(g(C_COMBO) as usize).copied().unwrap_or("?");
    let mut s = format!("sequential with failing calls: {combo}(2^{} x {}, {}), {} initial elements, end {}", g(conc::C_EXP), g(conc::C_FRAGS), g(conc::C_CAP), g(C_INIT), g(C_END) % 6);
    for o in &c.threads[0] {
        s += &format!("\n  {}[{}, {}, {}, {}]", gop_name(o[0]), o[1], o[2], o[3], o[4]);
    }
    s
}
