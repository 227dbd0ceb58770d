//! Generated programs over the public API, to be executed by Miri: it judges every access by the rules for aliasing, initialisation,
//! validity, alignment, provenance and data races of the language.
//!
//! usage: miri-programs gen SEED FIRST COUNT | run CASE
use orx_concurrent_vec::*;
use orx_fixed_vec::FixedVec;
use orx_pinned_vec::{IntoConcurrentPinnedVec, PinnedVec};
use orx_split_vec::{Doubling, Linear, SplitVec};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

// ------------------------------------------------------------------------------------------- element types

/// number of accesses to values
static TOUCHED: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
fn whole(x: bool) {
    TOUCHED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if !x {
        println!("BROKEN VALUE");
        std::process::abort();
    }
}

trait El: Clone + PartialEq + Debug + Send + Sync + 'static {
    fn mk(x: u64) -> Self;
    fn id(&self) -> u64;
    fn poke(&mut self, x: u64);
}
/// a heap value which is read completely
#[derive(Clone, PartialEq, Debug)]
struct Heap(Box<[u64; 2]>);
impl El for Heap {
    fn mk(x: u64) -> Self {
        Heap(Box::new([x, !x]))
    }
    fn id(&self) -> u64 {
        whole(self.0[0] == !self.0[1]);
        self.0[0]
    }
    fn poke(&mut self, x: u64) {
        self.0[0] = x;
        self.0[1] = !x;
    }
}
/// with padding
#[derive(Clone, PartialEq, Debug)]
struct Pad(u8, u64, u16);
impl El for Pad {
    fn mk(x: u64) -> Self {
        Pad(x as u8, x, x as u16)
    }
    fn id(&self) -> u64 {
        whole(self.0 == self.1 as u8 && self.2 == self.1 as u16);
        self.1
    }
    fn poke(&mut self, x: u64) {
        *self = Self::mk(x);
    }
}
/// with invalid bit patterns and a niche
#[derive(Clone, PartialEq, Debug)]
enum Niche {
    No,
    Yes(bool, char),
    Text(String),
}
impl El for Niche {
    fn mk(x: u64) -> Self {
        match x % 3 {
            0 => Niche::No,
            1 => Niche::Yes(x % 2 == 0, 'x'),
            _ => Niche::Text(x.to_string()),
        }
    }
    fn id(&self) -> u64 {
        whole(true);
        match self {
            Niche::No => 0,
            Niche::Yes(a, b) => *a as u64 + *b as u64,
            Niche::Text(t) => {
                let x = t.parse();
                whole(x.is_ok());
                x.unwrap()
            }
        }
    }
    fn poke(&mut self, x: u64) {
        *self = Self::mk(x);
    }
}
#[derive(Clone, PartialEq, Debug)]
struct Zst;
impl El for Zst {
    fn mk(_: u64) -> Self {
        Zst
    }
    fn id(&self) -> u64 {
        whole(true);
        0
    }
    fn poke(&mut self, _: u64) {}
}
/// with interior mutability
#[derive(Debug)]
struct Shared(std::sync::atomic::AtomicU32);
impl Clone for Shared {
    fn clone(&self) -> Self {
        Self::mk(self.id())
    }
}
impl PartialEq for Shared {
    fn eq(&self, o: &Self) -> bool {
        self.id() == o.id()
    }
}
impl El for Shared {
    fn mk(x: u64) -> Self {
        Shared((x as u32).into())
    }
    fn id(&self) -> u64 {
        whole(true);
        self.0.fetch_add(0, std::sync::atomic::Ordering::Relaxed) as u64
    }
    fn poke(&mut self, x: u64) {
        *self.0.get_mut() = x as u32;
    }
}

// ------------------------------------------------------------------------------------------- cases

#[derive(Clone, Debug)]
struct Case {
    store: u64,
    elem: u64,
    par: [u64; 2],
    init: u64,
    /// 0: safe API, 1: growth and unsafe reads, 2: one thread, unsafe API
    mode: u64,
    panic_at: u64,
    threads: Vec<Vec<[u64; 4]>>,
    excl: Vec<[u64; 2]>,
    end: u64,
}
impl Case {
    fn gen(r: &mut Rng) -> Case {
        let mode = r.below(5) / 2;
        let nt = if mode == 2 { 1 } else { 2 + r.below(2) };
        let threads = (0..nt)
            .map(|_| {
                let n = if mode == 2 { 3 + r.below(8) } else { 1 + r.below(4) };
                (0..n).map(|_| [r.below(64), r.below(4 + 4 * (mode % 2)) * 2 / (1 + r.below(2)), r.below(9), r.below(1000)]).collect()
            })
            .collect();
        Case {
            store: r.below(3),
            elem: r.below(5),
            par: [1 + r.below(2), 2 + r.below(14)],
            init: 1 + r.below(8),
            mode,
            panic_at: if r.below(6) == 0 { 1 + r.below(10) } else { 0 },
            threads,
            excl: (0..r.below(4)).map(|_| [r.below(8), r.below(12)]).collect(),
            end: r.below(6),
        }
    }
    fn text(&self) -> String {
        let mut s = format!("{} {} {} {} {} {} {} {}", self.store, self.elem, self.par[0], self.par[1], self.init, self.mode, self.panic_at, self.end);
        s += " ;";
        for e in &self.excl {
            s += &format!(" {} {}", e[0], e[1]);
        }
        for t in &self.threads {
            s += " ;";
            for o in t {
                s += &format!(" {} {} {} {}", o[0], o[1], o[2], o[3]);
            }
        }
        s
    }
    fn parse(s: &str) -> Case {
        let mut parts = s.split(';').map(|p| p.split_whitespace().map(|x| x.parse::<u64>().unwrap()).collect::<Vec<_>>());
        let h = parts.next().unwrap();
        let e = parts.next().unwrap();
        Case {
            store: h[0],
            elem: h[1],
            par: [h[2], h[3]],
            init: h[4],
            mode: h[5],
            panic_at: h[6],
            end: h[7],
            excl: e.chunks(2).map(|c| [c[0], c[1]]).collect(),
            threads: parts.map(|t| t.chunks(4).map(|o| [o[0], o[1], o[2], o[3]]).collect()).collect(),
        }
    }
}

std::thread_local! {
    static LEFT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// called within user functions
fn user() {
    LEFT.with(|l| {
        if l.get() > 0 {
            l.set(l.get() - 1);
            if l.get() == 0 {
                panic!("user");
            }
        }
    });
}

// ------------------------------------------------------------------------------------------- execution

struct Values<T> {
    left: usize,
    x: u64,
    p: std::marker::PhantomData<T>,
}
impl<T: El> Iterator for Values<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        user();
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        self.x += 1;
        Some(T::mk(self.x))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.left, Some(self.left))
    }
}
impl<T: El> ExactSizeIterator for Values<T> {}
fn values<T>(n: u64, x: u64) -> Values<T> {
    Values { left: n as usize, x, p: std::marker::PhantomData }
}

struct Kept<'a, T: El, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> {
    elems: Vec<&'a ConcurrentElement<T>>,
    slices: Vec<ConcurrentSlice<'a, T, P>>,
    refs: Vec<&'a T>,
    raws: Vec<*const T>,
    iters: Vec<Box<dyn Iterator<Item = &'a ConcurrentElement<T>> + 'a>>,
}

fn grow<T: El, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>>(v: &ConcurrentVec<T, P>, o: &[u64; 4]) {
    let [k, a, b, x] = *o;
    match k % 6 {
        0 | 1 => {
            v.push(T::mk(x));
        }
        2 => {
            v.push_for_idx(|i| {
                user();
                if a % 3 == 0 {
                    v.push(T::mk(x + 1));
                }
                T::mk(i as u64)
            });
        }
        3 => {
            v.extend(values(a % 7, x));
        }
        4 => {
            v.extend_for_idx(|_| values(b % 7, x), (b % 7) as usize);
        }
        _ => {
            v.extend_n_items(values(a % 5 + b % 2, x), (a % 5) as usize);
        }
    }
}

fn read<'a, T: El, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>>(v: &'a ConcurrentVec<T, P>, o: &[u64; 4], kept: &mut Kept<'a, T, P>) {
    let [k, a, b, x] = *o;
    let (i, j) = (a as usize, b as usize);
    match k % 16 {
        0 => {
            if let Some(e) = v.get(i) {
                e.map(|x| {
                    user();
                    x.id()
                });
                kept.elems.push(e);
            }
        }
        1 => {
            v.get_cloned(i).map(|x| x.id());
        }
        2 => {
            let n = v.len();
            let s = v.slice(i.min(n)..(i + j).min(n).max(i.min(n)));
            s.iter_cloned().for_each(|x| {
                user();
                x.id();
            });
            kept.slices.push(s);
        }
        3 => {
            let mut it = v.iter();
            for _ in 0..j / 2 {
                if let Some(e) = it.next() {
                    e.map(|x| x.id());
                }
            }
            kept.iters.push(Box::new(it));
        }
        4 => {
            v.fold(0, |s, x| {
                user();
                s ^ x.id()
            });
        }
        5 => {
            v.reduce(|x, y| {
                user();
                if x.id() > y.id() { x.clone() } else { y.clone() }
            });
        }
        6 => {
            v.index_of(&T::mk(x));
        }
        7 => {
            let _ = format!("{v:?}");
        }
        8 => {
            if let (Some(p), Some(q)) = (v.get(i), v.get(j)) {
                let _ = p == q;
            }
        }
        9 => {
            for s in v.chunks(1 + j) {
                s.clone_to_vec().iter().for_each(|x| {
                    x.id();
                });
                kept.slices.push(s);
            }
        }
        10 => {
            if let Some((e, s)) = v.split_first() {
                kept.elems.push(e);
                kept.slices.push(s);
            }
            if let Some((e, s)) = v.split_last() {
                kept.elems.push(e);
                kept.slices.push(s);
            }
        }
        11 => {
            v.map(|x| x.id()).count();
            v.filter(|x| x.id() % 2 == 0).for_each(|e| kept.elems.push(e));
        }
        12 => {
            kept.elems.iter().for_each(|e| {
                e.cloned().id();
            });
        }
        13 => {
            kept.slices.iter().for_each(|s| {
                s.fold(0, |s, x| s ^ x.id());
                let _ = s.get_cloned(i);
            });
        }
        14 => {
            if let Some(mut it) = kept.iters.pop() {
                it.by_ref().take(j).for_each(|e| {
                    e.map(|x| x.id());
                });
            }
        }
        _ => {
            let _ = (v.len(), v.is_empty(), v.capacity(), v.maximum_capacity());
        }
    }
}

fn write<'a, T: El, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>>(v: &'a ConcurrentVec<T, P>, o: &[u64; 4], kept: &mut Kept<'a, T, P>) {
    let [k, a, b, x] = *o;
    let (i, j) = (a as usize, b as usize);
    let e = match (kept.elems.len(), v.get(i)) {
        (_, Some(e)) => Some(e),
        (0, None) => None,
        (n, None) => Some(kept.elems[i % n]),
    };
    match (k % 8, e) {
        (0, Some(e)) => e.set(T::mk(x)),
        (1, Some(e)) => {
            e.replace(T::mk(x)).id();
        }
        (2, Some(e)) => e.update(|y| {
            user();
            y.poke(x);
        }),
        (3, _) => {
            v.swap(i, j);
        }
        (4, _) => v.fill_with(|i| {
            user();
            T::mk(x + i as u64)
        }),
        (5, _) => match kept.slices.last() {
            Some(s) => s.fill(T::mk(x)),
            None => v.fill(T::mk(x)),
        },
        (6, _) => {
            if let Some(s) = kept.slices.last() {
                s.swap(i % 4, j % 4);
            }
        }
        (7, Some(e)) => e.update(|y| {
            // another element is used meanwhile
            if j != i {
                if let Some(f) = v.get(j) {
                    if !std::ptr::eq(e, f) && i < j {
                        f.update(|z| std::mem::swap(y, z));
                    }
                }
            }
        }),
        _ => {}
    }
}

/// nobody writes to existing elements
fn raw_read<'a, T: El, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>>(v: &'a ConcurrentVec<T, P>, o: &[u64; 4], kept: &mut Kept<'a, T, P>) {
    let [k, a, b, _] = *o;
    let (i, j) = (a as usize, b as usize);
    match k % 6 {
        0 => {
            if let Some(r) = unsafe { v.get_ref(i) } {
                r.id();
                kept.refs.push(r);
            }
        }
        1 => {
            if let Some(p) = v.get_raw(i) {
                unsafe { &*p }.id();
                kept.raws.push(p);
            }
        }
        2 => {
            for r in unsafe { v.iter_ref() }.take(j + 1) {
                r.id();
                kept.refs.push(r);
            }
        }
        3 => {
            let n = v.len();
            let s = v.slice(i.min(n)..);
            for r in unsafe { s.iter_ref() }.take(j) {
                r.id();
            }
            if let Some(p) = s.get_raw(j) {
                kept.raws.push(p);
            }
            if let Some(r) = unsafe { s.get_ref(j) } {
                r.id();
            }
        }
        4 => kept.refs.iter().for_each(|r| {
            r.id();
        }),
        _ => kept.raws.iter().for_each(|p| {
            unsafe { &**p }.id();
        }),
    }
}

/// a single thread; references live while the vec grows and other elements are used
fn raw_write<T: El, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>>(v: &ConcurrentVec<T, P>, o: &[u64; 4]) {
    let [k, a, b, x] = *o;
    let (i, j) = (a as usize, b as usize);
    let others = || {
        v.push(T::mk(x));
        v.extend(values(b % 6, x));
        if i != j {
            if let Some(e) = v.get(j) {
                e.set(T::mk(x + 1));
                e.map(|x| x.id());
            }
        }
        let _ = (v.len(), v.capacity());
    };
    match k % 6 {
        0 => {
            if let Some(m) = unsafe { v.get_mut(i) } {
                m.poke(x);
                others();
                m.poke(x + 1);
                m.id();
            }
        }
        1 => {
            if let Some(p) = v.get_raw_mut(i) {
                unsafe { (*p).poke(x) };
                others();
                unsafe { *p = T::mk(x + 2) };
                v.get_cloned(i).unwrap().id();
            }
        }
        2 => {
            let mut n = 0;
            for m in unsafe { v.iter_mut() } {
                m.poke(x + n);
                n += 1;
                if n == 3 {
                    v.push(T::mk(x));
                }
            }
        }
        3 => {
            let s = v.as_slice();
            let all: Vec<&mut T> = unsafe { s.iter_mut() }.collect();
            v.push(T::mk(x));
            for m in all {
                m.poke(x);
            }
        }
        4 => {
            // a raw pointer stays valid over reads of its element and any use of the others
            if let Some(p) = v.get_raw(i) {
                if let Some(e) = v.get(i) {
                    e.map(|y| y.id());
                    let _ = (e.cloned(), *e == T::mk(x));
                }
                unsafe { (*p).id() };
                others();
                unsafe { (*p).id() };
            }
        }
        _ => {
            let s = v.slice(..);
            if let (Some(p), Some(q)) = (s.get_raw_mut(i), s.get_raw_mut(j)) {
                if p != q {
                    unsafe { std::ptr::swap(p, q) };
                }
            }
            if let Some(m) = unsafe { s.get_mut(i) } {
                others();
                m.poke(x);
            }
        }
    }
}

fn caught(f: impl FnOnce()) {
    let _ = catch_unwind(AssertUnwindSafe(f));
}

fn thread<T: El, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>>(c: &Case, ops: &[[u64; 4]], v: &ConcurrentVec<T, P>) {
    LEFT.with(|l| l.set(c.panic_at));
    let mut kept = Kept { elems: vec![], slices: vec![], refs: vec![], raws: vec![], iters: vec![] };
    for o in ops {
        let q = [o[0] / 4, o[1], o[2], o[3]];
        caught(|| match (c.mode, o[0] % 4) {
            (_, 0) => grow(v, &q),
            (0, 1 | 2) => write(v, &q, &mut kept),
            (0, _) | (1, 1) => read(v, &q, &mut kept),
            (1, _) => raw_read(v, &q, &mut kept),
            (_, 1) => {
                kept.refs.clear();
                kept.raws.clear();
                write(v, &q, &mut kept)
            }
            (_, 2) => {
                kept.refs.clear();
                kept.raws.clear();
                raw_write(v, &q)
            }
            (_, _) => {
                if q[0] % 2 == 0 {
                    read(v, &q, &mut kept)
                } else {
                    raw_read(v, &q, &mut kept)
                }
            }
        });
    }
    LEFT.with(|l| l.set(0));
}

fn exec<T: El, P: IntoConcurrentPinnedVec<ConcurrentElement<T>> + 'static>(c: &Case, v: ConcurrentVec<T, P>) {
    let mut v = v;
    caught(|| {
        v.extend(values(c.init, 500));
    });
    let mut gaps = c.panic_at > 0;
    if c.mode == 2 {
        thread(c, &c.threads[0], &v);
    } else {
        let v = &v;
        std::thread::scope(|s| {
            for t in &c.threads {
                s.spawn(move || thread(c, t, v));
            }
        });
    }
    // growth calls which did not fit leave unused positions behind
    gaps |= v.maximum_capacity() < 200;
    for e in &c.excl {
        match e[0] {
            0 | 1 => {
                v.clear();
                gaps = false;
            }
            2 | 3 => {
                let n = v.maximum_capacity() + e[1] as usize;
                if n < 1000 {
                    v.reserve_maximum_capacity(n);
                }
            }
            4 => caught(|| {
                v.extend(values(e[1], 700));
                gaps |= false;
            }),
            5 => caught(|| {
                v.push(T::mk(e[1]));
            }),
            _ => {
                v.iter_cloned().for_each(|x| {
                    x.id();
                });
            }
        }
        gaps |= v.maximum_capacity() < 200;
    }
    if gaps {
        return;
    }
    match c.end {
        0 => v.to_vec().iter().for_each(|x| {
            x.id();
        }),
        1 => v.into_iter().for_each(|x| {
            x.id();
        }),
        2 => v.into_iter().take(2).for_each(|x| {
            x.id();
        }),
        3 => {
            let p = v.into_inner();
            let w: ConcurrentVec<T, P> = p.into();
            w.push(T::mk(1));
            w.iter_cloned().for_each(|x| {
                x.id();
            });
        }
        4 => {
            let p = v.into_inner();
            for i in 0..PinnedVec::len(&p) {
                p.get(i).unwrap().map(|x| x.id());
            }
        }
        _ => {}
    }
}

fn with<T: El>(c: &Case) {
    match c.store {
        0 => exec::<T, SplitVec<ConcurrentElement<T>, Doubling>>(c, ConcurrentVec::new()),
        1 => exec::<T, SplitVec<ConcurrentElement<T>, Linear>>(c, ConcurrentVec::with_linear_growth(c.par[0] as usize, c.par[1] as usize)),
        _ => exec::<T, FixedVec<ConcurrentElement<T>>>(c, ConcurrentVec::with_fixed_capacity(c.par[1] as usize * 2)),
    }
}
fn run(c: &Case) {
    match c.elem {
        0 => with::<Heap>(c),
        1 => with::<Pad>(c),
        2 => with::<Niche>(c),
        3 => with::<Zst>(c),
        _ => with::<Shared>(c),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let num = |i: usize| args[i].parse::<u64>().unwrap();
    match args[1].as_str() {
        "gen" => {
            for i in num(3)..num(3) + num(4) {
                let c = Case::gen(&mut Rng(num(2).wrapping_mul(0x1000_0000_1B3).wrapping_add(i.wrapping_mul(0x2545_F491_4F6C_DD1D))));
                println!("CASE {i} {}", c.text());
                TOUCHED.store(0, std::sync::atomic::Ordering::Relaxed);
                run(&c);
                println!("OK {i} {} {}", c.mode, TOUCHED.load(std::sync::atomic::Ordering::Relaxed));
            }
        }
        _ => run(&Case::parse(&args[2])),
    }
    println!("DONE");
}
