//! The properties: generators, kinds of failures, and rules of non-triviality.
use crate::case::*;
use crate::conc::{self, *};
use crate::driver::{Outcome, Prop};
use crate::gap::{self, G_CLEAR, G_EPOCH, G_EQ, G_EXTEND, G_EXTEND_FOR_IDX, G_EXTEND_N, G_FILL, G_FILL_WITH, G_GET, G_OVERFLOW, G_PUSH, G_PUSH_FOR_IDX, G_RAW_WRITE, G_READS, G_RESERVE, G_SLICES, G_SWAP, G_WRITE};
use crate::payload::*;
use crate::rt::*;
use crate::seq::{self, mk_level, ALL_STORES, CONV, EXCL, SEQ, SLICE, S_CALLS, S_CHUNKS, S_CLEAR, S_CLONE, S_COLLECT, S_DEBUG, S_ELEM_EQ, S_EPOCH, S_EQ, S_EXTEND, S_EXTEND_FOR_IDX, S_EXTEND_N, S_FILL, S_FILL_WITH, S_FIND, S_FOLDS, S_FROM, S_GETS, S_INNER, S_INTO_ITER, S_ITER, S_ITER_GROW, S_LENS, S_NEW, S_OVERFLOW, S_PUSH, S_PUSH_FOR_IDX, S_RAW, S_REENTER, S_RESERVE, S_SLICE_KEEP, S_SPLIT, S_SWAP, S_TO, S_TO_VEC, S_WRITE, S_WRONG_LEN};

const BUDGET: i32 = 6;

// ------------------------------------------------------------------ generators of concurrent cases

fn sched(r: &mut Rng, c: &mut Case, weak_pct: u64) {
    c.sched = [0; 6];
    if r.chance(30, 100) {
        c.sched[1] = 1;
        c.sched[4] = r.range(1, 5);
        c.sched[5] = r.pick(&[20, 40, 80, 160, 400]);
    } else {
        c.sched[2] = r.pick(&[2, 2, 3, 3, 4, 6, 10, 24]);
    }
    if r.chance(weak_pct, 100) {
        c.sched[3] = r.pick(&[2, 2, 3, 5, 8]);
    }
}

/// storage, initial elements
fn base(r: &mut Rng, combos: &[u64], init: (u64, u64), weak_pct: u64) -> Case {
    let mut c = Case { cfg: vec![0; NCFG], ..Default::default() };
    c.cfg[C_COMBO] = r.pick(combos);
    c.cfg[C_INIT] = r.range(init.0, init.1);
    c.cfg[C_EXP] = r.range(1, 3);
    c.cfg[C_FRAGS] = 64;
    c.cfg[C_CAP] = c.cfg[C_INIT] + 150;
    c.cfg[C_END] = r.below(16);
    c.cfg[C_LL] = 30_000;
    c.cfg[C_RACE] = 1;
    // yield inside of user code
    c.cfg[C_YIELDS] = r.pick(&[0, 0, 0x1ff, 0x100, 0x10, 0x18]);
    sched(r, &mut c, weak_pct);
    if r.chance(1, 50) {
        // many elements, close to the end of a fragment
        let b: u64 = r.pick(&[12, 16, 28, 32, 60, 64, 124, 128, 252]) + if r.chance(1, 20) { 256 * r.range(1, 3) } else { 0 };
        c.cfg[C_OFF] = b - r.below(10).min(b);
    }
    c
}
fn set_tight_cap(c: &mut Case) {
    let n: u64 = c.threads.iter().flatten().map(grow_n).sum::<u64>() + c.cfg[C_INIT];
    c.cfg[C_CAP] = n + 2;
}
fn grow_n(o: &Op) -> u64 {
    match o[0] {
        PUSH | PUSH_FOR_IDX => 1,
        EXTEND | EXTEND_N | EXTEND_FOR_IDX => o[1],
        _ => 0,
    }
}
type W = &'static [(u64, u64)];
fn op(r: &mut Rng, w: W, maxi: u64, nt: u64) -> Op {
    let o = r.weighted(w);
    let i = |r: &mut Rng| r.below(maxi.max(1));
    match o {
        EXTEND | EXTEND_N | EXTEND_FOR_IDX => [o, r.pick(&[0, 1, 2, 2, 3, 3, 4, 5, 7, 9]), 0, 0, 0],
        EL_EQ_VAL => [o, i(r), r.pick(&[0, 1, 2, 3, 16, 32, 17, 33, 48]), 0, 0],
        VSWAP | EL_EQ_EL => [o, i(r), i(r), 0, 0],
        SL_SWAP => [o, r.below(2), r.range(1, maxi + 1), r.below(maxi.max(1)), r.below(maxi.max(1))],
        FILL..=EQ_ARR => [o, r.below(3), r.below(2) * r.range(1, 3), r.range(0, maxi + 1), r.pick(&[0, 1, 2, 3, 16, 32, 48, 33])],
        WAIT => [o, r.range(1, nt), r.range(1, 3), 0, 0],
        _ => [o, i(r), r.below(maxi + 1), r.below(maxi + 1), 0],
    }
}
/// waiting for an operation which waits for this one is avoided: the k-th operation only waits for earlier ones
fn fix_waits(c: &mut Case) {
    for t in &mut c.threads {
        for (k, o) in t.iter_mut().enumerate() {
            if o[0] == WAIT {
                o[2] = o[2].min(k as u64);
                if o[2] == 0 {
                    o[0] = YIELD;
                }
            }
        }
    }
}
fn program(r: &mut Rng, c: &mut Case, w: W, nt: (u64, u64), nops: (u64, u64), maxi: u64) {
    let n = r.range(nt.0, nt.1);
    c.threads = vec![vec![]];
    for _ in 0..n {
        let k = r.range(nops.0, nops.1);
        c.threads.push((0..k).map(|_| op(r, w, maxi, n)).collect());
    }
    if c.cfg[C_OFF] > 0 && r.chance(1, 2) {
        let m = if r.chance(1, 10) { 100 } else { r.pick(&[2, 5, 10, 30]) };
        for o in c.threads.iter_mut().flatten() {
            if matches!(o[0], EXTEND | EXTEND_N | EXTEND_FOR_IDX) {
                o[1] *= m;
            }
        }
        let n: u64 = c.threads.iter().flatten().map(grow_n).sum::<u64>() + c.cfg[C_INIT] + 20;
        c.cfg[C_CAP] = c.cfg[C_CAP].max(n);
        c.cfg[C_FRAGS] = c.cfg[C_FRAGS].max(n >> c.cfg[C_EXP]);
    }
    fix_waits(c);
}

/// A few calls on a few elements, with many stale reads: one thread adds elements which the others look for.
fn small(r: &mut Rng, c: &mut Case, w: W) {
    if c.cfg[C_OFF] > 0 {
        return;
    }
    c.cfg[C_INIT] = r.pick(&[0, 0, 0, 1, 2, 3]);
    c.sched = [0; 6];
    c.sched[2] = r.pick(&[2, 2, 3, 4]);
    c.sched[3] = r.pick(&[2, 2, 3]);
    let n = r.range(2, 3);
    c.threads = vec![vec![]];
    for t in 0..n {
        let k = r.range(1, 3 - (t == 0) as u64);
        let m = c.cfg[C_INIT] + r.range(1, 2);
        c.threads.push((0..k).map(|_| op(r, if t == 0 { &GROW[..5] } else { w }, m, n)).collect());
    }
    fix_waits(c);
}

/// one call into user code panics, or an iterator ends too early
fn fault(r: &mut Rng, c: &mut Case, max: u64) {
    if r.chance(1, 4) {
        c.cfg[C_ACT] = ACT_SHORT as u64;
        c.cfg[C_MASK] = 0x08;
    } else {
        c.cfg[C_ACT] = ACT_PANIC as u64;
        c.cfg[C_MASK] = r.pick(&[0xdf, 0xdf, 0x18, 0x10, 0x08, 0x07, 0x0f]);
    }
    c.cfg[C_FIBER] = 0;
    c.cfg[C_AT] = match r.below(3) {
        0 => r.range(1, 3),
        1 => r.range(1, max / 2),
        _ => r.range(1, max),
    };
}
/// A call into user code takes so long that all other threads wait for it, or finish.
fn delay(r: &mut Rng, c: &mut Case) {
    if c.cfg[C_ACT] != 0 || c.cfg[C_OFF] > 0 {
        return;
    }
    c.cfg[C_ACT] = ACT_STALL as u64;
    c.cfg[C_SOFT] = 1;
    c.cfg[C_LL] = match r.below(24) {
        0 => 400_000,
        1 => 60_000,
        _ => 3_000,
    };
    c.cfg[C_MASK] = r.pick(&[0x1df, 0x1df, 0x110, 0x10, 0x08, 0x07]);
    c.cfg[C_FIBER] = r.below(3);
    c.cfg[C_AT] = r.range(1, 8);
}
const GROW: W = &[(4, PUSH), (3, PUSH_FOR_IDX), (3, EXTEND), (3, EXTEND_FOR_IDX), (3, EXTEND_N), (1, VLEN), (2, WAIT)];
fn gen_c01(r: &mut Rng, big: bool) -> Case {
    let mut c = base(r, &[0, 1, 1, 2, 3, 3, 4, 5], (0, 6), 50);
    let m = if big { 8 } else { 5 };
    program(r, &mut c, GROW, (2, 4), (1, m), 6);
    if r.chance(1, 2) {
        set_tight_cap(&mut c)
    } else if r.chance(1, 3) {
        fault(r, &mut c, 12);
    }
    if r.chance(1, 16) {
        delay(r, &mut c);
    }
    c
}
const VISIBLE: W = &[
    (5, PUSH), (3, PUSH_FOR_IDX), (2, EXTEND), (2, EXTEND_FOR_IDX), (2, EXTEND_N), (6, VLEN), (2, IS_EMPTY), (2, CAPACITY), (4, GET), (3, GET_CLONED),
    (2, GET_COPIED), (4, LEN_GET), (2, INDEX), (3, EL_MAP), (2, ITER), (1, ITER_CLONED), (2, SLICES), (1, CLONE_TO_VEC), (1, CHUNKS), (1, SPLIT_AT), (1, SPLIT_FIRST),
    (1, SPLIT_LAST), (1, EL_SET), (2, WAIT),
];
fn gen_c02(r: &mut Rng, big: bool) -> Case {
    if r.chance(1, 10) {
        return gen_gap(r, big);
    }
    let mut c = base(r, &[0, 1, 2, 3, 3, 3, 4, 5], (0, 3), 50);
    let m = if big { 7 } else { 5 };
    program(r, &mut c, VISIBLE, (2, 4), (1, m), 8);
    if r.chance(1, 4) {
        small(r, &mut c, VISIBLE);
    }
    if r.chance(1, 16) {
        delay(r, &mut c);
    }
    c
}
const ALL: W = &[
    (6, PUSH), (3, PUSH_FOR_IDX), (3, EXTEND), (3, EXTEND_FOR_IDX), (3, EXTEND_N), (2, VLEN), (1, IS_EMPTY), (1, CAPACITY), (2, GET), (3, GET_CLONED), (2, GET_COPIED),
    (2, LEN_GET), (1, INDEX), (2, EL_CLONED), (2, EL_COPIED), (2, EL_MAP), (3, EL_REPLACE), (3, EL_SET), (3, EL_UPDATE), (2, EL_EQ_VAL), (2, EL_EQ_EL), (2, EL_DEBUG),
    (3, VSWAP), (2, SL_SWAP), (2, HOLD), (2, FILL), (2, FILL_WITH), (1, ITER), (2, ITER_CLONED), (1, MAP), (1, FILTER), (1, FOLD), (1, REDUCE), (1, INDEX_OF),
    (1, CONTAINS), (1, CLONE_TO_VEC), (1, DEBUG), (1, CLONE), (1, EQ_SELF), (1, EQ_ARR), (1, SLICES), (1, CHUNKS), (1, SPLIT_AT), (1, SPLIT_FIRST), (1, SPLIT_LAST), (2, WAIT),
];
fn gen_c03(r: &mut Rng, big: bool) -> Case {
    let mut c = base(r, &[0, 0, 0, 1, 1, 2, 3, 4], (0, 4), 70);
    let m = if big { 8 } else { 5 };
    program(r, &mut c, ALL, (2, 4), (1, m), 5);
    if r.chance(1, 4) {
        small(r, &mut c, ALL);
    }
    if r.chance(1, 3) {
        set_tight_cap(&mut c)
    }
    if r.chance(1, 16) {
        delay(r, &mut c);
    }
    c
}
const ELEM: W = &[
    (3, EL_CLONED), (2, EL_COPIED), (3, EL_MAP), (5, EL_REPLACE), (4, EL_SET), (5, EL_UPDATE), (3, EL_EQ_VAL), (2, EL_EQ_EL), (2, EL_DEBUG), (2, GET_CLONED), (1, GET_COPIED), (2, GET),
    (1, PUSH), (1, EXTEND), (1, PUSH_FOR_IDX), (1, WAIT),
];
fn gen_c04(r: &mut Rng, big: bool) -> Case {
    let mut c = base(r, &[0, 0, 1, 2, 3, 3, 4], (1, 3), 50);
    let m = if big { 7 } else { 5 };
    let n = c.cfg[C_INIT];
    program(r, &mut c, ELEM, (2, 4), (2, m), n + 1);
    if r.chance(1, 16) {
        delay(r, &mut c);
    }
    c
}
const SWAPS: W = &[(8, VSWAP), (4, SL_SWAP), (2, EL_MAP), (2, EL_CLONED), (2, EL_REPLACE), (1, EL_SET), (2, EL_UPDATE), (1, EL_EQ_EL), (1, PUSH), (1, ITER_CLONED), (1, WAIT)];
fn gen_c05(r: &mut Rng, big: bool) -> Case {
    let mut c = base(r, &[0, 0, 1, 2, 3, 3, 4], (1, 4), 50);
    let m = if big { 5 } else { 4 };
    let n = c.cfg[C_INIT];
    program(r, &mut c, SWAPS, (2, 4), (1, m), n + 1);
    if r.chance(1, 16) {
        delay(r, &mut c);
    }
    c
}
fn gen_c08(r: &mut Rng, big: bool) -> Case {
    if r.chance(1, 8) {
        return gen_gap(r, big);
    }
    if r.chance(1, 3) {
        return gen_own(r, big);
    }
    let mut c = base(r, &[0, 0, 0, 1, 1, 1, 2, 2, 5], (0, 5), 20);
    let m = if big { 8 } else { 5 };
    program(r, &mut c, ALL, (1, 3), (1, m), 5);
    if r.chance(1, 3) {
        set_tight_cap(&mut c)
    } else if r.chance(1, 3) {
        fault(r, &mut c, 16);
    }
    c
}
const PINNED: W = &[
    (6, PUSH), (2, PUSH_FOR_IDX), (4, EXTEND), (2, EXTEND_FOR_IDX), (3, EXTEND_N), (8, HOLD), (4, GET), (3, GET_RAW), (2, GET_REF), (2, GET_RAW_MUT), (2, ITER), (1, SPLIT_LAST),
    (1, SPLIT_FIRST), (1, CHUNKS), (1, SLICES), (1, WAIT),
];
fn gen_c09(r: &mut Rng, big: bool) -> Case {
    if r.chance(1, 6) {
        return gen_gap(r, big);
    }
    if r.chance(1, 5) {
        return gen_pinned(r, big);
    }
    let mut c = base(r, &[0, 1, 1, 2, 3, 4, 5], (0, 6), 40);
    let m = if big { 8 } else { 6 };
    program(r, &mut c, PINNED, (2, 4), (2, m), 6);
    if r.chance(1, 4) {
        small(r, &mut c, PINNED);
    }
    if r.chance(1, 16) {
        delay(r, &mut c);
    }
    c
}
const LIMIT: W = &[(8, PUSH), (4, PUSH_FOR_IDX), (2, VLEN), (1, CAPACITY), (1, LEN_GET), (1, ITER_CLONED), (1, EL_SET), (1, GET), (1, WAIT)];
const LIMIT_X: W = &[
    (5, PUSH), (3, PUSH_FOR_IDX), (3, EXTEND), (3, EXTEND_FOR_IDX), (3, EXTEND_N), (2, VLEN), (1, CAPACITY), (1, LEN_GET), (1, ITER_CLONED), (1, EL_SET), (1, GET), (1, WAIT),
];
fn gen_c10(r: &mut Rng, big: bool) -> Case {
    if r.chance(1, 6) {
        return gen_gap(r, big);
    }
    if r.chance(1, 4) {
        return gen_limit(r, big);
    }
    let mut c = base(r, &[1, 1, 2, 2, 4, 5], (0, 4), 30);
    let m = if big { 8 } else { 6 };
    let w = if r.chance(1, 2) { LIMIT } else { LIMIT_X };
    program(r, &mut c, w, (2, 4), (1, m), 6);
    let n: u64 = c.threads.iter().flatten().map(grow_n).sum::<u64>() + c.cfg[C_INIT];
    // maximum capacity close to what is requested
    let cap = (n * r.range(40, 110) / 100).max(c.cfg[C_INIT]).max(1);
    c.cfg[C_CAP] = cap;
    c.cfg[C_EXP] = r.range(1, 2);
    c.cfg[C_FRAGS] = (cap >> c.cfg[C_EXP]).max((c.cfg[C_INIT] + (1 << c.cfg[C_EXP]) - 1) >> c.cfg[C_EXP]).max(1);
    if r.chance(1, 16) {
        delay(r, &mut c);
    }
    c
}
const USER: W = &[
    (4, PUSH), (6, PUSH_FOR_IDX), (4, EXTEND), (5, EXTEND_FOR_IDX), (4, EXTEND_N), (2, VLEN), (2, GET), (2, GET_CLONED), (2, LEN_GET), (3, EL_CLONED), (4, EL_MAP), (1, EL_REPLACE),
    (1, EL_SET), (6, EL_UPDATE), (3, EL_EQ_VAL), (3, EL_EQ_EL), (2, EL_DEBUG), (2, VSWAP), (2, FILL), (3, FILL_WITH), (2, ITER), (2, ITER_CLONED), (2, MAP), (2, FILTER), (2, FOLD), (2, REDUCE),
    (2, INDEX_OF), (1, CONTAINS), (2, CLONE_TO_VEC), (2, DEBUG), (2, CLONE), (1, EQ_SELF), (2, EQ_ARR), (1, WAIT),
];
fn gen_c11(r: &mut Rng, big: bool) -> Case {
    if r.chance(1, 4) {
        return gen_gap(r, big);
    }
    if r.chance(1, 4) {
        return gen_user(r, big);
    }
    let mut c = base(r, &[0, 0, 0, 1, 1, 2, 2, 3], (0, 4), 30);
    let m = if big { 6 } else { 4 };
    program(r, &mut c, USER, (2, 3), (1, m), 5);
    fault(r, &mut c, 16);
    c
}

/// progress: one thread is suspended inside user code; the others only do what must not depend on it
fn gen_c13(r: &mut Rng, big: bool) -> Case {
    let mut c = base(r, &[0, 0, 1, 1, 2, 3, 4], (3, 5), 20);
    let m = if big { 7 } else { 5 };
    c.cfg[C_LL] = 6_000;
    c.cfg[C_OFF] = 0;
    if r.chance(2, 5) {
        // nobody is suspended: all calls return
        program(r, &mut c, ALL, (2, 4), (1, m), 5);
        if r.chance(1, 2) {
            let dense: W = &[(4, VSWAP), (2, SL_SWAP), (3, EL_EQ_EL), (2, EQ_SELF), (2, FILL_WITH), (1, PUSH), (2, EXTEND), (2, EL_UPDATE), (1, FILL), (1, PUSH_FOR_IDX)];
            program(r, &mut c, dense, (2, 4), (1, m), 3);
        }
        return c;
    }
    const GROWING: W = &[
        (5, PUSH), (3, PUSH_FOR_IDX), (3, EXTEND), (3, EXTEND_FOR_IDX), (3, EXTEND_N), (3, VLEN), (1, IS_EMPTY), (1, CAPACITY), (2, GET), (1, GET_CLONED), (1, LEN_GET), (1, EL_SET), (1, EL_UPDATE),
        (1, VSWAP), (1, ITER_CLONED), (1, FOLD), (1, CLONE_TO_VEC), (1, SLICES), (1, CHUNKS), (1, SPLIT_LAST), (1, INDEX_OF), (1, DEBUG), (1, FILL), (1, FILL_WITH), (1, GET_RAW), (1, GET_REF), (1, ITER_REF),
    ];
    // nothing here needs the value of element 0 if the index is not 0
    const OTHERS: W = &[
        (5, PUSH), (3, PUSH_FOR_IDX), (3, EXTEND), (2, EXTEND_FOR_IDX), (2, EXTEND_N), (5, VLEN), (2, IS_EMPTY), (2, CAPACITY), (3, GET), (2, GET_CLONED), (2, EL_CLONED), (2, EL_SET), (2, EL_UPDATE), (2, EL_REPLACE),
        (2, EL_MAP), (2, EL_EQ_EL), (2, VSWAP), (2, CHUNKS), (2, SPLIT_AT), (1, SPLIT_FIRST), (1, GET_RAW), (1, GET_RAW_MUT),
    ];
    // the element which is accessed by the suspended thread (and the other one of a comparison)
    let k = r.below(c.cfg[C_INIT]);
    let k2 = (k + 1) % c.cfg[C_INIT];
    let at = k + 1;
    #[derive(PartialEq)]
    enum Kind {
        // nothing is accessed
        Free,
        // as before, but the values must not change
        FreeReads,
        // elements k and k2
        Holds,
    }
    // operation, kind, mask, number of the user call
    let (stall, kind, mask, at): (Op, Kind, u64, u64) = match r.below(10) {
        // values are only visited, no element is held between the steps; ITER_CLONED clones while the element is locked
        0 => ([r.pick(&[ITER, ITER_REF, ITER_CLONED]), 0, 0, 0, 0], Kind::FreeReads, 0x10, at),
        1..=4 => {
            // a value is created
            let n = r.range(1, 6);
            let m = r.range(1, n.min(3));
            match r.below(6) {
                0 => ([PUSH_FOR_IDX, 0, 0, 0, 0], Kind::Free, 0x17, 1),
                1 => ([EXTEND, n, 0, 0, 0], Kind::Free, r.pick(&[0x08, 0x88, 0x48]), m),
                2 => ([EXTEND_N, n, 0, 0, 0], Kind::Free, r.pick(&[0x08, 0x88, 0x48]), m),
                3 if r.chance(1, 2) => ([EXTEND_FOR_IDX, n, 0, 0, 0], Kind::Free, 0x10, 1),
                3 => ([EXTEND_FOR_IDX, n, 0, 0, 0], Kind::Free, r.pick(&[0x08, 0x48]), m),
                4 => ([FILL, 0, 0, 0, 0], Kind::Free, 0x01, at),
                _ => ([FILL_WITH, 0, 0, 0, 0], Kind::Free, 0x10, at),
            }
        }
        5..=7 => {
            let o = r.pick(&[EL_MAP, EL_UPDATE, EL_UPDATE, EL_CLONED, EL_EQ_VAL, EL_DEBUG, GET_CLONED, GET, EL_EQ_EL]);
            ([o, k, k2, 0, 0], Kind::Holds, 0x17, 1)
        }
        _ => {
            let (o, mask) = r.pick(&[
                (MAP, 0x10), (FOLD, 0x10), (FILTER, 0x10), (REDUCE, 0x10), (DEBUG, 0x04), (ITER_CLONED, 0x01), (CLONE_TO_VEC, 0x01), (CLONE, 0x01), (INDEX_OF, 0x02), (CONTAINS, 0x02), (EQ_ARR, 0x02),
            ]);
            let at = if o == REDUCE { k.max(1) } else { at };
            ([o, 0, 0, 4, if o == EQ_ARR { 0 } else { 48 }], Kind::Holds, mask, at)
        }
    };
    let (growing, iterating) = (kind == Kind::Free, kind == Kind::FreeReads);
    let n = r.range(1, 3);
    let w = if growing || iterating { GROWING } else { OTHERS };
    program(r, &mut c, w, (n, n), (1, m), 5);
    if kind == Kind::Holds {
        let two = stall[0] == EL_EQ_EL;
        let k = if stall[0] == REDUCE { at } else { k };
        let free: Vec<u64> = (0..c.cfg[C_INIT]).filter(|x| *x != k && !(two && *x == k2)).collect();
        for o in c.threads.iter_mut().flatten() {
            if o[0] >= GET && o[0] != CHUNKS {
                o[1] = free[o[1] as usize % free.len()];
                o[2] = free[o[2] as usize % free.len()];
            }
        }
    }
    if iterating {
        // iter_ref requires that values are not written meanwhile
        for o in c.threads.iter_mut().flatten() {
            if matches!(o[0], EL_SET | EL_UPDATE | FILL | FILL_WITH | VSWAP) {
                *o = [PUSH, 0, 0, 0, 0];
            }
        }
    } else {
        for o in c.threads.iter_mut().flatten() {
            if matches!(o[0], GET_RAW | GET_REF | GET_RAW_MUT | ITER_REF) {
                *o = [VLEN, 0, 0, 0, 0];
            }
        }
    }
    let mut t = vec![stall];
    if r.chance(1, 2) {
        t.push([PUSH, 0, 0, 0, 0]);
    }
    c.threads.insert(1, t);
    c.cfg[C_YIELDS] = 0;
    c.cfg[C_ACT] = ACT_STALL as u64;
    c.cfg[C_FIBER] = 1;
    c.cfg[C_MASK] = mask;
    c.cfg[C_AT] = at;
    c
}
const BULKS: W = &[
    (2, FILL), (3, FILL_WITH), (2, ITER), (3, ITER_CLONED), (2, MAP), (2, FILTER), (2, FOLD), (2, REDUCE), (2, INDEX_OF), (2, CONTAINS), (3, CLONE_TO_VEC), (2, DEBUG), (2, CLONE), (2, EQ_SELF), (2, EQ_ARR),
    (3, EL_SET), (2, EL_UPDATE), (3, PUSH), (2, EXTEND), (2, PUSH_FOR_IDX), (1, CHUNKS), (1, SPLIT_AT), (1, SPLIT_FIRST), (1, SPLIT_LAST), (1, SLICES), (1, WAIT),
];
fn gen_c14(r: &mut Rng, big: bool) -> Case {
    if r.chance(1, 12) {
        return gen_gap(r, big);
    }
    let mut c = base(r, &[0, 0, 0, 1, 2, 3, 3, 4], (0, 4), 40);
    let m = if big { 5 } else { 4 };
    program(r, &mut c, BULKS, (2, 3), (1, m), 4);
    if r.chance(1, 16) {
        delay(r, &mut c);
    }
    c
}
const RAWS: W = &[
    (5, PUSH), (3, PUSH_FOR_IDX), (3, EXTEND), (2, EXTEND_FOR_IDX), (2, EXTEND_N), (4, GET_RAW), (4, GET_REF), (4, ITER_REF), (2, GET_RAW_MUT), (2, SL_GET_RAW), (2, SL_GET_REF), (2, SL_ITER_REF), (4, EL_MAP),
    (2, EL_CLONED), (1, VLEN), (1, ITER_CLONED), (1, FOLD), (1, WAIT),
];
fn gen_c15(r: &mut Rng, big: bool) -> Case {
    if r.chance(1, 8) {
        return gen_gap(r, big);
    }
    let mut c = base(r, &[0, 0, 1, 2, 3, 3, 4], (0, 4), 60);
    if r.chance(1, 2) {
        c.cfg[C_YIELDS] = 0x1ff;
    }
    let m = if big { 7 } else { 5 };
    program(r, &mut c, RAWS, (2, 4), (1, m), 6);
    if r.chance(1, 4) {
        small(r, &mut c, RAWS);
    }
    if r.chance(1, 16) {
        delay(r, &mut c);
    }
    c
}

// ------------------------------------------------------------------ generators of sequential histories

fn path(r: &mut Rng, slices: u64) -> u64 {
    let mut p = 0;
    if !r.chance(slices, 100) {
        return 0;
    }
    for l in 0..3 {
        let form = if l == 0 { r.range(1, 10) } else { r.range(1, 9) };
        let (a, b) = if r.chance(1, 5) {
            (r.below(64), r.below(64))
        } else {
            let a = if r.chance(1, 3) { 0 } else { r.below(if l == 0 { 10 } else { 4 }) };
            let form_is_to = matches!(form, 4 | 6);
            (a, if form_is_to { r.below(24) } else { a + r.below(20) })
        };
        p |= mk_level(form, a, b) << (16 * l);
        if r.chance(1, 2) {
            break;
        }
    }
    p
}
fn seq_op(r: &mut Rng, w: W, slices: u64) -> Op {
    let o = r.weighted(w);
    let small = |r: &mut Rng| if r.chance(1, 6) { r.below(64) } else { r.below(12) };
    [o, small(r), small(r), path(r, slices), r.below(4000)]
}
fn seq_case(r: &mut Rng, w: W, combos: &[u64], nops: (u64, u64), slices: u64) -> Case {
    let mut c = Case { cfg: vec![0; NCFG], ..Default::default() };
    c.cfg[C_MACH] = 1;
    c.cfg[C_COMBO] = r.pick(combos);
    c.cfg[C_INIT] = r.pick(&[0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 20, 28, 29, 40]);
    c.cfg[C_EXP] = r.range(1, 4);
    c.cfg[C_FRAGS] = r.pick(&[1, 2, 3, 5, 8, 16, 40]);
    c.cfg[C_CAP] = r.pick(&[0, 1, 2, 5, 10, 16, 30, 60]);
    c.cfg[C_END] = r.below(5);
    c.cfg[C_LL] = 30_000;
    c.cfg[C_RACE] = 1;
    sched(r, &mut c, 30);
    let mut k = r.range(nops.0, nops.1);
    let s = match r.below(20_000) {
        0..500 => r.pick(&[2, 3, 5, 8, 11, 16, 25]),
        500..550 => r.pick(&[60, 100, 130, 205]),
        550 => 1700,
        _ => 1,
    };
    if s > 1 {
        c.cfg[C_SCALE] = s;
        c.cfg[C_INIT] = c.cfg[C_INIT] * s + r.below(s);
        if r.chance(1, 2) {
            c.cfg[C_EXP] += s.ilog2() as u64;
        } else {
            c.cfg[C_EXP] += s.ilog2() as u64 / 2;
            c.cfg[C_FRAGS] *= 1 << s.ilog2() / 2;
        }
        c.cfg[C_CAP] *= s;
        c.cfg[C_LL] *= 2 * s;
        if s > 200 {
            k = k.min(4);
        }
    }
    if r.chance(1, 3) {
        c.cfg[C_QUIET] = r.next();
    }
    c.threads = vec![(0..k).map(|_| seq_op(r, w, slices)).collect()];
    c
}
const SINGLE: &[u64] = &[0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9];
const S_ALL: W = &[
    (5, S_PUSH), (4, S_PUSH_FOR_IDX), (5, S_EXTEND), (4, S_EXTEND_FOR_IDX), (4, S_EXTEND_N), (4, S_GETS), (2, S_LENS), (3, S_ITER), (3, S_FOLDS), (3, S_FIND), (2, S_DEBUG), (3, S_EQ), (4, S_WRITE), (3, S_SWAP),
    (2, S_FILL), (2, S_FILL_WITH), (4, S_RAW), (2, S_ELEM_EQ), (2, S_SPLIT), (2, S_CHUNKS), (2, S_TO), (2, S_ITER_GROW), (2, S_REENTER), (2, S_SLICE_KEEP), (1, S_CLONE), (1, S_CLEAR), (1, S_RESERVE), (1, S_WRONG_LEN),
];
fn gen_c06(r: &mut Rng, big: bool) -> Case {
    let n = if big { 16 } else { 10 };
    seq_case(r, S_ALL, SINGLE, (2, n), 15)
}
const S_SLICES: W = &[
    (2, S_PUSH), (3, S_EXTEND), (4, S_GETS), (3, S_LENS), (4, S_ITER), (4, S_FOLDS), (4, S_FIND), (2, S_DEBUG), (4, S_EQ), (4, S_WRITE), (4, S_SWAP),
    (3, S_FILL), (3, S_FILL_WITH), (4, S_RAW), (3, S_ELEM_EQ), (6, S_SPLIT), (6, S_CHUNKS), (3, S_TO), (4, S_SLICE_KEEP),
];
fn gen_c07(r: &mut Rng, big: bool) -> Case {
    let n = if big { 12 } else { 8 };
    seq_case(r, S_SLICES, SINGLE, (1, n), 85)
}
const S_CONVERT: W = &[
    (3, S_PUSH), (1, S_PUSH_FOR_IDX), (4, S_EXTEND), (2, S_EXTEND_FOR_IDX), (2, S_EXTEND_N), (2, S_WRITE), (1, S_SWAP), (1, S_DEBUG), (1, S_GETS), (2, S_EQ), (2, S_TO), (1, S_FILL_WITH), (1, S_RAW), (6, S_CLONE), (6, S_TO_VEC), (6, S_INNER),
    (5, S_COLLECT), (6, S_INTO_ITER), (5, S_FROM), (1, S_CLEAR), (1, S_EPOCH),
];
const S_LOCKSTEP: W = &[
    (3, S_PUSH), (2, S_PUSH_FOR_IDX), (4, S_EXTEND), (2, S_EXTEND_FOR_IDX), (2, S_EXTEND_N), (2, S_WRITE), (1, S_SWAP), (2, S_DEBUG), (2, S_GETS), (2, S_EQ), (2, S_FOLDS), (2, S_FIND), (2, S_TO), (1, S_FILL_WITH), (2, S_RAW), (2, S_TO_VEC),
    (2, S_INNER), (2, S_INTO_ITER), (2, S_FROM), (1, S_CLEAR), (1, S_SPLIT), (1, S_CHUNKS), (1, S_ITER_GROW), (1, S_REENTER), (1, S_SLICE_KEEP), (1, S_ELEM_EQ),
];
fn gen_c12(r: &mut Rng, big: bool) -> Case {
    let n = if big { 12 } else { 8 };
    if r.chance(1, 3) {
        // the same history on all storages; S_EPOCH depends on the schedule
        return seq_case(r, S_LOCKSTEP, &[ALL_STORES], (2, n), 20);
    }
    seq_case(r, S_CONVERT, SINGLE, (1, n), 20)
}
const S_EXCLUSIVE: W = &[
    (3, S_PUSH), (2, S_PUSH_FOR_IDX), (4, S_EXTEND), (2, S_EXTEND_FOR_IDX), (2, S_EXTEND_N), (2, S_GETS), (1, S_ITER), (1, S_FOLDS), (2, S_WRITE), (1, S_SWAP), (1, S_RAW), (1, S_SPLIT), (1, S_CHUNKS), (1, S_SLICE_KEEP), (1, S_REENTER),
    (6, S_CLEAR), (6, S_RESERVE), (3, S_OVERFLOW), (1, S_WRONG_LEN), (4, S_EPOCH), (1, S_NEW), (1, S_INNER), (1, S_CLONE), (1, S_INTO_ITER),
];
fn gen_c17(r: &mut Rng, big: bool) -> Case {
    if r.chance(1, 5) {
        return gen_gap(r, big);
    }
    let n = if big { 14 } else { 9 };
    seq_case(r, S_EXCLUSIVE, SINGLE, (2, n), 20)
}
const S_OWN: W = &[
    (3, S_PUSH), (2, S_PUSH_FOR_IDX), (4, S_EXTEND), (2, S_EXTEND_FOR_IDX), (3, S_EXTEND_N), (1, S_ITER), (1, S_FOLDS), (3, S_WRITE), (2, S_SWAP), (2, S_FILL), (2, S_FILL_WITH), (2, S_RAW), (1, S_EQ), (1, S_TO),
    (3, S_CLONE), (3, S_TO_VEC), (3, S_INNER), (2, S_COLLECT), (4, S_INTO_ITER), (2, S_FROM), (3, S_CLEAR), (2, S_RESERVE), (2, S_OVERFLOW), (1, S_WRONG_LEN), (2, S_EPOCH), (1, S_NEW), (1, S_REENTER),
];
fn gen_own(r: &mut Rng, big: bool) -> Case {
    let n = if big { 12 } else { 8 };
    let mut c = seq_case(r, S_OWN, &[0, 0, 1, 1, 2, 2, 3, 4, 8], (1, n), 20);
    if r.chance(1, 3) {
        fault(r, &mut c, 60);
    }
    c
}
const S_PINNED: W = &[
    (4, S_PUSH), (2, S_PUSH_FOR_IDX), (5, S_EXTEND), (2, S_EXTEND_FOR_IDX), (2, S_EXTEND_N), (2, S_WRITE), (1, S_SWAP), (1, S_FILL), (4, S_RESERVE), (2, S_EPOCH), (1, S_SLICE_KEEP), (1, S_OVERFLOW), (1, S_RAW),
];
fn gen_pinned(r: &mut Rng, big: bool) -> Case {
    let n = if big { 14 } else { 9 };
    seq_case(r, S_PINNED, SINGLE, (2, n), 20)
}
const S_LIMIT: W = &[
    (3, S_PUSH), (2, S_PUSH_FOR_IDX), (3, S_EXTEND), (2, S_EXTEND_FOR_IDX), (2, S_EXTEND_N), (1, S_GETS), (1, S_WRITE), (8, S_OVERFLOW), (2, S_RESERVE), (1, S_CLEAR), (2, S_EPOCH), (1, S_NEW), (1, S_LENS), (1, S_ITER), (1, S_DEBUG), (1, S_EQ), (1, S_SPLIT),
];
fn gen_limit(r: &mut Rng, big: bool) -> Case {
    let n = if big { 10 } else { 7 };
    seq_case(r, S_LIMIT, &[1, 1, 2, 2, 4, 5, 6, 8, 9], (2, n), 20)
}
const STRATEGY: W = &[(6, PUSH), (3, PUSH_FOR_IDX), (4, EXTEND), (4, EXTEND_FOR_IDX), (4, EXTEND_N), (8, CAPACITY), (1, VLEN), (1, GET), (1, EL_SET), (1, CLONE), (2, WAIT)];
const S_STRATEGY: W = &[
    (4, S_PUSH), (3, S_PUSH_FOR_IDX), (5, S_EXTEND), (4, S_EXTEND_FOR_IDX), (4, S_EXTEND_N), (1, S_ITER_GROW), (1, S_REENTER), (1, S_WRITE), (1, S_CLONE), (1, S_TO_VEC), (1, S_INNER), (1, S_COLLECT), (1, S_INTO_ITER), (1, S_FROM),
    (3, S_CLEAR), (3, S_RESERVE), (3, S_EPOCH), (1, S_NEW), (1, S_OVERFLOW), (1, S_LENS), (1, S_FILL),
];
fn gen_c19(r: &mut Rng, big: bool) -> Case {
    if r.chance(2, 5) {
        return seq_case(r, S_STRATEGY, SINGLE, (2, if big { 14 } else { 9 }), 10);
    }
    let mut c = base(r, &[0, 1, 1, 2, 3, 3, 4, 5], (0, 6), 50);
    program(r, &mut c, STRATEGY, (2, 4), (1, if big { 9 } else { 6 }), 6);
    if r.chance(1, 6) {
        fault(r, &mut c, 12);
    }
    c
}
const CALLING: W = &[
    (2, PUSH), (4, PUSH_FOR_IDX), (2, EXTEND), (4, EXTEND_FOR_IDX), (2, EXTEND_N), (5, EL_MAP), (6, EL_UPDATE), (2, EL_SET), (2, EL_REPLACE), (2, VSWAP), (4, FILL_WITH), (3, FILTER), (3, FOLD), (3, MAP), (2, REDUCE), (1, VLEN),
];
fn gen_c20(r: &mut Rng, big: bool) -> Case {
    if r.chance(3, 5) {
        let w: W = &[(10, S_CALLS), (1, S_PUSH), (2, S_EXTEND), (1, S_WRITE), (1, S_RESERVE), (1, S_CLONE), (1, S_EPOCH), (1, S_FOLDS), (1, S_FILL_WITH)];
        return seq_case(r, w, SINGLE, (1, if big { 12 } else { 8 }), 35);
    }
    let mut c = base(r, &[0, 0, 1, 2, 3, 3, 4], (1, 4), 40);
    let n = c.cfg[C_INIT];
    program(r, &mut c, CALLING, (2, 4), (1, if big { 7 } else { 5 }), n);
    c
}
const S_USER: W = &[
    (3, S_PUSH), (4, S_PUSH_FOR_IDX), (4, S_EXTEND), (4, S_EXTEND_FOR_IDX), (4, S_EXTEND_N), (2, S_GETS), (2, S_ITER), (4, S_FOLDS), (2, S_FIND), (2, S_DEBUG), (3, S_EQ), (4, S_WRITE), (1, S_SWAP), (3, S_FILL), (4, S_FILL_WITH),
    (3, S_ELEM_EQ), (1, S_SPLIT), (2, S_TO), (2, S_CLONE), (2, S_COLLECT), (1, S_INTO_ITER), (2, S_REENTER), (1, S_CLEAR),
];
fn gen_user(r: &mut Rng, big: bool) -> Case {
    let n = if big { 8 } else { 5 };
    let mut c = seq_case(r, S_USER, &[0, 0, 1, 1, 2, 2, 3, 4, 8], (1, n), 30);
    let m = r.pick(&[3, 10, 30, 80]);
    fault(r, &mut c, m);
    c
}

// ------------------------------------------------------------------ generators of histories with failing calls

const G_ALL: W = &[
    (4, G_PUSH), (7, G_PUSH_FOR_IDX), (4, G_EXTEND), (4, G_EXTEND_N), (5, G_EXTEND_FOR_IDX), (3, G_EPOCH), (3, G_GET), (5, G_WRITE), (3, G_SWAP), (3, G_FILL), (3, G_FILL_WITH), (6, G_READS), (4, G_SLICES),
    (3, G_RAW_WRITE), (1, G_EQ), (2, G_CLEAR), (3, G_RESERVE), (2, G_OVERFLOW),
];
fn gen_gap(r: &mut Rng, big: bool) -> Case {
    let mut c = seq_case(r, &[(1, S_PUSH)], SINGLE, (1, 1), 0);
    c.cfg[C_MACH] = 2;
    c.cfg[C_SCALE] = 0;
    c.cfg[C_INIT] = r.pick(&[0, 0, 1, 2, 3, 4, 5, 7, 12, 13]);
    c.cfg[C_EXP] = r.range(1, 3);
    c.cfg[C_FRAGS] = r.pick(&[2, 3, 5, 8, 16, 40]);
    c.cfg[C_CAP] = r.pick(&[0, 5, 10, 20, 40, 80, 80]);
    c.cfg[C_END] = r.below(6);
    c.cfg[C_LL] = 30_000;
    c.cfg[C_QUIET] = if r.chance(1, 3) { r.next() } else { 0 };
    let k = r.range(2, if big { 16 } else { 10 });
    c.threads = vec![(0..k)
        .map(|_| {
            let o = r.weighted(G_ALL);
            let small = |r: &mut Rng| if r.chance(1, 6) { r.below(64) } else { r.below(14) };
            [o, small(r), small(r), r.below(24), r.below(4000)]
        })
        .collect()];
    c
}

fn with(f: fn(&Case) -> Outcome, c: &Case, nt: fn(u64) -> bool) -> Outcome {
    let mut o = f(c);
    o.nontrivial = nt(o.classes);
    o
}
fn has(c: u64, b: u64) -> bool {
    c >> b & 1 == 1
}
/// cases of both machines; the classes of the sequential one follow those of the concurrent one
fn run_any(c: &Case) -> Outcome {
    let mut owned;
    let mut c = c;
    if !crate::driver::enabled(K_RACE) && c.cfg.get(C_RACE) == Some(&1) {
        // a race is judged by other properties; here it must not end the case
        owned = c.clone();
        owned.cfg[C_RACE] = 0;
        c = &owned;
    }
    match c.cfg.get(C_MACH).copied().unwrap_or(0) {
        0 => conc::run(c),
        1 => {
            let mut o = seq::run(c);
            o.classes <<= SEQ_CL;
            o
        }
        _ => {
            let mut o = gap::run(c);
            o.classes <<= GAP_CL;
            o
        }
    }
}
const SEQ_CL: u64 = 16;
const GAP_CL: u64 = 32;
fn describe_any(c: &Case) -> String {
    match c.cfg.get(C_MACH).copied().unwrap_or(0) {
        0 => conc::describe(c),
        1 => seq::describe(c),
        _ => gap::describe(c),
    }
}
fn classes() -> Vec<&'static str> {
    let mut v = conc::CLASSES.to_vec();
    v.resize(SEQ_CL as usize, "");
    v.extend(seq::CLASSES);
    v.resize(GAP_CL as usize, "");
    v.extend(gap::CLASSES);
    v
}
fn is_gap(c: u64, b: u64) -> bool {
    has(c, GAP_CL + b)
}
fn is_seq(c: u64, b: u64) -> bool {
    has(c, SEQ_CL + b)
}

macro_rules! conc_prop {
    ($id:expr, $kinds:expr, $gen:expr, $quick:expr, $thorough:expr, $nt:expr, $rule:expr) => {
        Prop { id: $id, kinds: $kinds, quick: $quick, thorough: $thorough, gen: $gen, run: |c| with(run_any, c, $nt), describe: describe_any, classes: classes(), rule: $rule }
    };
}

pub fn all() -> Vec<Prop> {
    vec![
        conc_prop!("C01", &[POS, K_ORACLE, K_MEM, K_CRASH, K_LIVELOCK, K_DEADLOCK, BUDGET], gen_c01, 1_000_000, 20_000_000, |c| has(c, CL_OVERLAP_GROW),
            "Random programs of 2-4 threads issuing push/push_for_idx/extend* (and waits which order calls) under a random or priority based schedule, sequentially consistent or weak; non-trivial: growth calls of at least two threads overlap in time."),
        conc_prop!("C02", &[LEN, K_ORACLE, K_RACE, K_MEM, K_CRASH, K_LIVELOCK, K_DEADLOCK, BUDGET], gen_c02, 1_000_000, 20_000_000, |c| has(c, CL_PARTIAL_LEN),
            "Random programs of 2-4 threads mixing growth with length, lookup and iteration; in addition, single-threaded histories with failing growth calls which go on afterwards; non-trivial: an observation of the length overlaps in time with a growth call of another thread."),
        conc_prop!("C03", &[K_RACE, K_MEM, K_CRASH], gen_c03, 1_000_000, 20_000_000, |c| has(c, CL_CAS_FAIL) || has(c, CL_CONTENDED),
            "Random programs of 2-4 threads over the whole safe shared API, 70% with stale reads as permitted by the memory orders; non-trivial: a compare-exchange failed, or an element is read and written by several threads."),
        conc_prop!("C04", &[LIN, K_ORACLE, K_RACE, K_MEM, K_CRASH, K_LIVELOCK, K_DEADLOCK, BUDGET], gen_c04, 1_000_000, 20_000_000, |c| has(c, CL_CONTENDED) && !has(c, CL_LIN_TOO_LARGE),
            "Random programs of 2-4 threads of element operations on 1-4 elements; non-trivial: the history of some element contains reads and writes of several threads and was searched completely."),
        conc_prop!("C05", &[SWAP, K_ORACLE, K_RACE, K_MEM, K_CRASH, K_LIVELOCK, K_DEADLOCK, BUDGET], gen_c05, 1_000_000, 20_000_000, |c| has(c, CL_CONTENDED) && !has(c, CL_LIN_TOO_LARGE),
            "Random programs of 2-4 threads of swaps on a vec or slice mixed with other element operations; non-trivial: some group of elements connected by swaps is accessed by several threads and its history was searched completely."),
        conc_prop!("C06", &[SEQ, SLICE, K_ORACLE, K_MEM, K_CRASH, K_LIVELOCK, K_DEADLOCK, BUDGET], gen_c06, 1_000_000, 20_000_000, |c| is_seq(c, seq::CL_WRITE) && is_seq(c, seq::CL_MULTI_FRAG),
            "Random single-threaded histories of 2-10 steps over the whole shared API on ten combinations of storage and element type, compared with a list after every step; non-trivial: elements are changed in place and are distributed to three or more fragments."),
        conc_prop!("C07", &[SLICE, SEQ, K_ORACLE, K_MEM, K_CRASH, K_LIVELOCK, K_DEADLOCK, BUDGET], gen_c07, 1_000_000, 20_000_000, |c| is_seq(c, seq::CL_SLICED),
            "Random single-threaded histories where 85% of the operations use a slice (of a slice of a slice) created with random range forms and bounds; non-trivial: some used slice does not span the whole vec."),
        conc_prop!("C12", &[CONV, OWN, K_LEAK, K_ORACLE, K_MEM, K_CRASH, K_LIVELOCK, K_DEADLOCK, BUDGET], gen_c12, 500_000, 8_000_000, |c| is_seq(c, seq::CL_CONV),
            "Random single-threaded histories with clones and conversions in the middle; a third of them is executed on three storages in lockstep; non-trivial: a non-empty vec is cloned or converted."),
        conc_prop!("C17", &[EXCL, SEQ, SLICE, CONV, OWN, ADDR, CAPA, K_LEAK, K_RACE, K_ORACLE, K_MEM, K_CRASH, K_LIVELOCK, K_DEADLOCK, BUDGET], gen_c17, 1_000_000, 20_000_000, |c| is_seq(c, seq::CL_EXCL_LATE) || is_gap(c, gap::CL_EXCL),
            "Random histories which alternate growth (single-threaded, multi-threaded, failing) with clear, reserve_maximum_capacity and conversions; non-trivial: clear or reserve is called on a vec which had grown, or on one with positions which never received a value."),
        conc_prop!("C08", &[OWN, K_LEAK, K_MEM, K_CRASH], gen_c08, 1_000_000, 20_000_000, |_| true,
            "Random programs of 1-3 threads over the whole safe shared API followed by one of the ways to consume or drop the vec, and single-threaded histories with failing growth calls which go on afterwards."),
        conc_prop!("C09", &[ADDR, K_MEM, K_CRASH], gen_c09, 1_000_000, 20_000_000, |c| has(c, CL_GREW) || is_seq(c, seq::CL_GREW) || is_gap(c, gap::CL_GREW),
            "Random programs of 2-4 threads which keep references and pointers to elements while the vec grows, and single-threaded histories with failing growth calls which go on afterwards; non-trivial: the capacity grew while the threads were running (in the latter: after a call had failed)."),
        conc_prop!("C10", &[CAPA, POS, LEN, OWN, K_LEAK, K_ORACLE, K_MEM, K_CRASH, K_LIVELOCK, K_DEADLOCK, BUDGET], gen_c10, 1_000_000, 20_000_000, |c| has(c, CL_OVERFLOW) || is_seq(c, seq::CL_OVERFLOW) || is_gap(c, gap::CL_OVER),
            "Random programs of 2-4 threads which request 90%-250% of the maximum capacity, and single-threaded histories with failing growth calls which go on afterwards; non-trivial: a growth call failed for lack of capacity."),
        conc_prop!("C11", &[PANIC, POS, LEN, OWN, K_LEAK, K_ORACLE, K_RACE, K_MEM, K_CRASH, K_LIVELOCK, K_DEADLOCK, BUDGET], gen_c11, 1_000_000, 20_000_000, |c| has(c, CL_INJECTED) || is_seq(c, seq::CL_INJECTED) || is_gap(c, gap::CL_FAULTS),
            "Random programs of 2-3 threads where one call into user code (closure, iterator, Clone, PartialEq, Debug) panics, and single-threaded histories in which several growth calls and other operations fail by panics, short or wrong iterators, or lack of capacity, and which go on afterwards; non-trivial: the panic was raised (two of them in the latter)."),
        conc_prop!("C13", &[K_LIVELOCK, K_DEADLOCK, BUDGET], gen_c13, 1_000_000, 20_000_000, |c| has(c, CL_STALLED) || has(c, CL_CAS_FAIL),
            "Random programs of 2-4 threads; in 60% one of them is suspended inside user code until all other threads have finished; non-trivial: a thread was suspended, or a compare-exchange failed."),
        conc_prop!("C14", &[BULK, LEN, K_ORACLE, K_RACE, K_MEM, K_CRASH, K_LIVELOCK, K_DEADLOCK, BUDGET], gen_c14, 1_000_000, 20_000_000, |c| has(c, CL_CONTENDED) && !has(c, CL_LIN_TOO_LARGE),
            "Random programs of 2-3 threads of bulk operations on a vec or slice while others write and grow; in addition, single-threaded histories with failing growth calls which go on afterwards; non-trivial: the history of some element contains reads and writes of several threads and was searched completely."),
        conc_prop!("C15", &[RAW, ADDR, K_ORACLE, K_RACE, K_MEM, K_CRASH, K_LIVELOCK, K_DEADLOCK, BUDGET], gen_c15, 1_000_000, 20_000_000, |c| has(c, CL_RAW_OVERLAP),
            "Random programs of 2-4 threads which grow the vec and read it with the unsafe accessors and with locking reads; in addition, single-threaded histories with failing growth calls which go on afterwards; non-trivial: an unsafe read overlaps in time with a growth call of another thread."),
        conc_prop!("C19", &[GROWTH, K_ORACLE, K_MEM, K_CRASH, K_LIVELOCK, K_DEADLOCK, BUDGET], gen_c19, 1_000_000, 20_000_000, |c| has(c, CL_GREW) || is_seq(c, seq::CL_GREW),
            "Random programs of 2-4 threads, and single-threaded histories with exclusive methods and conversions, which grow the vec and observe its capacity; non-trivial: the storage allocated memory after its creation."),
        conc_prop!("C20", &[CALLS, POS, BULK, K_ORACLE, K_MEM, K_CRASH, K_LIVELOCK, K_DEADLOCK, BUDGET], gen_c20, 1_000_000, 20_000_000, |c| has(c, CL_CONTENDED) || is_seq(c, seq::CL_CALLS),
            "Single-threaded histories of operations whose calls of user functions and iterators are recorded, and programs of 2-4 threads which apply functions to the same elements; non-trivial: calls on at least two elements were counted, or an element is accessed by several threads."),
    ]
}
