//! Linearizability of per-element histories (Wing & Gong / Lowe style search with memoisation).
use crate::rt::MAXT;
use std::collections::{HashMap, HashSet};

/// Value of a position which is not pushed yet.
pub const ABSENT: u64 = u64::MAX;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Stamp {
    pub t: u64,
    pub vc: [u32; MAXT],
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    /// the position gets its first value
    Init(u64),
    Read(u64),
    /// comparison of the current value with a constant
    Pred(u64, bool),
    Write(u64),
    /// old value observed and replaced
    Replace(u64, u64),
    Swap,
    EqPair(bool),
}

#[derive(Clone, Debug)]
pub struct Sub {
    pub fiber: usize,
    pub op: usize,
    pub name: &'static str,
    pub loc: usize,
    pub loc2: usize,
    pub act: Act,
    pub inv: Stamp,
    pub ret: Stamp,
    /// may have had no effect
    pub optional: bool,
}

/// Does `a` precede `b`?
pub fn precedes(a: &Stamp, af: usize, b: &Stamp, bf: usize, weak: bool) -> bool {
    if af == bf || !weak {
        a.t < b.t
    } else {
        a.vc[af] <= b.vc[af]
    }
}

pub enum Verdict {
    Ok { components: usize, searched: usize, contended: usize },
    TooLarge,
    Bad(Vec<Sub>),
}

fn find(p: &mut HashMap<usize, usize>, x: usize) -> usize {
    let q = *p.entry(x).or_insert(x);
    if q == x {
        x
    } else {
        let r = find(p, q);
        p.insert(x, r);
        r
    }
}

pub fn check(subs: &[Sub], init: &[u64], weak: bool) -> Verdict {
    let mut par: HashMap<usize, usize> = HashMap::new();
    for s in subs {
        let a = find(&mut par, s.loc);
        if matches!(s.act, Act::Swap | Act::EqPair(_)) {
            let b = find(&mut par, s.loc2);
            par.insert(a, b);
        }
    }
    let mut groups: HashMap<usize, Vec<&Sub>> = HashMap::new();
    for s in subs {
        let r = find(&mut par, s.loc);
        groups.entry(r).or_default().push(s);
    }
    let mut keys: Vec<usize> = groups.keys().copied().collect();
    keys.sort();
    let (mut searched, mut contended) = (0, 0);
    let mut too_large = false;
    for k in &keys {
        let g = &groups[k];
        if g.len() > 120 {
            too_large = true;
            continue;
        }
        match component(g, init, weak, &mut searched) {
            Some(true) => {
                let fibers: HashSet<usize> = g.iter().map(|s| s.fiber).collect();
                let writes = g.iter().any(|s| !matches!(s.act, Act::Read(_) | Act::Pred(..) | Act::EqPair(_) | Act::Init(_)));
                if fibers.len() > 1 && writes {
                    contended += 1;
                }
            }
            Some(false) => return Verdict::Bad(g.iter().map(|s| (*s).clone()).collect()),
            None => too_large = true,
        }
    }
    if too_large {
        return Verdict::TooLarge;
    }
    Verdict::Ok { components: keys.len(), searched, contended }
}

fn component(g: &[&Sub], init: &[u64], weak: bool, searched: &mut usize) -> Option<bool> {
    let n = g.len();
    let mut locs: Vec<usize> = g.iter().flat_map(|s| [s.loc, if matches!(s.act, Act::Swap | Act::EqPair(_)) { s.loc2 } else { s.loc }]).collect();
    locs.sort();
    locs.dedup();
    let li = |l: usize| locs.binary_search(&l).unwrap();
    let state: Vec<u64> = locs.iter().map(|l| init.get(*l).copied().unwrap_or(ABSENT)).collect();
    let mut preds = vec![0u128; n];
    for b in 0..n {
        for a in 0..n {
            if a != b && precedes(&g[a].ret, g[a].fiber, &g[b].inv, g[b].fiber, weak) {
                preds[b] |= 1 << a;
            }
        }
    }
    let full: u128 = if n == 128 { u128::MAX } else { (1 << n) - 1 };
    let mut memo: HashSet<(u128, Vec<u64>)> = HashSet::new();
    let mut stack: Vec<(u128, Vec<u64>)> = vec![(0, state)];
    while let Some((done, st)) = stack.pop() {
        if done == full {
            return Some(true);
        }
        if !memo.insert((done, st.clone())) {
            continue;
        }
        *searched += 1;
        if memo.len() > 200_000 {
            return None;
        }
        // an enabled read which agrees with the state can always be linearised first
        let ready = |i: usize| done >> i & 1 == 0 && preds[i] & !done == 0;
        let pure = (0..n).find(|&i| {
            ready(i) && {
                let s = g[i];
                let cur = st[li(s.loc)];
                match s.act {
                    Act::Read(v) => cur == v,
                    Act::Pred(v, r) => cur != ABSENT && (cur == v) == r,
                    Act::EqPair(r) => {
                        let o = st[li(s.loc2)];
                        cur != ABSENT && o != ABSENT && (cur == o) == r
                    }
                    _ => false,
                }
            }
        });
        if let Some(i) = pure {
            stack.push((done | 1 << i, st));
            continue;
        }
        for i in 0..n {
            if !ready(i) {
                continue;
            }
            let s = g[i];
            let l = li(s.loc);
            let cur = st[l];
            let nd = done | 1 << i;
            let keep = |stack: &mut Vec<(u128, Vec<u64>)>| stack.push((nd, st.clone()));
            let put = |stack: &mut Vec<(u128, Vec<u64>)>, v: u64| {
                let mut x = st.clone();
                x[l] = v;
                stack.push((nd, x));
            };
            if s.optional {
                keep(&mut stack);
            }
            match s.act {
                Act::Init(v) => {
                    if cur == ABSENT {
                        put(&mut stack, v)
                    }
                }
                Act::Write(v) => {
                    if cur != ABSENT {
                        put(&mut stack, v)
                    }
                }
                Act::Replace(o, v) => {
                    if cur == o {
                        put(&mut stack, v)
                    }
                }
                Act::Swap => {
                    let m = li(s.loc2);
                    if cur != ABSENT && st[m] != ABSENT {
                        let mut x = st.clone();
                        x.swap(l, m);
                        stack.push((nd, x));
                    }
                }
                Act::Read(_) | Act::Pred(..) | Act::EqPair(_) => {}
            }
        }
    }
    Some(false)
}
