//! Element types used by the generated cases.  Every type checks its own integrity whenever it is read:
//! torn, uninitialised, freed or already dropped values terminate the case with a memory error.
use crate::rt::{self, fatal, off, K_MEM};
use orx_concurrent_vec::*;
use std::fmt::Debug;

// ------------------------------------------------------------------ user code callbacks

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum Cb {
    Clone = 0,
    Eq = 1,
    Fmt = 2,
    Iter = 3,
    Closure = 4,
    Drop = 5,
    IterLen = 6,
    IntoIter = 7,
    /// between the parts of a write
    Mid = 8,
}
pub const NCB: usize = 9;

/// What happens inside user code: at the `at`-th callback (1-based) with a kind in `mask`, running on `fiber`
/// (0 = any), `action` is taken.
#[derive(Clone, Copy, Default, Debug)]
pub struct Plan {
    pub mask: u32,
    pub fiber: u32,
    pub at: u64,
    pub action: u32,
    pub yields: u32,
}
pub const ACT_NONE: u32 = 0;
pub const ACT_PANIC: u32 = 1;
pub const ACT_STALL: u32 = 2;
/// an iterator passed to a growth method ends although it promised more values
pub const ACT_SHORT: u32 = 3;

struct CbState {
    muted: bool,
    plan: Plan,
    seen: u64,
    fired: u64,
    fired_on: usize,
    counts: [u64; NCB],
    /// called at a callback instead of the plan: kinds, number of the callback, function
    hook: Option<(u32, u64, *mut (dyn FnMut() + 'static))>,
}
static mut CBS: CbState = CbState { muted: false,
    plan: Plan { mask: 0, fiber: 0, at: 0, action: 0, yields: 0 },
    seen: 0,
    fired: 0,
    fired_on: 0,
    counts: [0; NCB],
    hook: None,
};
#[allow(static_mut_refs)]
fn cbs() -> &'static mut CbState {
    unsafe { &mut CBS }
}
pub fn set_plan(p: Plan) {
    let c = cbs();
    c.plan = p;
    c.muted = false;
    c.seen = 0;
    c.fired = 0;
}
/// the plan does not apply to checks made by the harness
pub fn mute(m: bool) {
    cbs().muted = m
}
pub fn plan_fired() -> u64 {
    cbs().fired
}
pub fn plan_action() -> u32 {
    cbs().plan.action
}
/// Has an iterator been ended too early?
pub fn plan_short() -> bool {
    cbs().fired > 0 && cbs().plan.action == ACT_SHORT
}
/// thread whose call into user code was chosen
pub fn plan_fiber() -> usize {
    cbs().fired_on
}
pub fn cb_counts() -> [u64; NCB] {
    cbs().counts
}
/// Runs `f`; meanwhile the `at`-th call (1-based) into user code with a kind in `mask` executes `hook`.
/// Returns whether it was reached.
pub fn with_hook<R>(mask: u32, at: u64, hook: &mut dyn FnMut(), f: impl FnOnce() -> R) -> (R, bool) {
    struct Unset;
    impl Drop for Unset {
        fn drop(&mut self) {
            cbs().hook = None;
        }
    }
    let hook: *mut (dyn FnMut() + '_) = hook;
    cbs().hook = Some((mask, at, unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(hook) }));
    let _u = Unset;
    let r = f();
    let reached = cbs().hook.is_none();
    (r, reached)
}
/// Called by all user code (closures, iterators, clone, eq, ...) which is invoked by the crate under test.
/// Returns true if an iterator has to end here.
pub fn cb(kind: Cb) -> bool {
    if unsafe { rt::rt_get_on() } == 0 {
        return false;
    }
    let hook = off(|| {
        let c = cbs();
        match &mut c.hook {
            Some((mask, at, f)) if *mask & (1 << kind as u32) != 0 => {
                *at -= 1;
                if *at == 0 {
                    let f = *f;
                    c.hook = None;
                    Some(f)
                } else {
                    None
                }
            }
            _ => None,
        }
    });
    if let Some(f) = hook {
        unsafe { (*f)() }
    }
    let act = off(|| {
        let c = cbs();
        c.counts[kind as usize] += 1;
        let p = &c.plan;
        if !c.muted && p.action != ACT_NONE && p.mask & (1 << kind as u32) != 0 && (p.fiber == 0 || p.fiber as usize == rt::cur()) {
            c.seen += 1;
            if c.seen == p.at {
                c.fired += 1;
                c.fired_on = rt::cur();
                return p.action;
            }
        }
        if p.yields & (1 << kind as u32) != 0 {
            return 100;
        }
        0
    });
    match act {
        ACT_PANIC => {
            if !std::thread::panicking() {
                std::panic::resume_unwind(Box::new(rt::Injected))
            }
        }
        ACT_STALL => unsafe { rt::rt_stall() },
        ACT_SHORT => return kind == Cb::Iter,
        100 => rt::yield_now(),
        _ => {}
    }
    false
}

// ------------------------------------------------------------------ registry of tracked instances

pub struct Registry {
    state: Vec<u8>, // 1 alive, 2 dropped
    pub live: i64,
    pub zlive: i64,
    pub created: u64,
}
static mut REG: Registry = Registry { state: Vec::new(), live: 0, zlive: 0, created: 0 };
#[allow(static_mut_refs)]
pub fn reg() -> &'static mut Registry {
    unsafe { &mut REG }
}
pub fn reset_case() {
    off(|| {
        let r = reg();
        r.state.clear();
        r.live = 0;
        r.zlive = 0;
        r.created = 0;
        let c = cbs();
        c.plan = Plan::default();
        c.seen = 0;
        c.fired = 0;
        c.hook = None;
        c.counts = [0; NCB];
    })
}
/// number of values which are created and not dropped yet
pub fn live_values() -> i64 {
    reg().live + reg().zlive
}

// ------------------------------------------------------------------ trait

pub trait Pay: Clone + PartialEq + Debug + Send + Sync + Sized + 'static {
    const NAME: &'static str;
    const TRACKED: bool;
    /// how an identity survives the representation
    fn norm(id: u64) -> u64;
    fn mk(id: u64) -> Self;
    fn id(&self) -> u64;
    fn set(&mut self, id: u64);
    fn fmt_id(id: u64) -> String;
    /// result of comparing the values with these identities
    fn same(a: u64, b: u64) -> bool {
        a == b
    }
    fn copied(e: &ConcurrentElement<Self>) -> Self {
        e.cloned()
    }
    fn vec_get_copied<P: IntoConcurrentPinnedVec<ConcurrentElement<Self>>>(v: &ConcurrentVec<Self, P>, i: usize) -> Option<Self> {
        v.get_cloned(i)
    }
    fn slice_get_copied<P: IntoConcurrentPinnedVec<ConcurrentElement<Self>>>(v: &ConcurrentSlice<Self, P>, i: usize) -> Option<Self> {
        v.get_cloned(i)
    }
}

// ------------------------------------------------------------------ Tr: tracked heap value

const MAGIC: u32 = 0x51ED_C0DE;
pub struct Tr {
    magic: u32,
    inst: u32,
    id: u64,
    bx: Box<u64>,
}
impl Tr {
    fn new(id: u64) -> Self {
        let inst = off(|| {
            let r = reg();
            r.state.push(1);
            r.live += 1;
            r.created += 1;
            (r.state.len() - 1) as u32
        });
        Tr { magic: MAGIC, inst, id, bx: Box::new(!id) }
    }
    fn alive(&self, what: &str) {
        let (m, i) = (self.magic, self.inst);
        if m != MAGIC {
            fatal(K_MEM, &format!("{what} of memory which does not hold an initialised value (magic {m:#x})"));
        }
        let st = off(|| reg().state.get(i as usize).copied().unwrap_or(0));
        if st != 1 {
            fatal(K_MEM, &format!("{what} of a value which is {}", if st == 2 { "already dropped" } else { "never created" }));
        }
    }
}
impl Clone for Tr {
    fn clone(&self) -> Self {
        self.alive("clone");
        let a = self.id;
        cb(Cb::Clone);
        let b = *self.bx;
        if a != !b || self.id != a {
            fatal(K_MEM, &format!("torn value observed while cloning: {a:#x} / {:#x}", !b));
        }
        Tr::new(a)
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            fatal(K_MEM, "drop of memory which does not hold an initialised value");
        }
        let inst = self.inst as usize;
        off(|| {
            let r = reg();
            match r.state.get_mut(inst) {
                Some(s) if *s == 1 => {
                    *s = 2;
                    r.live -= 1;
                }
                Some(_) => fatal(K_MEM, "a value is dropped twice"),
                None => fatal(K_MEM, "a value which was never created is dropped"),
            }
        });
        self.id = !0xDEAD;
        cb(Cb::Drop);
    }
}
impl PartialEq for Tr {
    fn eq(&self, o: &Self) -> bool {
        let (a, b) = (self.rid(), o.rid());
        cb(Cb::Eq);
        if a != self.rid() || b != o.rid() {
            fatal(K_MEM, "a value changes while it is being compared");
        }
        a == b
    }
}
impl Tr {
    fn rid(&self) -> u64 {
        self.alive("read");
        let a = self.id;
        let b = *self.bx;
        if a != !b {
            fatal(K_MEM, &format!("torn value observed: {a:#x} / {:#x}", !b));
        }
        a
    }
}
impl Debug for Tr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let i = self.rid();
        cb(Cb::Fmt);
        write!(f, "v{}", i)
    }
}
impl Pay for Tr {
    const NAME: &'static str = "tracked";
    const TRACKED: bool = true;
    fn norm(id: u64) -> u64 {
        id
    }
    fn mk(id: u64) -> Self {
        Tr::new(id)
    }
    fn id(&self) -> u64 {
        self.rid()
    }
    fn set(&mut self, id: u64) {
        self.alive("update");
        self.id = id;
        cb(Cb::Mid);
        *self.bx = !id;
    }
    fn fmt_id(id: u64) -> String {
        format!("v{id}")
    }
}

// ------------------------------------------------------------------ copyable types

macro_rules! copy_fns {
    () => {
        fn copied(e: &ConcurrentElement<Self>) -> Self {
            e.copied()
        }
        fn vec_get_copied<P: IntoConcurrentPinnedVec<ConcurrentElement<Self>>>(v: &ConcurrentVec<Self, P>, i: usize) -> Option<Self> {
            v.get_copied(i)
        }
        fn slice_get_copied<P: IntoConcurrentPinnedVec<ConcurrentElement<Self>>>(v: &ConcurrentSlice<Self, P>, i: usize) -> Option<Self> {
            v.get_copied(i)
        }
    };
}

#[derive(Clone, Copy)]
pub struct P2(u64, u64);
impl PartialEq for P2 {
    fn eq(&self, o: &Self) -> bool {
        let r = self.id() == o.id();
        cb(Cb::Eq);
        r
    }
}
impl Debug for P2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "p{}", self.id())
    }
}
impl Pay for P2 {
    const NAME: &'static str = "pair";
    const TRACKED: bool = false;
    fn norm(id: u64) -> u64 {
        id
    }
    fn mk(id: u64) -> Self {
        P2(id, !id)
    }
    fn id(&self) -> u64 {
        let (a, b) = (self.0, self.1);
        if a != !b {
            fatal(K_MEM, &format!("torn or uninitialised value observed: {a:#x} / {:#x}", !b));
        }
        a
    }
    fn set(&mut self, id: u64) {
        self.0 = id;
        cb(Cb::Mid);
        self.1 = !id;
    }
    fn fmt_id(id: u64) -> String {
        format!("p{id}")
    }
    copy_fns!();
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct U8(u8);
impl Pay for U8 {
    const NAME: &'static str = "u8";
    const TRACKED: bool = false;
    fn norm(id: u64) -> u64 {
        (id ^ (id >> 20).wrapping_mul(7) ^ (id >> 40).wrapping_mul(31)) & 0xFF
    }
    fn mk(id: u64) -> Self {
        U8(Self::norm(id) as u8)
    }
    fn id(&self) -> u64 {
        self.0 as u64
    }
    fn set(&mut self, id: u64) {
        self.0 = Self::norm(id) as u8;
    }
    fn fmt_id(id: u64) -> String {
        format!("U8({})", Self::norm(id))
    }
    copy_fns!();
}

#[derive(Clone, Copy)]
#[repr(align(64))]
pub struct Big([u64; 9]);
impl PartialEq for Big {
    fn eq(&self, o: &Self) -> bool {
        cb(Cb::Eq);
        self.id() == o.id()
    }
}
impl Debug for Big {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "B{}", self.id())
    }
}
impl Pay for Big {
    const NAME: &'static str = "big";
    const TRACKED: bool = false;
    fn norm(id: u64) -> u64 {
        id
    }
    fn mk(id: u64) -> Self {
        let mut w = [0; 9];
        for (k, x) in w.iter_mut().enumerate() {
            *x = id.rotate_left(k as u32 * 7);
        }
        Big(w)
    }
    fn id(&self) -> u64 {
        if (self as *const Self as usize) % 64 != 0 {
            fatal(K_MEM, "a value is stored at a misaligned address");
        }
        let id = self.0[0];
        for k in 0..9 {
            if self.0[k] != id.rotate_left(k as u32 * 7) {
                fatal(K_MEM, "torn or uninitialised value observed");
            }
        }
        id
    }
    fn set(&mut self, id: u64) {
        let n = Self::mk(id);
        for k in 0..9 {
            self.0[k] = n.0[k];
            if k == 4 {
                cb(Cb::Mid);
            }
        }
    }
    fn fmt_id(id: u64) -> String {
        format!("B{id}")
    }
    copy_fns!();
}

/// zero-sized value; only the number of live values can be tracked
pub struct Z;
impl Z {
    fn born() -> Z {
        off(|| reg().zlive += 1);
        Z
    }
}
impl Clone for Z {
    fn clone(&self) -> Self {
        cb(Cb::Clone);
        Z::born()
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        off(|| {
            let r = reg();
            r.zlive -= 1;
            if r.zlive < 0 {
                fatal(K_MEM, "more values are dropped than created");
            }
        });
    }
}
impl PartialEq for Z {
    fn eq(&self, _: &Self) -> bool {
        cb(Cb::Eq);
        true
    }
}
impl Debug for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Z")
    }
}
impl Pay for Z {
    const NAME: &'static str = "zst";
    const TRACKED: bool = true;
    fn norm(_: u64) -> u64 {
        0
    }
    fn mk(_: u64) -> Self {
        Z::born()
    }
    fn id(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
    fn fmt_id(_: u64) -> String {
        "Z".into()
    }
}

/// some values are not equal to themselves, as f64::NAN
#[derive(Clone, Copy)]
pub struct Nq(u64);
impl PartialEq for Nq {
    fn eq(&self, o: &Self) -> bool {
        cb(Cb::Eq);
        Self::same(self.0, o.0)
    }
}
impl Debug for Nq {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "q{}", self.0)
    }
}
impl Pay for Nq {
    const NAME: &'static str = "irreflexive";
    const TRACKED: bool = false;
    fn norm(id: u64) -> u64 {
        id
    }
    fn mk(id: u64) -> Self {
        Nq(id)
    }
    fn id(&self) -> u64 {
        self.0
    }
    fn set(&mut self, id: u64) {
        self.0 = id;
    }
    fn fmt_id(id: u64) -> String {
        format!("q{id}")
    }
    fn same(a: u64, b: u64) -> bool {
        a == b && a % 5 != 4
    }
    copy_fns!();
}
