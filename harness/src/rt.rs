//! Bindings to the deterministic runtime (rt/rt.c).
use std::alloc::{GlobalAlloc, Layout};

pub const MAXT: usize = 8;

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Dec {
    pub f: u32,
    pub k: u32,
    pub v: u32,
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Params {
    pub seed: u64,
    pub policy: u32,
    pub sw_den: u32,
    pub stale_den: u32,
    pub n_pct: u32,
    pub pct_len: u32,
    pub soft_stall: u32,
    pub replay: u32,
    pub race_on: u32,
    pub ll_limit: u64,
    pub budget: u64,
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Stats {
    pub switches: u64,
    pub stale: u64,
    pub contended: u64,
    pub forced: u64,
    pub steps: u64,
    pub checked: u64,
    pub blocks: u64,
    pub stall_wakes: u64,
}

extern "C" {
    pub fn rt_global_init();
    pub fn rt_set_native_mo(mo: i32);
    pub fn rt_set_fail_out(p: *mut u8);
    pub fn rt_fail_size() -> i32;
    pub fn rt_log_size() -> usize;
    pub fn rt_set_log(p: *mut u8);
    fn rt_fail_str(kind: i32, s: *const u8, n: usize) -> !;
    pub fn rt_case_begin(p: *const Params, sw: *const Dec, nsw: usize, st: *const Dec, nst: usize);
    pub fn rt_run(n: i32);
    pub fn rt_cur() -> i32;
    pub fn rt_now() -> u64;
    pub fn rt_get_on() -> i32;
    pub fn rt_set_on(v: i32) -> i32;
    pub fn rt_yield();
    pub fn rt_op_done();
    pub fn rt_op_begin();
    pub fn rt_wait_ops(f: i32, n: u32);
    pub fn rt_stall();
    pub fn rt_vc(out: *mut u32);
    pub fn rt_clk() -> u32;
    pub fn rt_live() -> i64;
    pub fn rt_valid(p: *const u8, n: usize) -> i32;
    pub fn rt_in_arena(p: *const u8) -> i32;
    pub fn rt_stats(s: *mut Stats);
    fn rt_alloc(size: usize, align: usize) -> *mut u8;
    fn rt_free(p: *mut u8, size: usize, align: usize);
    fn rt_realloc(p: *mut u8, old: usize, align: usize, new: usize) -> *mut u8;
}

pub const K_ORACLE: i32 = 1;
pub const K_RACE: i32 = 2;
pub const K_MEM: i32 = 3;
pub const K_LIVELOCK: i32 = 4;
pub const K_DEADLOCK: i32 = 5;
pub const K_LEAK: i32 = 7;
pub const K_INTERNAL: i32 = 9;
pub const K_CRASH: i32 = 20;

struct Alloc;
#[global_allocator]
static GLOBAL: Alloc = Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rt_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        rt_free(p, l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        rt_realloc(p, l.size(), l.align(), n)
    }
}

#[no_mangle]
extern "C" fn rust_panicking() -> i32 {
    std::thread::panicking() as i32
}

/// Terminates the process, reporting a failure of the current case.
pub fn fatal(kind: i32, msg: &str) -> ! {
    unsafe { rt_fail_str(kind, msg.as_ptr(), msg.len()) }
}

struct Restore(i32);
impl Drop for Restore {
    #[inline(always)]
    fn drop(&mut self) {
        unsafe { rt_set_on(self.0) };
    }
}

/// Runs `f` (calls into the crate under test) with instrumentation active.
#[inline(always)]
pub fn on<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(unsafe { rt_set_on(1) });
    f()
}
/// Runs `f` (harness bookkeeping) with instrumentation inactive.
#[inline(always)]
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(unsafe { rt_set_on(0) });
    f()
}
pub fn cur() -> usize {
    unsafe { rt_cur() as usize }
}
pub fn now() -> u64 {
    unsafe { rt_now() }
}
pub fn yield_now() {
    unsafe { rt_yield() }
}
pub fn stats() -> Stats {
    let mut s = Stats::default();
    unsafe { rt_stats(&mut s) };
    s
}
pub fn vc() -> [u32; MAXT] {
    let mut v = [0; MAXT];
    unsafe { rt_vc(v.as_mut_ptr()) };
    v
}

// ------------------------------------------------------------------ fibers

type Body<'a> = &'a (dyn Fn(usize) + 'a);
static mut BODY: Option<Body<'static>> = None;

#[no_mangle]
extern "C" fn rust_fiber_main(idx: i32) {
    #[allow(static_mut_refs)]
    let body = unsafe { BODY.unwrap() };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(idx as usize)));
    if let Err(e) = r {
        unsafe { rt_set_on(0) };
        if e.is::<Injected>() {
            fatal(K_INTERNAL, "panic escaped from a fiber");
        }
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        fatal(K_ORACLE, &format!("a call which must succeed panicked: {m}"));
    }
}

/// Runs `body(1) .. body(n)` as cooperatively scheduled threads and waits for all of them.
pub fn run_fibers(n: usize, body: Body<'_>) {
    unsafe {
        BODY = Some(std::mem::transmute::<Body<'_>, Body<'static>>(body));
        rt_run(n as i32);
        BODY = None;
    }
}

/// Marker payload of injected panics.
pub struct Injected;

pub enum Caught {
    Injected,
    Other(String),
}

/// Runs `f` with instrumentation active, catching panics.
pub fn try_on<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    let was = unsafe { rt_set_on(1) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe { rt_set_on(was) };
    r.map_err(|e| {
        if e.is::<Injected>() {
            Caught::Injected
        } else {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let m2 = off(|| m.as_str().to_owned());
            drop(m);
            Caught::Other(m2)
        }
    })
}
