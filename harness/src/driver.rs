//! Generates cases in forked worker processes, shrinks the first failure and writes the evidence.
use crate::case::*;
use crate::rt::{self, Dec};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::time::Instant;

pub struct Prop {
    pub id: &'static str,
    /// kinds of failures which contradict this property; cases ending with another kind are abandoned
    pub kinds: &'static [i32],
    pub quick: u64,
    pub thorough: u64,
    pub gen: fn(&mut Rng, bool) -> Case,
    pub run: fn(&Case) -> Outcome,
    pub describe: fn(&Case) -> String,
    pub classes: Vec<&'static str>,
    pub rule: &'static str,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Outcome {
    /// bit set over `Prop::classes`
    pub classes: u64,
    pub nontrivial: bool,
    /// identifies what was executed, including the schedule
    pub hash: u64,
    /// number of comparisons made by the oracle
    pub checks: u64,
}

mod c {
    extern "C" {
        pub fn fork() -> i32;
        pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
        pub fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        pub fn munmap(a: *mut u8, n: usize) -> i32;
        pub fn _exit(c: i32) -> !;
        pub fn kill(pid: i32, sig: i32) -> i32;
        pub fn usleep(us: u32) -> i32;
        pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    }
}
pub fn shared(n: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
    let p = unsafe { c::mmap(std::ptr::null_mut(), n, 3, 0x1 | 0x20 | 0x4000, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p
}

#[repr(C)]
struct FailRec {
    kind: i32,
    msg: [u8; 2000],
}
impl FailRec {
    fn text(&self) -> String {
        let n = self.msg.iter().position(|x| *x == 0).unwrap_or(0);
        String::from_utf8_lossy(&self.msg[..n]).into_owned()
    }
}
#[repr(C)]
struct LogRec {
    n_sw: usize,
    n_st: usize,
    d: [[Dec; 1 << 19]; 2],
}
#[repr(C)]
struct Slot {
    cur: u64,
    beat: u64,
    done: u64,
    checks: u64,
    switches: u64,
    stale: u64,
    contended: u64,
    forced: u64,
    steps: u64,
    accesses: u64,
    stalls: u64,
    finished: u64,
    fail: FailRec,
}

static mut ENABLED: [bool; 256] = [false; 256];
/// Is a failure of this kind a violation of the property under check?
pub fn enabled(kind: i32) -> bool {
    unsafe { ENABLED[kind as usize & 255] }
}
fn muted(kind: i32) -> bool {
    #[allow(static_mut_refs)]
    unsafe {
        ONLY.map(|o| !o.contains(&kind)).unwrap_or(false)
    }
}
/// Reports a disagreement with an oracle, if it belongs to the property under check.
pub fn fail(kind: i32, msg: impl FnOnce() -> String) {
    if enabled(kind) && !muted(kind) {
        rt::off(|| rt::fatal(kind, &msg()))
    }
}
static mut ONLY: Option<&'static [i32]> = None;
/// Restricts the failures which are reported during the rest of the current case.
pub fn only(kinds: Option<&'static [i32]>) {
    unsafe { ONLY = kinds }
}
pub fn set_enabled(kinds: &[i32]) {
    unsafe {
        ENABLED = [false; 256];
        for k in kinds {
            ENABLED[*k as usize & 255] = true;
        }
    }
}

pub fn kind_name(k: i32) -> &'static str {
    match k {
        1 => "oracle",
        2 => "data-race",
        3 => "memory-error",
        4 => "livelock",
        5 => "deadlock",
        6 => "budget",
        7 => "leak",
        9 => "internal",
        20 => "crash",
        101 => "growth-positions",
        102 => "length-visibility",
        104 => "element-linearizability",
        105 => "swap",
        106 => "sequential-model",
        107 => "slice-window",
        108 => "ownership",
        109 => "address",
        110 => "capacity",
        111 => "panic-containment",
        112 => "conversion",
        113 => "progress",
        114 => "bulk",
        115 => "raw-access",
        117 => "exclusive",
        119 => "growth-strategy",
        120 => "user-calls",
        _ => "?",
    }
}

fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8FEB86659FD93));
    r.next() ^ r.next().rotate_left(17)
}
fn prop_key(id: &str) -> u64 {
    id.bytes().fold(7, |h, b| mix(h, b as u64))
}
fn gen_case(p: &Prop, seed: u64, i: u64, thorough: bool) -> Case {
    let mut r = Rng::new(mix(mix(prop_key(p.id), seed), i));
    let mut c = (p.gen)(&mut r, thorough);
    c.prop = p.id.into();
    c.sched[0] = r.next();
    c
}

fn warm_up() {
    std::panic::set_hook(Box::new(|_| {}));
    let _ = std::panic::catch_unwind(|| panic!("warm up {}", 1));
    let _ = rt::try_on(|| std::panic::resume_unwind(Box::new(rt::Injected)));
    let _ = rt::try_on(|| {
        let x: Option<u32> = std::hint::black_box(None);
        x.expect("warm up")
    });
    let _ = rt::try_on(|| std::hint::black_box(vec![1u8; 3]).len());
}

enum Exit {
    Ok,
    Fail,
    Signal(i32),
    Other(i32),
}
fn wait(pid: i32, block: bool) -> Option<Exit> {
    let mut st = 0;
    let r = unsafe { c::waitpid(pid, &mut st, if block { 0 } else { 1 }) };
    if r == 0 {
        return None;
    }
    Some(if st & 0x7f != 0 {
        Exit::Signal(st & 0x7f)
    } else {
        match st >> 8 & 0xff {
            0 => Exit::Ok,
            10 => Exit::Fail,
            x => Exit::Other(x),
        }
    })
}
fn die_with_parent() {
    unsafe { c::prctl(1, 9, 0, 0, 0) };
}

/// A panic which no oracle expects ends the case.
fn guarded(p: &Prop, case: &Case) -> Outcome {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(case))) {
        Ok(o) => o,
        Err(e) => rt::off(|| {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            rt::fatal(rt::K_ORACLE, &format!("a call which must succeed panicked: {m}"))
        }),
    }
}

/// Runs one case in a child process.
struct Single {
    fail: *mut FailRec,
    log: *mut LogRec,
    out: *mut Outcome,
}
pub enum Res {
    Ok(Outcome),
    Fail(i32, String),
    Timeout,
    Error(i32),
}
impl Single {
    fn new() -> Self {
        Single {
            fail: shared(std::mem::size_of::<FailRec>()) as *mut FailRec,
            log: shared(std::mem::size_of::<LogRec>()) as *mut LogRec,
            out: shared(4096) as *mut Outcome,
        }
    }
    fn run(&self, p: &Prop, case: &Case, timeout_s: u64) -> Res {
        unsafe {
            (*self.fail).kind = 0;
            (*self.log).n_sw = 0;
            (*self.log).n_st = 0;
        }
        let pid = unsafe { c::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            die_with_parent();
            unsafe {
                rt::rt_set_fail_out(self.fail as *mut u8);
                rt::rt_set_log(self.log as *mut u8);
                let o = guarded(p, case);
                *self.out = o;
                c::_exit(0);
            }
        }
        let t = Instant::now();
        loop {
            if let Some(e) = wait(pid, false) {
                return match e {
                    Exit::Ok => Res::Ok(unsafe { *self.out }),
                    Exit::Fail => unsafe { Res::Fail((*self.fail).kind, (*self.fail).text()) },
                    Exit::Signal(s) => Res::Fail(rt::K_CRASH, format!("the process is killed by signal {s}")),
                    Exit::Other(x) => Res::Error(x),
                };
            }
            if t.elapsed().as_secs() > timeout_s {
                unsafe { c::kill(pid, 9) };
                wait(pid, true);
                return Res::Timeout;
            }
            unsafe { c::usleep(if t.elapsed().as_millis() < 20 { 100 } else { 2000 }) };
        }
    }
    fn decisions(&self) -> (Vec<Dec>, Vec<Dec>) {
        unsafe {
            let l = &*self.log;
            let mut a = l.d[0][..l.n_sw].to_vec();
            let mut b = l.d[1][..l.n_st].to_vec();
            a.sort();
            b.sort();
            (a, b)
        }
    }
}

fn reproduces(s: &Single, p: &Prop, case: &Case, kind: i32) -> Option<String> {
    match s.run(p, case, 60) {
        Res::Fail(k, m) if k == kind => Some(m),
        _ => None,
    }
}

fn as_replay(s: &Single, case: &Case) -> Case {
    let mut c = case.clone();
    c.replay = true;
    let (a, b) = s.decisions();
    c.sw = a;
    c.st = b;
    c
}

fn shrink(s: &Single, p: &Prop, mut best: Case, kind: i32, mut msg: String) -> (Case, String, u32) {
    let t = Instant::now();
    let mut tries = 0u32;
    let budget = || t.elapsed().as_secs() < 45;
    let mut r = Rng::new(99);
    // accepts `c` if it still fails, possibly with another schedule
    let mut attempt = |c: &Case, reseed: u32, best: &mut Case, msg: &mut String, tries: &mut u32| -> bool {
        *tries += 1;
        if let Some(m) = reproduces(s, p, c, kind) {
            *best = c.clone();
            *msg = m;
            return true;
        }
        for _ in 0..reseed {
            *tries += 1;
            let mut d = c.clone();
            d.replay = false;
            d.sw.clear();
            d.st.clear();
            d.sched[0] = r.next();
            if let Some(m) = reproduces(s, p, &d, kind) {
                let rep = as_replay(s, &d);
                *tries += 1;
                if reproduces(s, p, &rep, kind).is_some() {
                    *best = rep;
                    *msg = m;
                    return true;
                }
            }
        }
        false
    };
    let mut changed = true;
    let mut round = 0;
    while changed && budget() && round < 4 {
        changed = false;
        round += 1;
        // whole threads
        for t in 0..best.threads.len() {
            if !best.threads[t].is_empty() && budget() {
                let mut c = best.clone();
                c.threads[t].clear();
                changed |= attempt(&c, 6, &mut best, &mut msg, &mut tries);
            }
        }
        // operations
        for t in 0..best.threads.len() {
            let mut size = best.threads[t].len() / 2;
            while size >= 1 {
                let mut i = 0;
                while i + size <= best.threads[t].len() && budget() {
                    let mut c = best.clone();
                    c.threads[t].drain(i..i + size);
                    if attempt(&c, if size > 4 { 2 } else { 6 }, &mut best, &mut msg, &mut tries) {
                        changed = true;
                    } else {
                        i += size;
                    }
                }
                size /= 2;
            }
        }
        // arguments
        for t in 0..best.threads.len() {
            for i in 0..best.threads[t].len() {
                for a in 1..5 {
                    let v = best.threads[t][i][a];
                    for n in [0, v / 2, v.saturating_sub(1)] {
                        if n < best.threads[t][i][a] && budget() {
                            let mut c = best.clone();
                            c.threads[t][i][a] = n;
                            if attempt(&c, 0, &mut best, &mut msg, &mut tries) {
                                changed = true;
                                break;
                            }
                        }
                    }
                }
            }
        }
        // sizes
        for i in [crate::conc::C_SCALE, crate::conc::C_OFF, crate::conc::C_QUIET, crate::conc::C_INIT] {
            let v = best.cfg.get(i).copied().unwrap_or(0);
            for n in [0, v / 2, v.saturating_sub(1)] {
                if n < v && budget() {
                    let mut c = best.clone();
                    c.cfg[i] = n;
                    if attempt(&c, 0, &mut best, &mut msg, &mut tries) {
                        changed = true;
                        break;
                    }
                }
            }
        }
        // decisions of the scheduler
        for which in 0..2 {
            let len = |c: &Case| if which == 0 { c.sw.len() } else { c.st.len() };
            let mut size = (len(&best) / 2).max(1);
            while size >= 1 && len(&best) > 0 {
                let mut i = 0;
                while i < len(&best) && budget() {
                    let mut c = best.clone();
                    let v = if which == 0 { &mut c.sw } else { &mut c.st };
                    let e = (i + size).min(v.len());
                    v.drain(i..e);
                    if attempt(&c, 0, &mut best, &mut msg, &mut tries) {
                        changed = true;
                    } else {
                        i += size;
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
    }
    (best, msg, tries)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub cases: Option<u64>,
    pub evidence: Option<String>,
    pub replay_dir: String,
    pub workers: u64,
    pub stall_s: u64,
}

fn worker(p: &Prop, o: &Opts, total: u64, w: u64, from: u64, slot: *mut Slot, log: *mut LogRec, hashes: *mut u64, classes: *mut u64) -> ! {
    die_with_parent();
    unsafe {
        rt::rt_set_fail_out(&mut (*slot).fail as *mut FailRec as *mut u8);
        rt::rt_set_log(log as *mut u8);
        let s = &mut *slot;
        let mut i = from;
        while i < total {
            std::ptr::write_volatile(&mut s.cur, i);
            let case = gen_case(p, o.seed, i, o.thorough);
            let out = guarded(p, &case);
            let st = rt::stats();
            s.checks += out.checks;
            s.switches += st.switches;
            s.stale += st.stale;
            s.contended += st.contended;
            s.forced += st.forced;
            s.steps += st.steps;
            s.accesses += st.checked;
            s.stalls += st.stall_wakes;
            *hashes.add(i as usize) = if out.nontrivial { out.hash | 1 } else { 0 };
            *classes.add(i as usize) = out.classes;
            s.done += 1;
            s.beat += 1;
            i += o.workers;
        }
        let _ = w;
        s.finished = 1;
        c::_exit(0)
    }
}

/// exit code of the check
pub fn check(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    warm_up();
    set_enabled(p.kinds);
    let total = o.cases.unwrap_or(if o.thorough { p.thorough } else { p.quick });
    let nw = o.workers as usize;
    let hashes = shared(total as usize * 8 + 4096) as *mut u64;
    let classes = shared(total as usize * 8 + 4096) as *mut u64;
    let slots: Vec<*mut Slot> = (0..nw).map(|_| shared(std::mem::size_of::<Slot>()) as *mut Slot).collect();
    let logs: Vec<*mut LogRec> = (0..nw).map(|_| shared(std::mem::size_of::<LogRec>()) as *mut LogRec).collect();
    let single = Single::new();
    let mut pids = vec![0i32; nw];
    let mut beats = vec![(0u64, Instant::now()); nw];
    let spawn = |w: usize, from: u64| -> i32 {
        let pid = unsafe { c::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            worker(p, o, total, w as u64, from, slots[w], logs[w], hashes, classes)
        }
        pid
    };
    for w in 0..nw {
        pids[w] = spawn(w, w as u64);
    }
    let mut abandoned: BTreeMap<String, u64> = BTreeMap::new();
    let mut n_abandoned = 0u64;
    let mut found: Option<(Case, i32, String)> = None;
    let mut error: Option<String> = None;
    let kill_all = |pids: &mut Vec<i32>| {
        for x in pids.iter_mut() {
            if *x > 0 {
                unsafe { c::kill(*x, 9) };
                wait(*x, true);
                *x = 0;
            }
        }
    };
    'main: loop {
        let mut alive = false;
        for w in 0..nw {
            if pids[w] == 0 {
                continue;
            }
            alive = true;
            let sp = slots[w];
            let s = unsafe { &mut *sp };
            match wait(pids[w], false) {
                None => {
                    let b = unsafe { std::ptr::read_volatile(&s.beat) };
                    if b != beats[w].0 {
                        beats[w] = (b, Instant::now());
                    } else if beats[w].1.elapsed().as_secs() > o.stall_s {
                        error = Some(format!("no answer for case {} within {} s", s.cur, o.stall_s));
                        break 'main;
                    }
                }
                Some(Exit::Ok) if s.finished == 1 => pids[w] = 0,
                Some(e) => {
                    pids[w] = 0;
                    let i = s.cur;
                    let (kind, msg) = match e {
                        Exit::Fail => (s.fail.kind, s.fail.text()),
                        Exit::Signal(9) => {
                            error = Some(format!("worker was killed while running case {i}"));
                            break 'main;
                        }
                        Exit::Signal(x) => (rt::K_CRASH, format!("the process is killed by signal {x}")),
                        Exit::Ok => (rt::K_INTERNAL, "worker ended unexpectedly".into()),
                        Exit::Other(x) => {
                            error = Some(format!("worker exited with code {x} while running case {i}"));
                            break 'main;
                        }
                    };
                    s.fail.kind = 0;
                    let mut counts = false;
                    if enabled(kind) {
                        // confirm with a fresh process; this also yields the decisions
                        let case = gen_case(p, o.seed, i, o.thorough);
                        match single.run(p, &case, 120) {
                            Res::Fail(k, m) if enabled(k) => {
                                let rep = as_replay(&single, &case);
                                found = Some((rep, k, m));
                                // original (seeded) case as a fall back
                                if reproduces(&single, p, &found.as_ref().unwrap().0, k).is_none() {
                                    found.as_mut().unwrap().0 = case;
                                }
                                counts = true;
                            }
                            _ => {
                                // depends on what the worker did before: replay the whole prefix is not possible
                                *abandoned.entry(format!("unconfirmed {}: {}", kind_name(kind), msg)).or_default() += 1;
                            }
                        }
                    } else {
                        *abandoned.entry(format!("outside of this property: {}", kind_name(kind))).or_default() += 1;
                        if std::env::var("HARNESS_VERBOSE").is_ok() {
                            eprintln!("abandoned case {i}: {} {}", kind_name(kind), msg);
                        }
                    }
                    if counts {
                        break 'main;
                    }
                    n_abandoned += 1;
                    if n_abandoned > 400 {
                        // the crate is broken in a way which hides this property
                        for x in 0..nw {
                            if pids[x] > 0 {
                                unsafe { c::kill(pids[x], 9) };
                                wait(pids[x], true);
                                pids[x] = 0;
                            }
                        }
                        break 'main;
                    }
                    beats[w].1 = Instant::now();
                    if i + o.workers < total {
                        pids[w] = spawn(w, i + o.workers);
                    }
                }
            }
        }
        if !alive {
            break;
        }
        unsafe { c::usleep(1500) };
    }
    kill_all(&mut pids);
    if let Some(e) = error {
        println!("ERROR property={} {}", p.id, e);
        return 2;
    }
    // violation
    let mut violations: Vec<String> = vec![];
    if let Some((case, kind, msg)) = &found {
        let (small, m, tries) = shrink(&single, p, case.clone(), *kind, msg.clone());
        let _ = std::fs::create_dir_all(&o.replay_dir);
        let path = format!("{}/{}.replay", o.replay_dir, p.id);
        let mut text = String::new();
        let _ = writeln!(text, "# {}: {}", kind_name(*kind), m.replace('\n', "\n# "));
        let _ = writeln!(text, "# shrunk with {tries} executions; to reproduce: {} replay {path}", std::env::args().next().unwrap_or_default());
        for l in (p.describe)(&small).lines() {
            let _ = writeln!(text, "#   {l}");
        }
        text += &small.to_text();
        std::fs::write(&path, text).expect("write replay");
        println!("{}: {}", kind_name(*kind), m);
        println!("{}", (p.describe)(&small));
        println!("VIOLATION property={} replay={}", p.id, path);
        violations.push(format!("{}: {} (replay {})", kind_name(*kind), m, path));
    }
    // evidence
    let (mut done, mut checks) = (0, 0);
    let mut sums = [0u64; 7];
    for s in &slots {
        let s = unsafe { &**s };
        done += s.done;
        checks += s.checks;
        for (a, b) in sums.iter_mut().zip([s.switches, s.stale, s.contended, s.forced, s.steps, s.accesses, s.stalls]) {
            *a += b;
        }
    }
    let hs = unsafe { std::slice::from_raw_parts(hashes, total as usize) };
    let cs = unsafe { std::slice::from_raw_parts(classes, total as usize) };
    let distinct: HashSet<u64> = hs.iter().copied().filter(|x| *x != 0).collect();
    let mut samples = vec![];
    let mut seen = HashSet::new();
    for i in 0..total as usize {
        if hs[i] != 0 && seen.insert(cs[i]) {
            samples.push(format!("case {i}: {}", (p.describe)(&gen_case(p, o.seed, i as u64, o.thorough))));
            if samples.len() == 4 {
                break;
            }
        }
    }
    let mut dist = String::new();
    for (b, name) in p.classes.iter().enumerate() {
        let n = cs.iter().filter(|x| **x >> b & 1 == 1).count();
        let _ = write!(dist, "{}{}: {}", if b == 0 { "" } else { ", " }, json_str(name), n);
    }
    let abandoned_txt = abandoned.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ");
    let j = format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": \"exploration\",\n\"coverage\": {{\n\"evaluations\": {},\n\"distinct_nontrivial\": {},\n\"rule\": {},\n\"oracle_comparisons\": {},\n\"context_switches\": {},\n\"stale_reads\": {},\n\"failed_compare_exchanges\": {},\n\"forced_switches\": {},\n\"scheduling_points\": {},\n\"checked_memory_accesses\": {},\n\"stalled_user_calls_resumed\": {},\n\"abandoned\": {{{}}},\n\"class_distribution\": {{{}}},\n\"samples\": [{}]\n}},\n\"violations\": {},\n\"wall_s\": {:.1}\n}}\n",
        json_str(p.id),
        json_str(if o.thorough { "thorough" } else { "quick" }),
        o.seed,
        done,
        distinct.len(),
        json_str(p.rule),
        checks,
        sums[0], sums[1], sums[2], sums[3], sums[4], sums[5], sums[6],
        abandoned_txt,
        dist,
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n"),
        violations.len(),
        t0.elapsed().as_secs_f64()
    );
    if let Some(f) = &o.evidence {
        if let Some(d) = std::path::Path::new(f).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(f, &j).expect("write evidence");
    }
    let ab = if n_abandoned > 0 { format!(", abandoned {n_abandoned} ({abandoned_txt})") } else { String::new() };
    println!(
        "{} seed={} cases={} distinct_nontrivial={} oracle_comparisons={} switches={} wall={:.1}s{}",
        p.id, o.seed, done, distinct.len(), checks, sums[0], t0.elapsed().as_secs_f64(), ab
    );
    unsafe {
        c::munmap(hashes as *mut u8, total as usize * 8 + 4096);
    }
    if found.is_some() {
        1
    } else {
        0
    }
}

/// Runs the case of a replay file; exit code 1 if it fails.
pub fn replay(props: &[Prop], file: &str) -> i32 {
    warm_up();
    let case = Case::from_text(&std::fs::read_to_string(file).expect("replay file"));
    let p = props.iter().find(|p| p.id == case.prop).expect("property of the replay file");
    set_enabled(p.kinds);
    let s = Single::new();
    println!("{}", (p.describe)(&case));
    match s.run(p, &case, 300) {
        Res::Ok(_) => {
            println!("the case passes");
            0
        }
        Res::Fail(k, m) => {
            println!("{}: {}", kind_name(k), m);
            if enabled(k) {
                println!("VIOLATION property={} replay={}", p.id, file);
            }
            1
        }
        Res::Timeout => {
            println!("timeout");
            2
        }
        Res::Error(x) => {
            println!("exit code {x}");
            2
        }
    }
}

/// Runs one generated case in this process (for debugging).
pub fn one(p: &Prop, seed: u64, i: u64, thorough: bool) {
    warm_up();
    set_enabled(p.kinds);
    let case = gen_case(p, seed, i, thorough);
    println!("{}", (p.describe)(&case));
    let s = Single::new();
    match s.run(p, &case, 300) {
        Res::Ok(o) => println!("ok {o:?}"),
        Res::Fail(k, m) => println!("{}: {}", kind_name(k), m),
        Res::Timeout => println!("timeout"),
        Res::Error(x) => println!("exit code {x}"),
    }
}
