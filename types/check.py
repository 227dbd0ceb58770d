#!/usr/bin/env python3
"""Generated programs judged by the compiler.

C16: random element types; the thread-safety (Send / Sync) of the types of the crate, as seen by rustc, is compared
     with what follows structurally from the thread-safety of the element type.
C18: random straight-line programs which obtain references, slices and iterators and use them after an exclusive or
     consuming call; rustc must reject exactly those where something borrowed is used too late.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("REPO_DIR", "/repo")
TARGET = os.environ.get("CARGO_TARGET_DIR", os.path.join(VERIF, "target"))

CARGO = """[package]
name = "gen-{name}"
version = "0.0.0"
edition = "2021"
[dependencies]
orx-concurrent-vec = {{ path = "{repo}" }}
orx-fixed-vec = "3.10"
orx-split-vec = "3.10"
orx-pinned-vec = "3.10"
[workspace]
[profile.dev]
debug = 0
opt-level = 0
"""


def die(msg):
    print(f"ERROR {msg}")
    sys.exit(2)


def project(name):
    d = os.path.join(TARGET, "gen", name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(CARGO.format(name=name, repo=REPO))
    shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return d


def cargo(d, cmd, env=None):
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, "types"), RUSTFLAGS="-Awarnings")
    e.pop("RUSTC_WRAPPER", None)
    if env:
        e.update(env)
    subprocess.run(["bash", os.path.join(VERIF, "tools", "fresh.sh"), os.path.join(TARGET, "types"), REPO], check=True)
    return subprocess.run(["cargo", "+stable", *cmd, "--offline", "--message-format=json"], cwd=d, env=e, capture_output=True, text=True, timeout=700)


# ------------------------------------------------------------------------------------------------ C16

LEAVES = [
    ("i32", True, True), ("String", True, True), ("()", True, True), ("std::rc::Rc<i32>", False, False), ("*const u8", False, False),
    ("std::sync::MutexGuard<'static, i32>", False, True), ("std::sync::atomic::AtomicU8", True, True), ("fn(i32) -> i32", True, True),
    ("Box<dyn Fn()>", False, False), ("Box<dyn Fn() + Send>", True, False), ("Box<dyn Fn() + Sync>", False, True), ("Box<dyn Fn() + Send + Sync>", True, True),
    ("std::sync::mpsc::Sender<u8>", True, True), ("std::sync::mpsc::Receiver<u8>", True, False), ("std::cell::Cell<u8>", True, False),
]


def wrap(rng, t):
    """a type built from t = (text, send, sync)"""
    x, s, y = t
    k = rng.randrange(14)
    if k == 0: return (f"std::cell::Cell<{x}>", s, False)
    if k == 1: return (f"std::cell::RefCell<{x}>", s, False)
    if k == 2: return (f"std::sync::Mutex<{x}>", s, s)
    if k == 3: return (f"std::sync::RwLock<{x}>", s, s and y)
    if k == 4: return (f"std::sync::Arc<{x}>", s and y, s and y)
    if k == 5: return (f"std::rc::Rc<{x}>", False, False)
    if k == 6: return (f"&'static {x}" if not x.startswith("fn") and "+" not in x else f"&'static ({x})", y, y)
    if k == 7: return (f"Option<{x}>", s, y)
    if k == 8: return (f"Vec<{x}>", s, y)
    if k == 9: return (f"[{x}; 2]", s, y)
    if k == 10: return (f"std::marker::PhantomData<{x}>", s, y)
    if k == 11: return (f"&'static mut ({x})", s, y)
    if k == 12: return (f"std::sync::OnceLock<{x}>", s, s and y)
    return (f"Box<{x}>", s, y)


def gen_types(rng, n):
    seen, out = {}, []

    def add(t):
        if t[0] not in seen:
            seen[t[0]] = t
            out.append(t)

    for l in LEAVES:
        add(l)
    while len(out) < n:
        t = rng.choice(LEAVES) if rng.random() < 0.6 else rng.choice(out)
        d = rng.randrange(1, 4)
        for _ in range(d):
            if rng.random() < 0.2:
                u = rng.choice(out)
                if len(u[0]) + len(t[0]) < 200:
                    t = (f"({t[0]}, {u[0]})", t[1] and u[1], t[2] and u[2])
            elif len(t[0]) < 250:
                t = wrap(rng, t)
            add(t)
    return out


PINS = {
    "doubling": "orx_split_vec::SplitVec<ConcurrentElement<{t}>, orx_split_vec::Doubling>",
    "linear": "orx_split_vec::SplitVec<ConcurrentElement<{t}>, orx_split_vec::Linear>",
    "fixed": "orx_fixed_vec::FixedVec<ConcurrentElement<{t}>>",
}
# name, type or closure, expectation of Send and Sync as functions of those of T: "=" exact, "<" at most
SUBJECTS = [
    ("ConcurrentElement<T>", "ty", "ConcurrentElement<{t}>", "="),
    ("ConcurrentVec<T> ({p})", "ty", "ConcurrentVec<{t}, {pin}>", "="),
    ("&ConcurrentVec<T> ({p})", "ty", "&'static ConcurrentVec<{t}, {pin}>", "shared="),
    ("&ConcurrentElement<T>", "ty", "&'static ConcurrentElement<{t}>", "shared="),
    ("ConcurrentSlice<T> ({p})", "ty", "ConcurrentSlice<'static, {t}, {pin}>", "shared="),
    ("the iterator of ConcurrentVec<T> by value ({p})", "fn", "|v: ConcurrentVec<{t}, {pin}>| v.into_iter()", "own<"),
    ("the iterator of ConcurrentVec::<T>::iter ({p})", "fn", "|v: &'static ConcurrentVec<{t}, {pin}>| v.iter()", "shared<"),
    ("the iterator of ConcurrentVec::<T>::iter_ref ({p})", "fn", "|v: &'static ConcurrentVec<{t}, {pin}>| unsafe {{ v.iter_ref() }}", "ref<"),
    ("the iterator of ConcurrentVec::<T>::iter_mut ({p})", "fn", "|v: &'static ConcurrentVec<{t}, {pin}>| unsafe {{ v.iter_mut() }}", "own<"),
    ("the iterator of ConcurrentVec::<T>::chunks ({p})", "fn", "|v: &'static ConcurrentVec<{t}, {pin}>| v.chunks(2)", "shared<"),
    ("the iterator of ConcurrentSlice::<T>::iter ({p})", "fn", "|v: &'static ConcurrentSlice<'static, {t}, {pin}>| v.iter()", "shared<"),
    ("the iterator of ConcurrentVec::<T>::filter ({p})", "fn", "|v: &'static ConcurrentVec<{t}, {pin}>| v.filter(|_| true)", "shared<"),
    ("the iterator of ConcurrentVec::<T>::map ({p})", "fn", "|v: &'static ConcurrentVec<{t}, {pin}>| v.map(|_| 0)", "shared<"),
]


def expect(how, s, y):
    if how == "=": return (s, s and y, True)
    if how == "shared=": return (s and y, s and y, True)
    if how == "shared<": return (s and y, s and y, False)
    if how == "own<": return (s, y, False)
    if how == "ref<": return (y, y, False)


PROBE = """#![allow(warnings)]
use orx_concurrent_vec::*;
use std::marker::PhantomData;
// the inherent methods apply if the bound holds, otherwise those of the traits are found
struct Yes;
struct No;
struct SendProbe<T: ?Sized>(PhantomData<T>);
struct SyncProbe<T: ?Sized>(PhantomData<T>);
trait NoSend { fn get(&self) -> No { No } }
trait NoSync { fn get(&self) -> No { No } }
impl<T: ?Sized> NoSend for SendProbe<T> {}
impl<T: ?Sized> NoSync for SyncProbe<T> {}
impl<T: ?Sized + Send> SendProbe<T> { fn get(&self) -> Yes { Yes } }
impl<T: ?Sized + Sync> SyncProbe<T> { fn get(&self) -> Yes { Yes } }
fn out_send<A, R>(_: fn(A) -> R) -> SendProbe<R> { SendProbe(PhantomData) }
fn out_sync<A, R>(_: fn(A) -> R) -> SyncProbe<R> { SyncProbe(PhantomData) }
"""


def probe_line(kind, text, what, exp):
    e = "Yes" if exp else "No"
    if kind == "ty":
        return f"    let _: {e} = {what}Probe::<{text}>(PhantomData).get();"
    return f"    let _: {e} = out_{what.lower()}({text}).get();"


def run_c16(seed, tier):
    rng = random.Random(seed * 7919 + 16)
    n = 500 if tier == "quick" else 2500
    types = gen_types(rng, n)
    cases = []
    for t in types:
        # the type itself checks the table of the generator
        cases.append(("T itself", t, "ty", t[0], (t[1], t[2], True), "-"))
        for name, kind, text, how in SUBJECTS:
            pins = list(PINS) if "{pin}" in text else ["-"]
            if kind == "fn" and tier == "quick":
                pins = [rng.choice(pins)]
            for p in pins:
                pin = PINS.get(p, "").format(t=t[0])
                cases.append((name.format(p=p), t, kind, text.format(t=t[0], pin=pin), expect(how, t[1], t[2]), p))
    d = project("sendsync")
    shutil.rmtree(os.path.join(d, "src"))
    os.makedirs(os.path.join(d, "src", "bin"))
    # one expectation per line; several crates, which are compiled in parallel
    NB, CH = 8, 40
    where, checks = {}, 0
    for nb in range(NB):
        body = PROBE.split("\n")
        mine = range(nb, len(cases), NB)
        for k, i in enumerate(mine):
            if k % CH == 0:
                body.append(("}\n" if k else "") + f"fn part{k // CH}() {{")
                body = "\n".join(body).split("\n")
            name, t, kind, text, (es, ey, exact), p = cases[i]
            for what, exp in (("Send", es), ("Sync", ey)):
                if exact or not exp:
                    body.append(probe_line(kind, text, what, exp))
                    where[(f"src/bin/p{nb}.rs", len(body))] = (i, what, exp)
                    checks += 1
        body.append("}\nfn main() {}")
        with open(os.path.join(d, "src", "bin", f"p{nb}.rs"), "w") as f:
            f.write("\n".join(body))
    r = cargo(d, ["check", "--keep-going"])
    bad, other = [], []
    for l in r.stdout.splitlines():
        m = json.loads(l) if l.startswith("{") else {}
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        m = m["message"]
        sp = [x for x in m["spans"] if x["is_primary"]]
        if not sp:
            if not (m["message"].startswith("aborting due to") or "could not compile" in m["message"]):
                other.append(m["rendered"])
            continue
        w = where.get((sp[0]["file_name"], sp[0]["line_start"]))
        if w is None or (m.get("code") or {}).get("code") != "E0308":
            other.append(m["rendered"])
            continue
        i, what, exp = w
        name, t, kind, text, _, p = cases[i]
        if name == "T itself":
            die(f"property=C16 the generator is wrong about {t}: {m['rendered']}")
        bad.append((len(t[0]), f"{name} is {'not ' if exp else ''}{what} for T = {t[0]}, which is {'' if t[1] else 'not '}Send and {'' if t[2] else 'not '}Sync", text, kind, what, exp))
    if other or (r.returncode != 0 and not bad):
        die("property=C16 the generated program does not compile: " + ("\n".join(other) or r.stderr)[:1500])
    nontriv = {(c[0], c[1][0]) for c in cases if c[0] != "T itself" and not (c[1][1] and c[1][2])}
    samples = [f"{c[0]}, T = {c[1][0]}: Send {c[4][0]}, Sync {c[4][1]}{'' if c[2] == 'ty' else ' at most'}" for c in rng.sample([c for c in cases if c[0] != "T itself"], 6)]
    cov = {
        "evaluations": len(cases), "distinct_nontrivial": len(nontriv),
        "rule": "Random element types built from 15 leaves and 15 constructors with known Send and Sync, each put into 13 types of the crate on three storages and compiled by rustc; non-trivial: the element type is not both Send and Sync.",
        "element_types": len(types), "comparisons": checks, "samples": samples,
    }
    viol = []
    if bad:
        bad.sort()
        _, msg, text, kind, what, exp = bad[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "C16.rs")
        with open(path, "w") as f:
            f.write(f"// {msg}\n// this program must compile\n" + PROBE + "fn main() {\n" + probe_line(kind, text, what, exp) + "\n}\n")
        print(msg)
        print(f"VIOLATION property=C16 replay={path}")
        viol = [msg]
    return cov, viol


# ------------------------------------------------------------------------------------------------ C18

# handles: (name, expression over the vec `v`, use expression over the handle `{h}`)
# nested handles start from another handle of the given kind
HANDLES = {
    "elem_get": ("v.get(0).unwrap()", "elem"),
    "elem_index": ("&v[0]", "elem"),
    "slice": ("v.slice(0..1)", "slice"),
    "slice_full": ("v.slice(..)", "slice"),
    "as_slice": ("v.as_slice()", "slice"),
    "split_at": ("v.split_at(1).0", "slice"),
    "split_at_b": ("v.split_at(1).1", "slice"),
    "split_first": ("v.split_first().unwrap().0", "elem"),
    "split_first_b": ("v.split_first().unwrap().1", "slice"),
    "split_last": ("v.split_last().unwrap().0", "elem"),
    "split_last_b": ("v.split_last().unwrap().1", "slice"),
    "chunk": ("v.chunks(1).next().unwrap()", "slice"),
    "chunks": ("v.chunks(1)", "iter"),
    "iter": ("v.iter()", "iter"),
    "iter_next": ("v.iter().next().unwrap()", "elem"),
    "iter_cloned": ("v.iter_cloned()", "iter"),
    "map": ("v.map(|x| x.len())", "iter"),
    "filter": ("v.filter(|x| x.len() > 0)", "iter"),
    "filter_next": ("v.filter(|x| x.len() > 0).next().unwrap()", "elem"),
    "get_ref": ("unsafe { v.get_ref(0) }.unwrap()", "ref"),
    "get_mut": ("unsafe { v.get_mut(0) }.unwrap()", "ref"),
    "iter_ref": ("unsafe { v.iter_ref() }", "iter"),
    "iter_mut": ("unsafe { v.iter_mut() }", "iter"),
    "iter_ref_next": ("unsafe { v.iter_ref() }.next().unwrap()", "ref"),
    "iter_mut_next": ("unsafe { v.iter_mut() }.next().unwrap()", "ref"),
}
FROM_SLICE = {
    "get": ("{s}.get(0).unwrap()", "elem"),
    "index": ("&{s}[0]", "elem"),
    "slice": ("{s}.slice(0..1)", "slice"),
    "split": ("{s}.split_at(0).1", "slice"),
    "split_first": ("{s}.split_first().unwrap().0", "elem"),
    "split_last_b": ("{s}.split_last().unwrap().1", "slice"),
    "chunk": ("{s}.chunks(1).next().unwrap()", "slice"),
    "iter": ("{s}.iter()", "iter"),
    "iter_next": ("{s}.iter().next().unwrap()", "elem"),
    "iter_cloned": ("{s}.iter_cloned()", "iter"),
    "filter": ("{s}.filter(|x| x.len() > 0)", "iter"),
    "map": ("{s}.map(|x| x.len())", "iter"),
    "get_ref": ("unsafe {{ {s}.get_ref(0) }}.unwrap()", "ref"),
    "get_mut": ("unsafe {{ {s}.get_mut(0) }}.unwrap()", "ref"),
    "iter_ref": ("unsafe {{ {s}.iter_ref() }}", "iter"),
    "iter_mut": ("unsafe {{ {s}.iter_mut() }}", "iter"),
}
USES = {
    "elem": ["{h}.set(String::new());", "let _ = {h}.cloned();", "let _ = {h}.map(|x| x.len());", "let _ = *{h} == *{h};"],
    "slice": ["let _ = {h}.len();", "let _ = {h}.get(0).is_some();", "let _ = {h}.swap(0, 0);", "{h}.fill(String::new());", "let _ = {h}.clone_to_vec();", "let _ = {h}.index_of(&String::new());"],
    "iter": ["let _ = {h}.next();", "let _ = {h}.count();", "drop({h});"],
    "ref": ["let _ = {h}.len();", "drop({h}.clone());"],
}
SHARED = ["v.push(String::new());", "let _ = v.len();", "v.extend([String::new()]);", "let _ = v.swap(0, 1);", "let _ = v.get_cloned(0);", "v.fill(String::new());", "let _ = v.capacity();", "let _ = v.clone_to_vec();",
          "let _ = v.iter().count();", "let _ = v.push_for_idx(|_| String::new());", "let _ = v.fold(0, |a, x| a + x.len());"]
# statement, does it end the life of `v`
EXCLUSIVE = [("v.clear();", False), ("v.reserve_maximum_capacity(100);", False), ("drop(v.into_inner());", True), ("drop(v.to_vec());", True), ("drop(v.into_iter());", True), ("drop(v);", True), ("let w = v; drop(w);", True),
             ("v = new_vec();", False), ("for x in v { drop(x); }", True), ("std::thread::spawn(move || v.len()).join().unwrap();", True)]
STORES = [("orx_split_vec::SplitVec<ConcurrentElement<String>, orx_split_vec::Doubling>", "ConcurrentVec::with_doubling_growth()"),
          ("orx_split_vec::SplitVec<ConcurrentElement<String>, orx_split_vec::Linear>", "ConcurrentVec::with_linear_growth(4, 4)"),
          ("orx_fixed_vec::FixedVec<ConcurrentElement<String>>", "ConcurrentVec::with_fixed_capacity(40)")]
# references given to user functions must not escape: rejected on their own
ESCAPES = [
    "let r: &String = v[0].map(|x| x); let _ = r.len();",
    "let mut k: Option<&String> = None; v[0].update(|x| k = Some(x)); let _ = k;",
    "let mut k: Option<&String> = None; let _ = v.fold(0, |a, x| { k = Some(x); a }); let _ = k;",
    "let mut k: Vec<&String> = vec![]; v.map(|x| k.push(x)).count(); let _ = k.len();",
    "let mut k: Vec<&String> = vec![]; v.filter(|x| { k.push(x); true }).count(); let _ = k.len();",
    "let mut k: Option<&String> = None; let _ = v.reduce(|x, y| { k = Some(y); x.clone() }); let _ = k;",
    "let r: Vec<&String> = v.map(|x| x).collect(); let _ = r.len();",
    "let s = v.as_slice(); let r: &String = s[0].map(|x| x); let _ = r.len();",
    "let s = v.as_slice(); let mut k: Option<&String> = None; let _ = s.fold(0, |a, x| { k = Some(x); a }); let _ = k;",
    "let s = v.as_slice(); let mut k: Vec<&String> = vec![]; s.map(|x| k.push(x)).count(); let _ = k.len();",
    "let s = v.as_slice(); let mut k: Vec<&String> = vec![]; s.filter(|x| { k.push(x); true }).count(); let _ = k.len();",
    "let s = v.as_slice(); let mut k: Option<&String> = None; let _ = s.reduce(|x, y| { k = Some(y); x.clone() }); let _ = k;",
    # values borrowed by the vec must live as long as its last use
    "let w: ConcurrentVec<&String> = ConcurrentVec::new(); { let s = String::new(); w.push(&s); } let _ = w.len();",
    "let w: ConcurrentVec<&String> = ConcurrentVec::new(); w.push(&String::new()); let s = String::from(\"a\"); w.extend([&s]); drop(s); let _ = w.len();",
    "let w: ConcurrentVec<&String> = [&String::new()].into_iter().collect(); let _ = w.len();",
    "let w = { let u = new_vec(); u.slice(..) }; let _ = w.len();",
    "let w = { let u = new_vec(); u.iter() }; let _ = w.count();",
    "let w = { let u = new_vec(); &u[0] }; let _ = w.cloned();",
    # exclusive methods need exclusive access
    "let r = &v; r.clear();",
    "let r = &v; r.reserve_maximum_capacity(9);",
    "let r = &v; drop((*r).to_vec());",
    "let r = &v; drop((*r).into_inner());",
    "let r = &v; for x in *r { drop(x); }",
]


# types of values which mention the lifetime {a}, and types around one
LIFE = ["&{a} str", "&{a} u8", "&{a} mut u8", "fn(&{a} u8)", "fn() -> &{a} u8", "Box<dyn Fn() + Send + {a}>", "std::borrow::Cow<{a}, str>", "std::cell::Cell<&{a} u8>", "std::slice::Iter<{a}, u8>"]
PLAIN = ["String", "u8", "fn(u8) -> String", "Vec<u64>", "&'static str", "std::sync::Arc<u8>", "Box<dyn Fn() + Send>"]
AROUND = ["Vec<{t}>", "Option<{t}>", "Box<{t}>", "({t}, String)", "[{t}; 3]", "std::sync::Mutex<{t}>", "std::marker::PhantomData<{t}>", "std::sync::Arc<{t}>", "Result<u8, {t}>", "fn({t})", "fn() -> {t}"]
HOLDERS = ["ConcurrentVec<{t}, {pin}>", "&{o} ConcurrentVec<{t}, {pin}>", "ConcurrentElement<{t}>", "&{o} ConcurrentElement<{t}>", "ConcurrentSlice<{o}, {t}, {pin}>", "&{o} ConcurrentSlice<{o}, {t}, {pin}>", "Box<ConcurrentVec<{t}, {pin}>>", "&{o} [ConcurrentElement<{t}>]"]


def gen_variance(rng, store):
    """a function which replaces the lifetime within the type of the values: never allowed, since values can be moved in and out by a
    shared reference; a function which shortens the lifetime of the borrow only: always allowed"""
    pin = list(PINS.values())[store]
    life = rng.random() < 0.7
    t = rng.choice(LIFE if life else PLAIN)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        t = rng.choice(AROUND).replace("{t}", t)
    holder = rng.choice(HOLDERS)

    def ty(life, outer):
        x = t.replace("{a}", life)
        return holder.replace("{pin}", pin.replace("{t}", x)).replace("{t}", x).replace("{o}", outer)

    change = rng.random() < 0.6
    if change:
        a, b = ("'l", "'s") if rng.random() < 0.6 else ("'s", "'l")
        o = "'s"
        src, dst = ty(a, o), ty(b, o)
    else:
        src, dst = ty("'l", "'l"), ty("'l", "'s")
    return Prog(store, [("var", f"fn f<'s, 'l: 's>(x: {src}) -> {dst} {{ x }}", life and change)])


def consumes(use):
    return "count()" in use or use == "drop({h});"


class Prog:
    """statements: ('h', id, kind, parent, key) ('use', id, text) ('shared', text) ('excl', k) ('escape', k)"""

    def __init__(self, store, stmts):
        self.store, self.stmts = store, stmts

    def lines(self):
        out = []
        for s in self.stmts:
            if s[0] == "h":
                _, i, kind, parent, key = s
                e = HANDLES[key][0] if parent is None else FROM_SLICE[key][0].format(s=f"h{parent}")
                out.append(f"let mut h{i} = {e};")
            elif s[0] == "use":
                out.append(s[2].format(h=f"h{s[1]}"))
            elif s[0] == "shared":
                out.append(s[1])
            elif s[0] == "excl":
                out.append(EXCLUSIVE[s[1]][0])
            elif s[0] == "var":
                out.append(s[1])
            else:
                out.append(ESCAPES[s[1]])
        return out

    def ok(self):
        """well-formed: nothing uses a moved vec, or a handle which does not exist or was consumed"""
        have, dead, gone = {}, False, set()
        for s in self.stmts:
            if s[0] == "h":
                if s[3] is None and dead:
                    return False
                if s[3] is not None and s[3] not in have:
                    return False
                have[s[1]] = s
            elif s[0] == "use":
                if s[1] not in have or s[1] in gone:
                    return False
                if consumes(s[2]):
                    gone.add(s[1])
            elif s[0] in ("shared", "excl", "escape"):
                if dead:
                    return False
                if s[0] == "excl":
                    dead = EXCLUSIVE[s[1]][1]
        # handles made of a handle: the slice itself is only borrowed
        return True

    def must_fail(self):
        """a handle made before an exclusive statement is used after it; None: not specified"""
        born, last, iters, open_ = {}, -1, set(), False
        for k, s in enumerate(self.stmts):
            if s[0] == "escape":
                return True
            if s[0] == "var":
                return s[2]
            if s[0] == "excl":
                last = k
                # the opaque types of iterators may or may not have something to drop at the end
                open_ |= bool(iters)
            if s[0] == "use" and consumes(s[2]):
                iters.discard(s[1])
            if s[0] == "h":
                if s[2] == "iter":
                    iters.add(s[1])
                if s[3] is None:
                    born[s[1]] = k
                else:
                    if born[s[3]] < last:
                        return True
                    born[s[1]] = born[s[3]]
            if s[0] == "use" and born[s[1]] < last:
                return True
        return None if open_ else False


def gen_prog(rng):
    store = rng.randrange(3)
    if rng.random() < 0.2:
        return gen_variance(rng, store)
    if rng.random() < 0.12:
        return Prog(store, [("shared", rng.choice(SHARED))] * rng.randrange(2) + [("escape", rng.randrange(len(ESCAPES)))])
    while True:
        st, n, kinds, dead = [], 0, {}, False
        slices = []
        used = set()
        for _ in range(rng.randrange(2, 8)):
            x = rng.random()
            if x < 0.35 and not (dead and not slices):
                if slices and rng.random() < 0.35 or dead:
                    p = rng.choice(slices)
                    key = rng.choice(list(FROM_SLICE))
                    kind = FROM_SLICE[key][1]
                else:
                    p, key = None, rng.choice(list(HANDLES))
                    kind = HANDLES[key][1]
                st.append(("h", n, kind, p, key))
                kinds[n] = kind
                if kind == "slice":
                    slices.append(n)
                n += 1
            elif x < 0.65 and kinds:
                h = rng.choice(list(kinds))
                u = rng.choice(USES[kinds[h]])
                st.append(("use", h, u))
            elif x < 0.8:
                st.append(("shared", rng.choice(SHARED)))
            else:
                k = rng.randrange(len(EXCLUSIVE))
                st.append(("excl", k))
                dead |= EXCLUSIVE[k][1]
        p = Prog(store, st)
        if p.ok() and any(s[0] == "h" for s in st):
            return p


BORROW = {"E0499", "E0502", "E0503", "E0505", "E0506", "E0597", "E0521", "E0716", "E0515", "E0373", "E0713", "E0596", "E0507", "E0382"}


def compile_progs(progs):
    """which of the programs are rejected, with their messages"""
    d = project("borrow")
    src = ["#![allow(warnings)]", "use orx_concurrent_vec::*;"]
    where = []
    for i, p in enumerate(progs):
        ty, new = STORES[p.store]
        ls = p.lines()
        src.append(f"fn p{i}() {{ fn new_vec() -> ConcurrentVec<String, {ty}> {{ {new} }} let mut v = new_vec(); v.extend([String::new(), String::new()]);")
        a = len(src)
        src += ["    " + l for l in ls]
        src.append("}")
        where.append((a, len(src)))
    src.append("fn main() {}")
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write("\n".join(src) + "\n")
    r = cargo(d, ["check"])
    rejected = {}
    for l in r.stdout.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        m = m["message"]
        code = (m.get("code") or {}).get("code")
        sp = [s for s in m["spans"] if s["is_primary"]]
        if not sp:
            if m["message"].startswith("aborting due to") or "could not compile" in m["message"]:
                continue
            die(f"property=C18 unexpected compiler message: {m['message']}")
        if code is not None and code not in BORROW:
            die(f"property=C18 a generated program does not compile for another reason: {m['rendered']}")
        line = sp[0]["line_start"]
        i = next((i for i, (a, b) in enumerate(where) if a <= line <= b), None)
        if i is None:
            die(f"property=C18 compiler message outside of the generated programs: {m['rendered']}")
        rejected.setdefault(i, m["message"])
    if r.returncode != 0 and not rejected:
        die("property=C18 cargo check failed: " + r.stderr[-1500:])
    return rejected


def text_of(p):
    return "\n".join(p.lines())


def shrink_prog(p, fails):
    """greedy removal of statements and exclusive calls; all candidates of a round are compiled together"""
    for _ in range(6):
        cands = []
        for k in range(len(p.stmts)):
            q = Prog(p.store, p.stmts[:k] + p.stmts[k + 1:])
            if q.stmts and q.ok() and q.must_fail() == fails:
                cands.append(q)
        if not cands:
            break
        rej = compile_progs(cands)
        good = [q for i, q in enumerate(cands) if (i in rej) != fails]
        if not good:
            break
        p = min(good, key=lambda q: len(q.stmts))
    return p


def run_c18(seed, tier):
    rng = random.Random(seed * 104729 + 18)
    n = 2500 if tier == "quick" else 15000
    progs, seen = [], set()
    # every handle with every exclusive statement once, and every escape
    for store in range(3):
        for key in HANDLES:
            for k in range(len(EXCLUSIVE)):
                kind = HANDLES[key][1]
                progs.append(Prog(store, [("h", 0, kind, None, key), ("excl", k), ("use", 0, rng.choice(USES[kind]))]))
        for k in range(len(ESCAPES)):
            progs.append(Prog(store, [("escape", k)]))
        for key in FROM_SLICE:
            kind = FROM_SLICE[key][1]
            progs.append(Prog(store, [("h", 0, "slice", None, "slice_full"), ("h", 1, kind, 0, key), ("excl", rng.randrange(len(EXCLUSIVE))), ("use", 1, rng.choice(USES[kind]))]))
    while len(progs) < n:
        progs.append(gen_prog(rng))
    uniq = []
    for p in progs:
        t = (p.store, text_of(p))
        if t not in seen:
            seen.add(t)
            uniq.append(p)
    progs = uniq
    rejected, n_ok, bad = {}, 0, []
    B = 3000
    for b in range(0, len(progs), B):
        part = progs[b:b + B]
        for i, m in compile_progs(part).items():
            rejected[b + i] = m
    nontriv = sum(p.must_fail() is True for p in progs)
    for i, p in enumerate(progs):
        if p.must_fail() is not None and (i in rejected) != p.must_fail():
            bad.append((i not in rejected, len(p.stmts), i))
    samples = [f"{'rejected' if i in rejected else 'accepted'}: " + text_of(progs[i]).replace("\n", " ") for i in sorted(rng.sample(range(len(progs)), 6))]
    cov = {
        "evaluations": len(progs), "distinct_nontrivial": nontriv,
        "rule": "Random straight-line programs which create references, slices and iterators, use them, and make shared, exclusive or consuming calls in between, and functions which change lifetimes within the types, compiled by rustc; non-trivial: the model predicts rejection, since something borrowed is used too late or escapes, or the lifetime of the values changes.",
        "rejected_by_rustc": len(rejected), "accepted_by_rustc": len(progs) - len(rejected), "not_specified": sum(p.must_fail() is None for p in progs), "samples": samples,
    }
    viol = []
    if bad:
        # unsound acceptance first
        bad.sort(key=lambda x: (not x[0], x[1]))
        accepted, _, i = bad[0]
        p = shrink_prog(progs[i], progs[i].must_fail())
        msg = ("a program is accepted although it uses something borrowed for too long" if accepted else f"a valid program is rejected ({rejected[i]})") + ": " + text_of(p).replace("\n", " ")
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "C18.rs")
        ty, new = STORES[p.store]
        with open(path, "w") as f:
            f.write(f"// {msg}\nuse orx_concurrent_vec::*;\nfn new_vec() -> ConcurrentVec<String, {ty}> {{ {new} }}\nfn main() {{\n    let mut v = new_vec();\n    v.extend([String::new(), String::new()]);\n" + "\n".join("    " + l for l in p.lines()) + "\n}\n")
        print(msg)
        print(f"VIOLATION property=C18 replay={path}")
        viol = [msg]
    return cov, viol


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--evidence", default=None)
    a = ap.parse_args()
    t = time.time()
    cov, viol = (run_c16 if a.prop == "C16" else run_c18)(a.seed, a.tier)
    if a.evidence:
        os.makedirs(os.path.dirname(a.evidence), exist_ok=True)
        with open(a.evidence, "w") as f:
            json.dump({"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov, "violations": len(viol), "wall_s": round(time.time() - t, 1)}, f, indent=1)
    print(f"{a.prop} seed={a.seed} evaluations={cov['evaluations']} distinct_nontrivial={cov['distinct_nontrivial']} wall={time.time() - t:.1f}s")
    sys.exit(1 if viol else 0)


main()
