#!/usr/bin/env python3
"""C21: generated programs over the public API, executed by Miri.

Every program uses the crate within its documented contracts, so that any undefined behaviour which Miri observes
(aliasing by Tree Borrows, uninitialised or dangling memory, invalid values, alignment, provenance, data races under
its weak memory emulation) is a violation.

usage: check.py --seed N --tier quick|thorough --evidence FILE | --replay FILE
"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("REPO_DIR", "/repo")
TARGET = os.path.join(os.environ.get("CARGO_TARGET_DIR", os.path.join(VERIF, "target")), "miri")
FLAGS = "-Zmiri-tree-borrows -Zmiri-ignore-leaks"
RULE = ("Generated programs: 2 to 3 threads over the safe API, threads which grow the vec while others read through unsafe references, or one "
        "thread which uses references and raw pointers while the vec grows, followed by exclusive calls and a conversion; non-trivial: at least "
        "three accesses to values of elements.")


def env(seed):
    e = dict(os.environ, CARGO_TARGET_DIR=TARGET, RUSTFLAGS="-Awarnings", MIRIFLAGS=f"{FLAGS} -Zmiri-seed={seed}", CARGO_TERM_COLOR="never")
    e.pop("RUSTC_WRAPPER", None)
    return e


def die(msg):
    print(f"ERROR property=C21 {msg}")
    sys.exit(2)


def project():
    """the crate of the programs with its path dependency on the tree under test"""
    d = os.path.join(TARGET, "project")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    text = open(os.path.join(HERE, "Cargo.toml")).read().replace('"/repo"', f'"{REPO}"')
    for name, new in [("Cargo.toml", text), ("src/main.rs", open(os.path.join(HERE, "src", "main.rs")).read()), ("Cargo.lock", open(os.path.join(HERE, "Cargo.lock")).read())]:
        p = os.path.join(d, name)
        if not os.path.exists(p) or open(p).read() != new:
            open(p, "w").write(new)
    return d


def start(d, seed, args):
    return subprocess.Popen(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--", *args], cwd=d, env=env(seed), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                            start_new_session=True)


def end(p):
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass
    p.wait()


def verdict(out, err):
    """the message if the run shows a violation"""
    if "BROKEN VALUE" in out:
        return "an element holds a value which is not whole"
    m = re.search(r"^error: Undefined Behavior: (.*)$", err, re.M)
    if m:
        return "undefined behaviour: " + m.group(1)
    return None


class Shard(threading.Thread):
    """runs cases FIRST.. one after another; a case which hangs or stops the interpreter for another reason is skipped"""

    def __init__(self, d, k, seed, first, count, deadline, stop):
        super().__init__()
        self.d, self.k, self.seed, self.first, self.count, self.deadline, self.stop = d, k, seed, first, count, deadline, stop
        self.done, self.skipped, self.found, self.cases, self.odd = [], [], None, {}, None

    def run(self):
        i, last = self.first, self.first + self.count
        while i < last and not self.stop.is_set() and time.time() < self.deadline:
            p = start(self.d, self.k, ["gen", str(self.seed), str(i), str(last - i)])
            state = {"t": time.time(), "cur": i}
            err = []
            te = threading.Thread(target=lambda: err.append(p.stderr.read()))
            te.start()
            out = []

            def watch():
                while p.poll() is None:
                    if self.stop.is_set() or time.time() > self.deadline or time.time() - state["t"] > 120:
                        end(p)
                        return
                    time.sleep(0.3)

            tw = threading.Thread(target=watch)
            tw.start()
            for l in p.stdout:
                state["t"] = time.time()
                w = l.split()
                if l.startswith("CASE "):
                    state["cur"] = int(w[1])
                    self.cases[int(w[1])] = l.split(" ", 2)[2].strip()
                elif l.startswith("OK "):
                    self.done.append((int(w[1]), int(w[2]), int(w[3])))
                else:
                    out.append(l)
            p.wait(); te.join(); tw.join()
            cur = state["cur"]
            if "DONE\n" in out:
                return
            m = verdict("".join(out), err[0])
            if m:
                self.found = (cur, m, err[0])
                self.stop.set()
                return
            if self.stop.is_set() or time.time() > self.deadline:
                return
            if p.returncode != -9:
                self.odd = err[0][-1500:]
            self.skipped.append(cur)
            i = cur + 1


# ------------------------------------------------------------------------------------------------ shrinking

def parse(text):
    parts = [[int(x) for x in p.split()] for p in text.split(";")]
    return parts[0], parts[1], parts[2:]


def show(c):
    h, e, ts = c
    return " ; ".join([" ".join(map(str, x)) for x in [h, e, *ts]])


def one(d, text, seed, limit=60):
    p = start(d, seed, ["run", text])
    t = threading.Timer(limit, lambda: end(p))
    t.start()
    out, err = p.communicate()
    t.cancel()
    m = verdict(out, err)
    return (seed, m, err) if m else None


def fails(pool, d, text, seeds):
    for r in pool.map(lambda s: one(d, text, s), seeds):
        if r:
            return r
    return None


def smaller(c):
    h, e, ts = c
    for k in range(len(ts)):
        if len(ts) > 1:
            yield (h, e, ts[:k] + ts[k + 1:])
        for o in range(0, len(ts[k]), 4):
            yield (h, e, ts[:k] + [ts[k][:o] + ts[k][o + 4:]] + ts[k + 1:])
    for k in range(0, len(e), 2):
        yield (h, e[:k] + e[k + 2:], ts)
    for k, v in [(4, 0), (4, h[4] // 2), (6, 0), (7, 5)]:
        if h[k] != v:
            yield (h[:k] + [v] + h[k + 1:], e, ts)


def shrink(d, text, seeds, until):
    """(text, (seed, message, stderr)) of a smaller case which fails on its own, or None"""
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        best = fails(pool, d, text, seeds)
        if not best:
            best = fails(pool, d, text, range(1000, 1024))
        if not best:
            return None
        c, progress = parse(text), True
        while progress and time.time() < until:
            progress = False
            cands = [x for x in smaller(c) if show(x) != show(c)]
            ss = [best[0]] if len(c[2]) == 1 else [best[0], 1001]
            jobs = [pool.submit(lambda x=x: (x, next(filter(None, (one(d, show(x), s) for s in ss)), None))) for x in cands]
            for j in jobs:
                x, r = j.result()
                if r:
                    c, best, progress = x, r, True
                    break
            for j in jobs:
                j.cancel()
        return show(c), best


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--tier", default="quick")
    a.add_argument("--evidence")
    a.add_argument("--replay")
    a = a.parse_args()
    t0 = time.time()
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, "lock"), "w")
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    subprocess.run(["bash", os.path.join(VERIF, "tools", "fresh.sh"), TARGET, REPO], check=True)
    d = project()
    # builds
    r = subprocess.run(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--", "gen", "0", "0", "0"], cwd=d, env=env(0), capture_output=True, text=True, timeout=800)
    if r.returncode != 0 or "DONE" not in r.stdout:
        die("the generated programs do not build: " + "\n".join([l for l in r.stderr.splitlines() if l.startswith("error")][:5]) + r.stderr[-1500:])
    if a.replay:
        w = json.load(open(a.replay))
        p = start(d, w["miri_seed"], w["args"])
        out, err = p.communicate()
        print(err[-4000:])
        print(verdict(out, err) or "no violation")
        sys.exit(1 if verdict(out, err) else 0)

    per, limit = (300, 400) if a.tier == "quick" else (1000000, 780)
    stop = threading.Event()
    shards = [Shard(d, a.seed * 8 + k, a.seed, k * 10_000_000, per, t0 + limit, stop) for k in range(8)]
    for s in shards:
        s.start()
    for s in shards:
        s.join()
    ev = {"property": "C21", "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": {}, "violations": 0}
    done = [(s, *x) for s in shards for x in s.done]
    texts = {}
    for s, i, mode, n in done:
        texts.setdefault(s.cases[i], (mode, n))
    good = [t for t, (_, n) in texts.items() if n >= 3]
    step = max(1, len(good) // 6)
    ev["coverage"] = {
        "evaluations": len(done), "distinct_nontrivial": len(good), "rule": RULE, "accesses_to_values": sum(n for _, n in texts.values()),
        "safe_api_programs": sum(m == 0 for m, _ in texts.values()), "growth_and_unsafe_reads": sum(m == 1 for m, _ in texts.values()),
        "single_thread_unsafe": sum(m == 2 for m, _ in texts.values()), "inconclusive": sum(len(s.skipped) for s in shards), "samples": good[::step][:6],
    }
    rc = 0
    hit = next((s for s in shards if s.found), None)
    if hit:
        i, msg, err = hit.found
        args, ms = ["gen", str(a.seed), str(hit.first), str(i - hit.first + 1)], hit.k
        small = shrink(d, hit.cases[i], [hit.k, *range(1, 8)], time.time() + 100)
        text = hit.cases[i]
        if small:
            text, (ms, msg, err) = small
            args = ["run", text]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"C21-{hashlib.sha256(text.encode()).hexdigest()[:12]}.json")
        json.dump({"property": "C21", "what": msg, "args": args, "miri_seed": ms, "flags": FLAGS, "case": text, "miri": err[-6000:]}, open(path, "w"), indent=1)
        print(msg)
        at = re.findall(r"(?:-->|at) (\S*src/\S+:\d+)", err)
        print("at " + ", ".join(dict.fromkeys(at[:6])))
        print(f"program: {text}")
        print(f"replay: python3 miri/check.py --replay {path}")
        print(f"VIOLATION property=C21 replay={path}")
        ev["violations"] = 1
        rc = 1
    elif len(done) < 40:
        odd = next((s.odd for s in shards if s.odd), "")
        die(f"only {len(done)} programs were executed {odd}")
    ev["wall_s"] = round(time.time() - t0, 1)
    if a.evidence:
        json.dump(ev, open(a.evidence, "w"), indent=1)
    print(f"property=C21 seed={a.seed} cases={len(done)} nontrivial={len(good)} inconclusive={ev['coverage']['inconclusive']} wall={ev['wall_s']}")
    sys.exit(rc)


main()
