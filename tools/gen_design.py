import json,os,glob
HEAD = r'''# Checking orx-concurrent-vec with property-based testing and fuzzing

The 21 properties in `properties.jsonl` are all decided by generated-input search against explicit oracles; `not_applicable` is empty. No hook in `/repo`
is needed: the harness crates depend on `/repo` by path and use the public API only. There are five machines:

| machine | source | properties |
|---|---|---|
| concurrent programs on a deterministic runtime | `harness/src/conc.rs`, `lin.rs`, `harness/rt/rt.c` | C01 C02 C03 C04 C05 C08 C09 C10 C11 C13 C14 C15 C19, part of C20 |
| sequential histories against a list | `harness/src/seq.rs` | C06 C07 C12 C17 C20, part of C08 C09 C10 C11 C19 |
| histories which go on after growth calls failed | `harness/src/gap.rs` | part of C02 C08 C09 C10 C11 C14 C15 C17 |
| generated programs judged by rustc | `types/check.py` | C16 C18 |
| generated programs judged by Miri | `miri/src/main.rs`, `miri/check.py` | C21 |

`check.sh PROPERTY [quick|thorough]` builds from `/repo`'s working tree and runs one check (seed: `VERIF_SEED`). A quick check takes 20 to 70 s on 8
cores (0.5 to 1 million cases; C16, C18: some hundred to thousand programs; C21: some hundred programs), a thorough one about ten minutes.
`target/x86_64-unknown-linux-gnu/release/harness replay FILE` and `python3 miri/check.py --replay FILE` re-execute a replay file;
`HARNESS_VERBOSE=1` prints the history; `harness one PROP SEED INDEX` re-executes a generated case.

## The runtime (harness/rt/rt.c)

The harness, the crate and its dependencies are compiled with `-Zsanitizer=thread -Zexternal-clangrt`: rustc then
calls a `__tsan_*` function for every plain and atomic memory access of Rust code, also in the orx dependencies and in instantiated generics of
std. `rt.c` is the other side of these calls. It provides

* **fibers**: threads of a generated program are stackful coroutines; every atomic operation is a scheduling point. The decision
  which thread goes on is made by a seeded random policy or a priority based one (PCT with 1-5 change points), and is recorded.
  A replay file contains the decisions which differ from the default, so that replays are exact and decisions can be shrunk.
* **weak memory**: each atomic location has a history of stores with vector clocks. A load may return an older store if
  coherence and happens-before permit it (only `SeqCst` order is not modelled beyond acquire/release). This shows missing
  `Acquire`/`Release` orders, which hardware and plain interleaving do not. `fetch_max`/`fetch_min` are not instrumented by
  LLVM's pass (it leaves `atomicrmw umax` alone); `build.sh` looks up their ordering in the emitted IR, and the runtime attributes changes of watched
  locations that it did not see to the running thread with this ordering.
* **race detector**: vector clocks with release sequences and fences, per byte of heap memory.
* **shadow memory**: a bump allocator with validity per byte: out of bounds, use after free, double free, leaks.
* **progress**: livelock is a number of steps without any successful write of any thread, or a number of accesses within one
  call; deadlock is that no thread is runnable. Wall-clock time decides nothing; a hang of the process is an error (exit 2), not a violation.

A scheduling point is only placed before atomic operations and in user code: plain accesses between two atomic operations are executed in one go, which loses nothing
for programs without races, and races are reported from clocks, not from interleavings.

## Concurrent programs (harness/src/conc.rs)

A case is a configuration (storage: doubling, linear with 2^1..2^3 elements per fragment, or fixed; element type: tracked heap value, pair of words with checksum,
large value, zero-sized; initial length; capacity limits; way to end), one list of operations per thread (2-4 threads, 1-8 operations, all methods of the shared
API, and waits which order calls of different threads), and the seed of the schedule. 2% of the programs run behind an offset of up to a thousand initial elements close to the boundary of a
fragment, half of these with extends of up to 900 elements. User code (closures, iterators, `Clone`, `PartialEq`, `Debug`, `Drop`, and the moment between the two halves of a
write) may yield, panic, end an iterator early, or be suspended at a chosen call - until all other threads have finished (C13), or until none of them makes progress any more (elsewhere). All
observations are recorded with call and return times and vector clocks. A delayed call usually lasts until the others have spun 3000 times, in 1/12 of the delayed programs 60000 or 400000 times, which
finds operations which give up waiting. A quarter of the programs of C02, C03, C09 and C15 are small (two or three threads, one to three calls, many stale reads): a weak order of a publication shows in these best. Afterwards the oracles judge:

* POS: blocks returned by growth calls are disjoint, contiguous, complete, ordered by real time; values are at their positions in order (C01, C10, C11, C20).
* LEN: bounds and monotonicity of lengths, occupied positions stay occupied, `get`, `[]` and `len` agree (C02, C10, C11, C14).
* LIN, SWAP, BULK: the history of every element (or of a group of elements connected by swaps or two-element comparisons) is searched for a linearization (`lin.rs`, Wing-Gong with
  memoisation). In weak-memory mode the order is the one given by the clocks rather than real time. Each visit of a bulk operation is an operation of its element;
  in addition a bulk operation has to visit what existed at its start, once and in order (C04, C05, C14).
* OWN: registry of all instances of tracked values (created, dropped), heap blocks at the end (C08 and others).
* ADDR: location of each element at every observation; references which are kept across growth are used again (C09, C15).
* GROWTH: observed capacities lie between the strategy's capacity for the completed and for the requested growth; initial and maximum capacity (C19).
* CAPA, PANIC, RAW: failures only where the capacity is exceeded; use after failures and injected panics; values behind unsafe reads (C10, C11, C15).
* the runtime's own failures (race, memory, livelock, deadlock, crash, leak).

Each property lists the kinds of failures which contradict it (`harness/src/props.rs`). A case which ends with a failure of another kind is abandoned and counted in the evidence; so a
change is reported by the checks of those properties which it breaks. A failure is confirmed in a fresh process, shrunk (threads,
operations, arguments, offset, scheduling decisions), and written as a replay file.

## Sequential histories (harness/src/seq.rs)

One thread, a `Vec<u64>` of value identities as the model, ten combinations of storage and element type (including an irreflexive `PartialEq`, bytes and zero-sized values) and a lockstep
mode on three storages whose observations have to be identical. Steps: all growth methods (with nested calls in user functions), lookups, iteration (also `nth`, `size_hint`, partial and resumed), map/filter/fold/reduce, search, `Debug`, `==` of all type pairs,
element updates, swaps, fills, unsafe accessors, splits, chunks; each on the vec or on a slice of a slice of a slice with any range form; clone and all conversions, partly consumed; clear, reserve, failing growth,
and growth by several fibers. After every step the vec is compared completely with the model: values, length, capacities, addresses and number of live values; in *quiet* histories some of these comparisons are left
out, so that state which an observation would repair (`len_written`) stays as it is. A small part of the histories is scaled up to 50000 elements, which finds size thresholds. Calls of user functions (how many, in which order, with which arguments)
and the number of `next` calls of lent iterators are recorded (C20).

## Histories with failures (harness/src/gap.rs)

Growth calls whose closure or iterator panics, ends early, has the wrong length or exceeds the capacity, also from several threads at once; the history goes on with all kinds of operations. The model knows for
each position whether it holds a value, and an interval for the next position (a repair of the crate which gives unused positions back would be accepted as well). Judged: length is the number of leading values; values
behind gaps are reachable by the unsafe accessors and nowhere else; addresses; capacities between the two values which the interval permits; number of live values after each step; clear and reserve with gaps; after the end all values dropped
exactly once, also where a conversion panics because of a gap; and no memory is leaked.

## Programs judged by rustc (types/check.py)

C16: random element types (15 leaves, 15 constructors) whose `Send` and `Sync` follow structurally; each is put into the public types and iterators, and rustc has to agree with the expectation
(exactly for types, at most for iterators). The generator's own table is verified by rustc as well.
C18: all pairs of handle and exclusive call, random programs, and programs about variance of lifetimes in element types; the model of borrows predicts which ones rustc must reject. Programs with an iterator that is alive but unused after an exclusive call are unspecified (its opaque type may have a destructor).

## Programs judged by Miri (miri/)

C21: an interpreter for generated programs (`miri/src/main.rs`) is itself run by Miri with Tree Borrows and Miri's weak memory and preemption: threads over the safe API with panicking user functions; growth next to readers through unsafe references; one thread which
holds references and raw pointers (read and write) while it uses the vec otherwise; then exclusive calls and conversions. Element types have padding, niches, interior mutability, heap memory, or size zero. Miri is the oracle for undefined behaviour, and values carry a checksum. This reaches aliasing, provenance, uninitialised padding and invalid values, which the runtime above cannot see.
Programs are shrunk by removing threads, operations and arguments, and replayed with the same Miri seeds.

## How each property is decided

`explored` = what is generated, `judged` = oracle. Bounds are those of the machines above unless noted; all are samples, none is exhaustive.

| property | explored | judged | what tests cannot reach |
|---|---|---|---|
'''
ROWS = {
'C01': ('2-4 threads of growth calls with and without tight capacity, failures, waits', 'blocks of positions: disjoint, no unused position, real-time order; contents at the end', 'schedules within `reserve`/allocate/write'),
'C02': ('growth with length, lookup, index, iteration; histories with gaps', 'per-observation bounds from the completed and started calls; monotone per happens-before', 'observations between reservation and write, stale reads'),
'C03': ('the whole safe shared API, 70% weak memory', 'race detector and shadow memory', 'missing orders do not show on x86'),
'C04': ('element operations on 1-4 elements', 'linearizability of each element, whole (untorn) values', 'all interleavings within a lock'),
'C05': ('swaps on vecs and slices with other element operations, suspended threads', 'linearizability of connected groups; result is exactly `both exist`', 'both lock orders, intermediate states'),
'C06': ('histories over the whole API, up to 50000 elements', 'list model after each step', 'combinations of calls, fragment boundaries, odd equality'),
'C07': ('slices of slices of slices with all range forms and bounds', 'list model of the window; addresses', 'nested windows, boundary arithmetic incl. overflow'),
'C08': ('all machines, all ends', 'registry of instances, heap blocks', 'ownership after panics, partial consumption, races'),
'C09': ('references, pointers, slices kept across growth and reserve', 'addresses, and values through old pointers', 'growth at every moment of the use'),
'C10': ('requests of 90-250% of the capacity, histories after overflow', 'failure iff exceeded; full use of the capacity; no damage', 'which of several threads fails, what remains'),
'C11': ('a panic (or short iterator) at any user call, several per history', 'state afterwards, ownership, later operations, allocation', 'every call position, with other threads active'),
'C12': ('clones and conversions within histories, lockstep of three storages', 'list model, equality of observations', 'histories of the vec before the conversion'),
'C13': ('a thread suspended in user code; dense lock patterns', 'all other calls return; no deadlock or livelock', 'suspension at every point'),
'C14': ('bulk operations against writers and growth', 'each visit in the element\'s history, each element once, in order', 'overlaps'),
'C15': ('growth with unsafe reads and locking reads, histories with gaps', 'exact values, initialised memory, no false absence', 'unsafe read between reservation and write, stale reads'),
'C16': ('element types of random structure', 'rustc against the structural expectation', 'types beyond those used'),
'C17': ('clear, reserve, conversions between any growth, incl. failed and concurrent', 'list model, capacities, promised room is usable', 'orders of these calls'),
'C18': ('programs with handles kept over exclusive calls; variance', 'rustc against a model of borrows', 'tests must compile'),
'C19': ('growth over fragment boundaries with capacity queries', 'formula of the strategy, bounds under concurrency', 'who allocates at boundaries'),
'C20': ('recorded user functions and lent iterators; concurrent functions', 'exact sequence of calls; positions passed to functions', 'effects of user functions'),
'C21': ('programs within the documented contracts, under Miri', 'Miri', 'undefined behaviour is not visible natively'),
}
TAIL = r'''
## What is not asserted

Deliberately outside of the properties, since the crate does not promise it or the property would be wrong: `get_cloned(i)` may return a value for `i >= len()` behind a gap; results of conversions of vecs with gaps (only
ownership is judged); iterators whose `size_hint` lies in `collect`; panics of destructors; re-entrant access of the *same* element within its own closure; `..=usize::MAX`; writes through `unsafe` accessors concurrent with anything else;
starvation under unfair schedules; the value of an empty `extend` call on a full vec; reading through a `get_raw` pointer after its element was written; the number of `Clone` calls; whether the old value is dropped while its element is
locked; linear growth with exponent 0 (refused by orx-split-vec).

## Genuine defects found and repaired

See `known_findings.txt`: eleven, each a "fix:" commit in `/repo`. No finding is left unrepaired.

## False alarms met and corrected

* A "race" in checks that use `len`: `fetch_max` is not instrumented (see above). Corrected in the runtime.
* `chunks`/slices of a vec that is shorter than the requested range: ranges are clamped by design; the model clamps.
* A failing extension on a vec with room left (`S_OVERFLOW` with partial room) leaves reserved positions behind; later growth is impossible until clear or reserve. The model treats the vec as stuck.
* An empty extension after a failed push on a full vec returns a position beyond the capacity; not asserted.
* Programs of a thousand elements exceeded the budget of memory accesses per call: budgets grow with the program.
* The debug text of bytes was compared with that of numbers in histories with failures (model error).

## Sensitivity

Planted bugs (`seeded/`, every one is valid: compiles, passes the 73 tests, its demonstration fails). All are caught by the check of their property:

| change | property | needs |
|---|---|---|
'''
MUT = r'''
Further evidence of sensitivity, made in scratch copies:

* Mutation testing: 698 generated mutants of `src/` (operators, constants, orders, removed statements, swapped branches); 142 of them survive the existing tests. Of these, all which change observable behaviour are reported by at least one
  check; the others were reviewed and are equivalent (e.g. `Relaxed` for an order that another operation already provides, or a redundant condition).
* About 60 further hand-made changes, among them size thresholds (take only the first 100, 1000, 5000, 40000 elements: the sequential checks see all of the first three, the concurrent ones the first two), growth in two reservations from
  a block size on (8 to 300), gives up waiting for a lock after some rounds, pretends that locked elements do not exist, `[]` on reserved positions, compaction of gaps in `reserve`, values moved bytewise, publication by a relaxed store, length stored twice, lock orders, early release of locks. Those which were missed first
  led to: the quiet histories, the scale histories, the short and wrong iterators, the offset programs, the gap machine, the suspended calls outside of C13, the capacity at construction in C19, and Miri as an oracle.
* Reverting each of the "fix:" commits is reported by the check of its property.

Robustness: refactorings (helpers extracted, loops rewritten with iterators or indices, statements reordered, other but sufficient memory orders, lookups through other methods, chunks through another arithmetic, collecting through a `Vec`) were applied to all files; all checks
stay quiet. What oracles compare is only what calls return, what user code sees, and memory effects.

## Limits

Sampling: rare combinations of three or more specific events in long programs may not be generated. `SeqCst` fences have no global order in the runtime's memory model, and loads do not speculate future
stores (load buffering). Programs have at most five threads. Types are those listed. Miri executes hundreds of programs per run, not a million.
'''
rows=''.join(f"| {k} | {a} | {b} | {c} |\n" for k,(a,b,c) in ROWS.items())
seeds=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); seeds.append((m['property'],os.path.basename(os.path.dirname(d)),m['needs']))
seeds.sort()
st=''.join(f"| {n} | {p} | {x} |\n" for p,n,x in seeds)
open('/verif/DESIGN.md','w').write(HEAD+rows+TAIL+st+MUT)
