#!/usr/bin/env python3
"""Writes properties.jsonl (edit here, then run)."""
import json, os

S = "src/"
SL = "src/concurrent_slice/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "Concurrent growth: disjoint, contiguous, complete positions",
     "Whenever any number of threads grow the vec at the same time by single pushes and by extensions, each call returns the begin of a contiguous block of positions of the requested length which no other call receives, and the blocks together cover exactly the positions from the initial length to the final length without gaps. After the call returned, each value which it pushed is found exactly once, at its position in the block, in the order in which the values were given. A push which starts after another growth call returned receives a later position.",
     ["schedules", "programs", "configurations"],
     "All interleavings, at the granularity of atomic operations and with the reorderings which the memory orders permit, of all programs of several threads which call push, push_for_idx, extend, extend_for_idx and extend_n_items, on every storage and element type.",
     "The tests run a few fixed programs on the operating system's scheduler and compare sorted values at the end; they sample a handful of the interleavings around the allocation of new fragments and do not check which positions the calls returned.",
     [S + "grow.rs", S + "state.rs", S + "vec.rs"],
     [("position reservation by fetch-and-add, writing into the reserved positions", "src/grow.rs push, push_for_idx, extend_n_items, extend_for_idx"),
      ("decision who allocates memory for a reserved position", "src/state.rs write_permit, write_permit_n_items")],
     [("number of reserved positions", "positions below are given to some growth call", "src/state.rs len_reserved")],
     ["values returned by growth calls, values found by get and iter afterwards"])
prop("C02", "Length and visibility are bounded, monotone and consistent",
     "A length observed at any time is at least the number of elements below the first position whose push was not completed before the observation started, and at most the number of positions requested before it ended; lengths observed one after another never decrease as long as nobody clears the vec. A position which is below an observed length, or was found occupied before, is always found occupied by every later lookup, iteration or slice, with a completely written value. Emptiness and capacities agree with the length: the length never exceeds the capacity, and the capacity never exceeds the maximum capacity.",
     ["schedules", "programs"],
     "All interleavings and permitted reorderings of programs which mix growth with length, emptiness and capacity queries, lookups, indexing, iteration, slicing and chunking, where observations are ordered by real time and by happens-before.",
     "The tests query lengths only when no other thread is active, or without comparing them with the set of pushes which were completed at that moment.",
     [S + "vec.rs", S + "state.rs", S + "common_traits/index.rs", SL + "slice.rs", S + "iter_shorthands.rs"],
     [("length computed from the reserved positions and from the states of the last ones", "src/vec.rs len"),
      ("lookup through the concurrent state of the element", "src/vec.rs get, get_cloned"),
      ("capacity bound of reserved positions", "src/vec.rs reserved_len")],
     None, ["results of len, is_empty, capacity, maximum_capacity, get, get_cloned, index, iter, slices"])
prop("C03", "The safe shared API has no data races and no memory errors",
     "No program which only uses safe methods through shared references can cause a data race in the sense of the language's memory model, or an access to memory which is not allocated, not initialised or already freed. This includes user types with destructors, cloning of heap values, comparison, formatting and values of size zero.",
     ["schedules", "programs", "configurations"],
     "All interleavings and permitted weak-memory executions of all programs of several threads over the whole safe shared API, on every storage and element type.",
     "The tests run on hardware with strong ordering, without race detection, and with few combinations of concurrent operations; a missing happens-before edge or a torn read hardly ever shows as a wrong value.",
     [S + "elem.rs", S + "grow.rs", S + "vec.rs", S + "mut_elem.rs", S + "common_traits/eq.rs", S + "common_traits/index.rs", SL + "slice.rs", SL + "mut_elem.rs"],
     [("elements are locked by a per-element state machine during reads and writes", "src/elem.rs, src/mut_elem.rs swap, src/common_traits/eq.rs"),
      ("memory of unused positions is filled before it is published", "src/state.rs fill_memory_with")],
     None, ["vector clocks and shadow memory over all instrumented accesses"])
prop("C04", "Operations on one element are linearizable",
     "Concurrent reads, clones, copies, mappings, replacements, assignments, updates and comparisons of the same element behave as if each had happened at one instant between its call and its return: a read returns the value of the latest write, replace returns the value which it removed, update sees and changes the value in one step without losing other writes. No reader ever observes a partially written value.",
     ["schedules", "programs", "histories"],
     "All interleavings and permitted reorderings of programs of several threads issuing element operations on a few shared elements, including elements which are being pushed meanwhile; histories are judged by searching for a linearization.",
     "The tests check element operations from one thread, or final sums of a few concurrent updates; lost updates and stale reads need a particular interleaving of two operations.",
     [S + "elem.rs", S + "common_traits/eq.rs", S + "vec.rs"],
     [("exclusive or shared access to the value during the operation", "src/elem.rs map, replace, set, update, cloned, copied"),
      ("comparison under both locks", "src/common_traits/eq.rs")],
     None, ["values returned by the operations, ordered by call and return"])
prop("C05", "Swaps are atomic, exact and lossless",
     "Swapping two positions of a vec or of a slice exchanges exactly the values at these positions in one step with respect to all other operations on them, and reports whether both positions were within bounds; out-of-bounds swaps change nothing. For every mix of concurrent swaps, including those of overlapping pairs in opposite directions and of a position with itself, no value is lost or duplicated and every call returns.",
     ["schedules", "programs", "inputs"],
     "All interleavings of programs of several threads with swaps over a few positions, mixed with reads, writes and growth, for all index pairs including equal and out-of-bounds ones.",
     "The tests swap from one thread with a few index pairs; crossing swaps which could block each other, and readers between the two writes, need particular interleavings.",
     [S + "mut_elem.rs", SL + "mut_elem.rs"],
     [("acquisition of both elements in a consistent order", "src/mut_elem.rs swap"), ("index translation of slices", "src/concurrent_slice/mut_elem.rs swap")],
     None, ["returned flags, values of all affected positions"])
prop("C06", "Single-threaded behaviour equals that of an ordinary vector",
     "For every sequence of operations made by one thread, every result and the sequence of values equal those of a plain growable list with the corresponding operations. This covers growth, lookup, indexing, iteration, map, filter, fold, reduce, search, comparison, formatting, element and bulk updates, swaps, unsafe accessors used within their contracts, and re-entrant calls on other elements from within user functions.",
     ["inputs", "histories", "configurations"],
     "All finite histories of operations with all arguments (including empty, first, last and out-of-bounds ones), all storages and growth parameters, and element types of different size, drop and comparison behaviour.",
     "The tests call each method on one small example, mostly with the default storage; they do not combine operations or vary sizes around the boundaries of fragments.",
     [S + "vec.rs", S + "grow.rs", S + "elem.rs", S + "mut_elem.rs", S + "iter_shorthands.rs", S + "partial_eq.rs", S + "common_traits/eq.rs", S + "common_traits/debug.rs", S + "common_traits/index.rs", S + "unsafe_api.rs"],
     [("the whole public API", "src/")],
     None, ["results of all calls, compared with a list of value identities"])
prop("C07", "Slices, splits and chunks are exact windows",
     "A slice made with any kind of range, of a vec or of another slice, refers to exactly the elements of that range which exist at its creation, and every operation on it acts on exactly these elements, in order; it does not change when the vec grows. Splitting at a position, splitting off the first or last element, and chunking partition the window exactly, in order, without overlap or loss, with the documented panics for invalid arguments.",
     ["inputs", "histories", "configurations"],
     "All range forms and bounds (inclusive, exclusive, unbounded, empty, beyond the end), nested to several levels, all lengths and chunk sizes, all slice operations, and growth between creation and use.",
     "The tests use a few ranges on short vecs and do not nest slices or use bounds beyond the end; off-by-one errors in one range form or one slice method remain unseen.",
     [SL + "slice.rs", SL + "split.rs", SL + "mut_elem.rs", SL + "iter_shorthands.rs", SL + "unsafe_api.rs", SL + "partial_eq.rs", SL + "to_vec.rs", S + "split.rs", S + "vec.rs", S + "common_traits/eq.rs", S + "common_traits/index.rs"],
     [("translation of ranges and indices", "src/concurrent_slice/slice.rs, src/vec.rs slice"), ("splitting and chunking", "src/split.rs, src/concurrent_slice/split.rs")],
     None, ["values, lengths and addresses of the elements reached through slices"])
prop("C08", "Every value is owned exactly once and all memory is released",
     "Each value handed to the vec is at any time either held by the vec, or returned to a caller, or dropped, and it is dropped exactly once in its life. After the vec is dropped, cleared, or consumed by a conversion (even if only partly iterated), no value which it held is alive without an owner, and all memory which it allocated is released, also if growth calls failed before.",
     ["schedules", "programs", "histories", "configurations"],
     "All programs of one or several threads over the whole safe API followed by any way to drop or consume the vec, and all sequential histories with clear, reserve, conversions and failing growth in between, for element types with and without destructors.",
     "The tests drop a few vecs with a drop counter or without any; double drops and leaks on rarely used paths, such as surplus items or partial consumption, are not observed.",
     [S + "elem.rs", S + "grow.rs", S + "vec.rs", S + "exclusive.rs", S + "mut_elem.rs", S + "common_traits/into_iter.rs", S + "to_vec.rs"],
     [("replacing and taking values out of elements", "src/elem.rs"), ("consumption", "src/vec.rs into_inner, src/to_vec.rs, src/common_traits/into_iter.rs"), ("clearing", "src/exclusive.rs clear")],
     None, ["instances of values by identity, heap blocks"])
prop("C09", "Elements are pinned",
     "The memory location of an element never changes from its push until the vec is cleared, consumed or dropped, no matter how the vec grows or how often its maximum capacity is raised; distinct elements have distinct locations. References and pointers to elements and slices obtained at any time therefore stay usable during concurrent growth and observe the current values.",
     ["schedules", "programs", "configurations"],
     "All interleavings of growth with the use of references, pointers, iterators and slices obtained before, across several allocations, on every storage and growth parameter, and histories of reserve and growth.",
     "The tests do not keep references across growth from other threads, nor compare locations.",
     [S + "grow.rs", S + "vec.rs", S + "exclusive.rs", S + "unsafe_api.rs", SL + "unsafe_api.rs"],
     [("growth without moving", "src/grow.rs"), ("reserve", "src/exclusive.rs reserve_maximum_capacity")],
     None, ["addresses of elements"])
prop("C10", "Capacity limits are exact and failed growth does no harm",
     "The maximum capacity never changes by growth, and exactly the growth calls which do not fit into it fail, by panicking: concurrent single pushes succeed until the vec is full. After failed growth calls the elements, length, lookups, iteration, element operations, comparison, formatting, slices, clear, reserve, conversions and drop all still work and see exactly the successfully pushed values.",
     ["schedules", "inputs", "configurations", "fault_sequences"],
     "All interleavings of growth calls which exceed the maximum capacity by any amount on fixed and linear storages of all sizes, and all histories which continue to use the vec after such failures.",
     "A few tests push one element too many and expect a panic; none of them uses the vec after the failure or lets several threads compete for the last positions.",
     [S + "grow.rs", S + "state.rs", S + "vec.rs", S + "exclusive.rs", S + "new.rs"],
     [("capacity check before positions are used", "src/grow.rs, src/state.rs write_permit"), ("positions reserved beyond the capacity are ignored", "src/vec.rs reserved_len")],
     None, ["capacity, maximum_capacity, panics, values after the failure"])
prop("C11", "A panic in user code is contained",
     "If a closure, iterator, clone, comparison or formatting function supplied by the user panics inside any operation, the panic reaches the caller, and afterwards the vec is still usable by all threads: other elements keep their values, no element stays locked, growth continues, and no value is dropped twice or freed too early. At most the positions which the failing growth call had reserved remain unused.",
     ["fault_sequences", "schedules", "programs"],
     "All programs of one to three threads in which the n-th call into user code panics, for all n, all kinds of user code and all operations, under all interleavings.",
     "No test lets user code panic inside an operation and continues to use the vec.",
     [S + "elem.rs", S + "grow.rs", S + "mut_elem.rs", S + "iter_shorthands.rs", S + "common_traits/eq.rs", S + "common_traits/debug.rs"],
     [("element locks are released on unwinding", "src/elem.rs"), ("order of reservation, allocation and user calls", "src/grow.rs push_for_idx, extend_for_idx")],
     None, ["caught panics, values and progress afterwards"])
prop("C12", "Conversions round-trip and storages are interchangeable",
     "Building a vec from an iterator or from a storage, cloning it, and converting it to a plain list, to the inner storage, to an owning iterator or to a copied list all preserve the values, their number and their order, and the result can be used and converted again. Clones are independent. The same history of operations produces the same observations on every storage.",
     ["histories", "inputs", "configurations"],
     "All histories which interleave conversions with growth and updates, including empty vecs, partly consumed iterators, storages with existing elements at all fill levels, and iterators with inexact size hints; lockstep execution on three storages.",
     "The tests convert one small vec with each method once; chains of conversions, fill levels at fragment boundaries, and differences between storages are not explored.",
     [S + "new.rs", S + "vec.rs", S + "to_vec.rs", S + "common_traits/into_iter.rs", S + "common_traits/from_iter.rs", S + "common_traits/clone.rs", S + "elem.rs"],
     [("construction from storages", "src/new.rs new_from_pinned"), ("consumption", "src/vec.rs into_inner, src/common_traits/into_iter.rs")],
     None, ["values before and after"])
prop("C13", "Every call returns; growth and other elements do not wait for user code",
     "In every schedule in which all threads keep running, every call returns, for all combinations of operations. If a thread is suspended for ever inside a user function called by an operation, other threads can still push, extend, query the length and access all elements other than the one being accessed by the suspended call. User functions which only compute a value to be stored (those of push_for_idx, extend and fills, and iterators) run while no element is accessed.",
     ["schedules", "programs"],
     "All programs of two to four threads under all fair schedules, and all programs in which one thread is suspended at a call into user code while the others grow the vec or access other elements.",
     "Tests show that some runs terminate; deadlocks between two element locks and waiting for a suspended pusher need particular interleavings.",
     [S + "grow.rs", S + "state.rs", S + "elem.rs", S + "mut_elem.rs", S + "common_traits/eq.rs", S + "vec.rs"],
     [("who waits for whom when memory is allocated", "src/state.rs, src/grow.rs"), ("order of element locks", "src/mut_elem.rs swap, src/common_traits/eq.rs")],
     None, ["step counts without progress"])
prop("C14", "Bulk operations are sound under concurrent modification",
     "Iterating, cloning, searching, folding, reducing, comparing, formatting or copying a vec or slice while other threads modify and grow it visits every element which existed when the operation started exactly once, in order, and each visit sees a value which the element had during the operation. Filling writes every element which existed at the start exactly once, and a search result was correct at some moment during the search.",
     ["schedules", "programs", "histories"],
     "All interleavings of programs in which bulk operations on vecs and slices overlap with writes and growth of other threads; every visit is an operation in the history of its element.",
     "The tests run bulk operations on vecs which nobody else modifies.",
     [S + "iter_shorthands.rs", S + "vec.rs", S + "mut_elem.rs", S + "partial_eq.rs", S + "to_vec.rs", S + "common_traits/eq.rs", S + "common_traits/debug.rs", S + "common_traits/clone.rs", SL + "iter_shorthands.rs", SL + "mut_elem.rs", SL + "partial_eq.rs", SL + "split.rs"],
     [("iteration bounded by the length at the start", "src/vec.rs iter, iter_cloned"), ("per-element locking during a visit", "src/elem.rs")],
     None, ["sequences of visited values"])
prop("C15", "Unsafe reads are sound while the vec grows",
     "While other threads push and extend, and nobody writes to existing elements, the unsafe accessors which return references, pointers and iterators never expose memory which is not initialised, and return exactly the values which were pushed to these positions. They find every element whose push was completed before, also while other threads read the same element with the locking accessors.",
     ["schedules", "programs"],
     "All interleavings and permitted reorderings of growth, unsafe reads through vecs and slices, and locking reads.",
     "The tests use the unsafe accessors on vecs which nobody grows or reads meanwhile.",
     [S + "unsafe_api.rs", SL + "unsafe_api.rs", S + "helpers.rs", S + "grow.rs"],
     [("initialisation check with sufficient ordering before the reference is created", "src/unsafe_api.rs get_raw, get_ref, iter_ref")],
     None, ["values behind returned references, vector clocks"])
prop("C16", "Thread-safety of the types follows from that of the values",
     "A vec, or an element of it, can be sent to another thread exactly if its values can, and can be shared between threads exactly if its values can be both sent and shared; slices and references to elements follow sharing. Iterators over vecs and slices are never more permissive than the access to the values which they provide.",
     ["programs", "configurations"],
     "All element types (built from standard types with any combination of thread-safety), all public types and iterators of the crate, all storages.",
     "Thread-safety is decided by the compiler for each instantiation; the tests only instantiate element types which are both sendable and shareable, so unsound permissions do not show.",
     [S + "elem.rs", S + "vec.rs", SL + "slice.rs", S + "common_traits/into_iter.rs"],
     [("unsafe marker implementations and automatic ones", "src/elem.rs")],
     None, ["acceptance of generated programs by the compiler"])
prop("C17", "Exclusive lifecycle: clear and reserve keep the vec consistent",
     "After clearing, the vec is empty, holds no old value, keeps at least its maximum capacity, and behaves like a new vec of this storage in all later operations and conversions. Raising the maximum capacity keeps all elements and their locations, never lowers any capacity, and on growable storages makes exactly the promised amount of growth possible; both work any number of times in any order, also after concurrent and failed growth.",
     ["histories", "configurations"],
     "All histories which alternate growth by one or several threads, failing growth, clear, reserve and conversions, on all storages and growth parameters.",
     "The tests call clear and reserve once on a fresh vec; sequences such as clear, reserve, grow, or reserve after failed growth are not covered.",
     [S + "exclusive.rs", S + "vec.rs", S + "state.rs", S + "grow.rs"],
     [("clear and reserve", "src/exclusive.rs")],
     None, ["values, lengths, capacities and addresses after each step"])
prop("C18", "References cannot outlive exclusive access or the vec",
     "Safe code which uses a reference to an element, a slice, or an iterator of a vec after the vec was cleared, reserved, consumed, moved, replaced or dropped is rejected by the compiler, and so is code which lets a reference to a value escape from a user function called under an element's lock, or which calls exclusive methods through shared references, or which lets values with a shorter lifetime into a vec, element or slice for values of a longer one (or takes them out with a longer one). Code which uses them before that, or interleaves them with any shared operations including growth, is accepted.",
     ["programs", "configurations"],
     "All straight-line programs which create references, slices (of slices) and iterators, use them, and make shared, exclusive and consuming calls in any order, on all storages.",
     "Rejection by the compiler cannot be expressed as a unit test; a relaxed lifetime or receiver in a signature compiles with all existing tests.",
     [S + "vec.rs", S + "exclusive.rs", S + "split.rs", S + "elem.rs", SL + "slice.rs", SL + "split.rs", S + "unsafe_api.rs", S + "iter_shorthands.rs", S + "to_vec.rs"],
     [("lifetimes and receivers of the public API", "src/")],
     None, ["acceptance of generated programs by the compiler"])

prop("C19", "Capacity follows the growth strategy exactly",
     "The capacity of a vec is determined by its growth strategy and by the positions which were requested: a new vec has the capacity of its first allocation (4 for doubling growth, one fragment for linear growth, everything for a fixed one), and later the smallest capacity of the strategy (4, 12, 28, ... for doubling growth, multiples of the fragment size for linear growth) which holds all positions requested so far and is not below the initial one. While growth calls are active, an observed capacity lies between this value for the completed and for the requested growth. No growth call allocates more fragments than are necessary, allocates a fragment twice, or returns before its positions are allocated; element operations, lookups, iteration and clones never allocate capacity, and the maximum capacity is the one given at construction until it is raised.",
     ["schedules", "programs", "configurations"],
     "All interleavings of growth calls of any sizes which reach, touch or cross several fragment boundaries, on all storages and growth parameters, with capacity queries between the steps; and all sequential histories of growth, clear, reserve and conversions without failed growth.",
     "A few tests query the capacity after single-threaded growth by single pushes; which thread allocates how many fragments when several blocks cross boundaries at the same time is not observed.",
     [S + "grow.rs", S + "state.rs", S + "vec.rs", S + "new.rs", S + "exclusive.rs"],
     [("decision who allocates and how much", "src/state.rs write_permit, write_permit_n_items; src/grow.rs"), ("capacity and maximum capacity", "src/vec.rs capacity, maximum_capacity; src/new.rs")],
     None, ["results of capacity and maximum_capacity, ordered by call and return"])
prop("C20", "User functions are called exactly as needed",
     "Every operation calls the functions and iterators given by the user exactly as often as its meaning requires, in the order of the elements, and with the right arguments: the function of map, update, push_for_idx and extend_for_idx once per call (not at all if there is no such element or the call fails before) and with the value or position concerned; predicates of searches in order until the first match and never again; functions of iterator adaptors lazily, once for each element which the iterator reached, fold and reduce once per step, and the function of a fill once per index in ascending order. An iterator given for n items is asked for these n items only, so a lent one continues with the next item. This also holds while other threads compete for the same elements or positions.",
     ["schedules", "programs", "inputs"],
     "All operations which take a function or an iterator, on vecs and slices of all lengths, stopped at any step, and all interleavings with other threads which access the same elements or grow the vec at the same time.",
     "The tests pass pure functions and look at the results only; a function which is called twice under contention, in the wrong order, or for elements which are not needed does not change the results of pure functions.",
     [S + "elem.rs", S + "grow.rs", S + "iter_shorthands.rs", S + "mut_elem.rs", S + "partial_eq.rs", SL + "iter_shorthands.rs", SL + "mut_elem.rs", SL + "partial_eq.rs"],
     [("single use of the function inside the element's lock", "src/elem.rs map, update"), ("value creation after the reservation", "src/grow.rs push_for_idx, extend_for_idx, extend_n_items"), ("lazy adaptors", "src/iter_shorthands.rs, src/concurrent_slice/iter_shorthands.rs")],
     None, ["calls of user functions with their arguments"])
prop("C21", "No undefined behaviour within the documented contracts",
     "No use of the safe API, from any number of threads, and no use of the unsafe API within its documented contracts (unsafe reads while nobody writes to the elements; references and pointers for writing of which the caller is the only user) makes the crate perform an operation which the language leaves undefined: references and pointers stay valid and unaliased for as long as they may be used, also while the vec grows and its other elements are used; no memory is read before it is initialised or after it is freed; no invalid value of a type with restrictions on its bit patterns is produced; pointers for writing permit writing; and there are no data races. This holds for all types of elements, also those with padding, niches, interior mutability or of size zero.",
     ["programs", "schedules", "inputs"],
     "All programs over the public API which keep the contracts: threads over the safe API with panicking user functions, growth next to unsafe reads, single threads which hold references and raw pointers while they use the vec otherwise, followed by exclusive calls and conversions; all storages and kinds of element types.",
     "Undefined behaviour usually has no observable effect in a test: an aliasing rule broken by a cast, or a read of uninitialised memory which is ignored later, passes each test until an optimisation relies on it.",
     [S + "unsafe_api.rs", SL + "unsafe_api.rs", S + "elem.rs", S + "vec.rs", S + "grow.rs", S + "exclusive.rs", S + "common_traits/into_iter.rs"],
     [("references and pointers to values", "src/unsafe_api.rs, src/concurrent_slice/unsafe_api.rs"), ("locking of elements", "src/elem.rs"), ("exclusive access", "src/exclusive.rs")],
     None, ["undefined operations of executions under Miri"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
