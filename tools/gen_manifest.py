#!/usr/bin/env python3
"""Writes MANIFEST.json (edit here, then run)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
conc = "property-based testing: generated multi-threaded programs and schedules (incl. weak-memory reads) on a deterministic runtime, {}; shrinking to a replay file"
seq = "property-based testing: model-based generation of operation histories, {}; shrinking to a replay file"
T = {
    "C01": conc.format("oracle over returned positions and final contents"),
    "C02": conc.format("oracle over length and visibility observations ordered by real time and happens-before"),
    "C03": conc.format("vector-clock race detector and shadow memory as oracle"),
    "C04": conc.format("linearizability of element histories as oracle"),
    "C05": conc.format("linearizability of groups of elements connected by swaps as oracle"),
    "C06": seq.format("differential against a list after every step"),
    "C07": seq.format("differential of nested slices, splits and chunks against windows of a list"),
    "C08": conc.format("registry of value instances and heap blocks as oracle; plus sequential histories"),
    "C09": conc.format("invariant over addresses of elements; plus sequential histories"),
    "C10": conc.format("oracle over capacities, failed growth calls and later contents; plus sequential histories"),
    "C11": conc.format("injection of panics into the n-th call of user code, oracles over later contents and progress"),
    "C12": seq.format("round trips against a list, and lockstep comparison of three storages"),
    "C13": conc.format("suspension of a thread inside user code, step-based detection of livelock and deadlock"),
    "C14": conc.format("every visit of a bulk operation is an operation in the linearizability check of its element, plus completeness"),
    "C15": conc.format("oracle over values behind unsafe reads, race detector"),
    "C16": "property-based testing: generated element types compiled by rustc, differential of Send and Sync against a structural model",
    "C17": seq.format("differential against a list with capacity and ownership invariants, incl. multi-threaded phases"),
    "C18": "property-based testing: generated programs compiled by rustc, differential of acceptance against a borrow model; shrinking by statement removal",
    "C19": conc.format("oracle over capacities as a function of the requested positions; plus sequential histories"),
    "C21": "property-based testing: generated programs over the public API executed by the Miri interpreter, which judges every access by the rules of the language; shrinking by removal of threads and operations to a replay file",
    "C20": seq.format("oracle over the recorded calls of user functions and iterators; plus multi-threaded programs"),
}
rt = "Trusts: the runtime in harness/rt (scheduler, memory model approximated by per-location store histories with release/acquire clocks; no speculation of future writes), rustc's thread sanitizer pass to report all accesses, and the oracles. Small programs (up to 5 threads, up to 8 operations each), sampled."
sq = "Sampled histories of up to 16 steps; trusts the model in harness/src/seq.rs and the shadow memory of harness/rt."
ty = "Sampled programs; trusts rustc."
mi = "Sampled small programs; trusts Miri (Tree Borrows as the aliasing model)."
checks = []
for i in ids:
    note = mi if i == "C21" else ty if i in ("C16", "C18") else sq if i in ("C06", "C07", "C12", "C17") else rt
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough", "technique": T[i], "level": "exploration", "level_note": "No counterexample among the generated cases. " + note})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo are needed: instrumentation comes from the compiler (see DESIGN.md). known_findings.txt lists the repaired defects."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
