#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below and properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
MODEL = "stateful property-based testing: random histories against a reference model (proptest, shrinking), tracking allocator and item ledger"
T = {}
N = {}
for i in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C18"]:
    T[i] = MODEL
    N[i] = "Random histories of up to 100 calls on up to 16 handles, both families, 11 item types; after every call all handles, items and buffers are compared with the model. Run with and without debug assertions. Absence is not established."
T["C12"] = "differential property-based testing against plain slices (proptest), plus histories against the model"
N["C12"] = "Generated contents and derivations; answers of handles compared with those of std slices."
T["C13"] = "property-based testing with boundary lengths and part counts against an arithmetic model (proptest), plus zero-sized histories"
N["C13"] = "Lengths up to usize::MAX, part counts up to 2^63; iterators are walked a bounded number of steps."
T["C17"] = MODEL + "; CPU-time bound per history"
N["C17"] = "Single-threaded histories."
T["C21"] = "random histories executed under Miri (Tree Borrows) by replaying the recorded calls; the same histories natively against the model"
N["C21"] = "About 500 histories per quick run under the interpreter (24000 thorough), millions natively."
SCHED = "random concurrent programs under generated schedules: the sources compiled against instrumented atomics and Arc, a controlled scheduler (random, PCT, sparse preemptions), shrinking; "
SN = "About 6 million program/schedule pairs per quick run (240 million thorough), up to 3 threads and 14 calls each, in a model of C11 with vector clocks; plus a few hundred programs on real threads under Miri. No exhaustive exploration."
T["C14"] = SCHED + "oracle: item and buffer ledger; random threaded programs under Miri"
T["C15"] = SCHED + "oracle: no two overlapping accesses, one of them exclusive; random threaded programs under Miri"
T["C16"] = SCHED + "oracle: sequential reference semantics once threads are done and for calls nothing overlaps"
T["C17"] += "; " + SCHED + "oracle: bounded steps under a fair schedule"
T["C22"] = SCHED + "oracle: happens-before by vector clocks, stale reads; random threaded programs under Miri with its race detector"
for i in ["C14", "C15", "C16", "C17", "C22"]:
    N[i] = SN
T["C19"] = "property-based testing at compile time: Send and Sync of every handle over generated item types and generic contexts, differentially against the standard counterparts"
N["C19"] = "About 2400 concrete item types and 15000 generic contexts per quick run (60000 and 400000 thorough)."
T["C20"] = "generated programs over the public API given to the compiler, differentially against two reference crates with the same signatures over standard owners; programs are shrunk by line"
N["C20"] = "About 20000 generated programs and 9652 enumerated signatures per quick run (1.2 million thorough); programs on which the two reference owners (with and without a destructor) differ are not judged."
T["C23"] = "stateful property-based testing of re-entrant calls: random histories whose items run further generated calls from their destructors, clones, comparisons and source iterators (proptest, and generated multi-threaded programs under generated schedules with re-entrant destructors, shrinking), against the item ledger and per-handle contents"
N["C23"] = "Both families; with threads (ArcSlice) under generated schedules, destructors only, nesting up to 3 deep. Histories: one thread, nesting up to 4 deep, buffers of up to 8 items and 12 handles; between outermost calls all handles and items are compared with the model."
T["C24"] = "metamorphic property-based testing: the same random history on a short and on a long slice, allocations of every call compared and bounded (proptest, shrinking)"
N["C24"] = "Both families, six item types, up to 14 handles, slices of up to 20000 items, part counts up to 2^63; allocations are counted, running time is not (walks over huge lengths are C13's)."
claimed = sorted(T)
m = {"version": 1, "setup_cmd": "python3 /verif/run.py setup",
     "checks": [{"property": i, "quick_cmd": "python3 /verif/run.py check %s --tier quick" % i, "thorough_cmd": "python3 /verif/run.py check %s --tier thorough" % i,
                 "technique": T[i], "level": "exploration", "level_note": N[i]} for i in claimed],
     "not_applicable": [{"property": i, "reason": "machinery under construction"} for i in ids if i not in claimed]}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
