"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
T = {
 "C01": "seeded deterministic simulation: panics injected at every kind of callback, element ownership ledger as oracle",
 "C02": "seeded deterministic simulation: simulated source iterators (early end, surplus, unbounded, lying, panicking) against a reference model",
 "C03": "seeded deterministic simulation: random request histories with destructor panics, refinement against a deque model",
 "C04": "seeded deterministic simulation: random request histories with clone panics, refinement against a deque-of-lines model",
 "C05": "seeded deterministic simulation: failing fmt sinks and cells, reference renderer and exact-prefix oracle",
 "C06": "seeded deterministic simulation: histories of in-place operations interrupted by panics, old-or-new oracle per element or matrix",
 "C07": "seeded deterministic simulation: stateful, scripted and panicking callbacks, recorded call history against row-major order",
 "C08": "seeded deterministic simulation: operations interrupted by panics then retried, exact finite-field reference model",
 "C09": "seeded deterministic simulation: baton scheduler interleaving real caller threads at callbacks, per-thread sequential reference",
 "C10": "seeded deterministic simulation: allocator refusing every request while operations run and are interrupted",
 "C11": "seeded deterministic simulation: randomly answering element code, callback budget, ownership ledger and selection oracle",
 "C12": "seeded deterministic simulation: scripted element answers and panics, recorded pairs and verdict against the conjunction",
}
NOTE = "Sampled search, not proof: every run executes the real rowcol code in debug and in release builds under a plan drawn from the seed (dimensions, operations, fault placements, schedule), each run exactly repeatable from its plan file. "
N = {
 "C01": "Trusts the ledger element type; all dimensions occur by sampling, every callback site of an operation is reachable as fault position through a fault-free rehearsal that counts them.",
 "C02": "Trusts the simulated source; both debug-assertion settings are run.",
 "C03": "Trusts the deque model; destructor panics may leak, never double drop.",
 "C04": "Trusts the deque-of-lines model.",
 "C05": "Trusts the reference renderer (written from the documented layout) and unicode-width for displayed widths; rows that render as no text at all are left unspecified.",
 "C06": "Trusts the shadow model; faults at every callback of an in-place operation.",
 "C07": "Trusts the call recorder.",
 "C08": "Elements are residues of a prime field, so every result has one exact answer; float rounding is out of scope (C20).",
 "C09": "Interleaving granularity is the callback: rowcol has no shared mutable state or synchronisation of its own to interleave finer; races inside rowcol on hidden statics are seen only through results.",
 "C10": "Only requests made on simulated threads while an operation runs are refused (null); an aborting request kills the simulated process and is attributed from outside. Harness bookkeeping inside callbacks is exempt.",
 "C11": "Termination is judged by a callback budget far above what the dimensions allow, plus a 20 s watchdog for loops without callbacks.",
 "C12": "Trusts the answer script; short-circuiting is allowed but not required.",
}
NA = {
 "C20": "Numerical accuracy is a pure function of the input values: no schedule, fault, clock, I/O or history can change it, so simulation with fault injection adds nothing to plain numerical analysis or random testing.",
 "C22": "A fact about which programs the compiler accepts; nothing runs, so there is nothing to simulate.",
 "C23": "Macro expansion is fixed at compile time for each written invocation; no execution, schedule or fault can influence it.",
}
P = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": []}
for p in P:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
    else:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": "exploration", "level_note": NOTE + N[i]})
m["notes"] = "No hooks in /repo: every source of nondeterminism rowcol depends on already enters through a generic parameter (element type, closure, iterator, sink), the global allocator or the caller's threads. Replay a reported failure with: python3 check.py replay <file> [-v]."
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
