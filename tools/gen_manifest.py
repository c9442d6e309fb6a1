#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/gen_manifest.py)."""
import json, os
VAL = "explicit-state enumeration of a reference model, every state replayed on the implementation in all integer types"
TECH = {
    "C01": "explicit-state exploration of the string state machine against plain text",
    "C02": "explicit-state exploration of the string state machine, executed under Miri",
    "C03": VAL, "C04": VAL, "C05": VAL, "C06": VAL, "C07": VAL, "C08": VAL, "C09": VAL, "C10": VAL, "C11": VAL,
    "C12": "enumeration of all combinator trees up to a depth, compared with the flattened-list model",
    "C13": "enumeration of all states, both transitions (fallible, infallible) compared",
    "C14": "synchronous product of the executions in all integer types over all enumerated states",
    "C15": "enumeration of model states and push histories against the build without alloc",
    "C16": "enumeration of the state space with collision detection over all labels",
    "C17": "enumeration of states and push histories under a counting allocator",
    "C18": "stateless model checking of the implementation: all call sequences up to a depth, partial-order exploration over tracked accesses to shared memory, and every one-preemption schedule at instruction granularity",
    "C19": "enumeration of all wrapper stacks up to a depth, results compared",
    "C20": "synchronous product of paired systems over all enumerated states",
    "C21": "bounded exhaustive exploration with panic, overflow, allocation and hang monitors",
    "C22": "enumeration of all combinator trees up to a depth and every index, compared with the flattened-list model",
    "C23": "synchronous product of the native execution and interpreted executions on a 32-bit and a big-endian target over all enumerated states",
    "C24": "enumeration of states and histories under an allocator that keeps the balance, every case that does not balance repeated",
    "C25": "enumeration of all pairs of configurations of a type, equality checked as an equivalence and against the labels of both",
}
NOTE = {
    "C02": "Every state of the nominal string (direction, building style, fill level) times every operation, plus second operations near the boundaries and labels of every distinct algorithm, is executed by Miri, with and without alloc. Trusts Miri; Tree Borrows on a subset (all in thorough). Leaks and panics are not judged here.",
    "C23": "Each state is run natively and by Miri for i686 and s390x and the results compared; the correctness of the native results is what the other properties establish. Bounds are smaller than elsewhere since interpretation is slow. Trusts Miri.",
    "C18": "All call sequences, first calls and re-entrant calls within the bounds; every write of every call to memory that outlives it is tracked, and dependent calls are explored in all orders of their shared accesses up to a preemption bound; every schedule with one preemption at instruction granularity on the real compiled code. Sequentially consistent executions on x86-64 only; weak memory effects are not explored.",
}
DEF = "Exhaustive within the bounds stated in the evidence file (and DESIGN.md), on the real code; nothing is claimed beyond them. Trusts the reference model or relation written from the property, rustc and this machine."
checks = []
for i in range(1, 26):
    id = f"C{i:02}"
    checks.append({"property": id, "quick_cmd": f"./run.sh {id} quick", "thorough_cmd": f"./run.sh {id} thorough",
                   "evidence_file": f"evidence/{id}.json", "technique": TECH[id], "level": "model_checking", "level_note": NOTE.get(id, DEF)})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks use the public interface only. ./replay.sh <file> re-runs the case a VIOLATION line names. Known findings: known-findings.txt."}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
