#!/usr/bin/env python3
"""Writes MANIFEST.json. The properties with a simulation are listed in CHECKS."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
 "C01": ("exploration", "two to four simulated goroutines over shared parsers, trees and errors; a seeded scheduler switches at statements, each result compared with the same call made alone, and the race detector watches the switches",
   "Seeded schedules at statement granularity on one processor, race detector on; an interleaving inside one statement is seen only as a reported race. Trusts the Go race detector and the sequential rerun."),
 "C02": ("exploration", "seeded histories of operations with failing and panicking callbacks and failing writers; each result compared with the same operation in a fresh process and every earlier value re-rendered",
   "Seeded histories; trusts the fresh process and the harness's renderings of values."),
 "C03": ("exploration", "each operation script repeated under different simulated map orders, hash seeds, random streams and in a second process with other addresses, working directory, environment and time zone",
   "Seeded scripts; map order, hash seeds, select and pool choices come from a seeded stream, the address layout from the second process."),
 "C10": ("exploration", "failing parses and compilations made twice, one error printed at once and its twin after simulated activity (scanner reuse, other parses, collections, other map orders), against the causes a reference interpreter names",
   "Seeded grammars, inputs, callback outcomes and activities; reports nested more than 80 levels deep are not printed. Trusts the reference interpreter."),
 "C08": ("fault_enumeration", "simulated writer failing at every write call of an unparse, seeded trees",
   "Every write call of each unparse gets each kind of failure; trees and grammars are seeded samples. Trusts the simulated writer and the parser that produced the tree."),
 "C04": ("fault_enumeration", "host callbacks that fail, stop, hand back input or parse, drawn per call by a reference interpreter that then predicts every call, its position and bindings, and the result",
   "Seeded grammars, inputs and callback outcomes; trusts the reference interpreter of the grammar semantics (sim/harness/model.go)."),
 "C05": ("fault_enumeration", "adversarial random source, parse history and nested parses against a reference interpreter of commitment",
   "Seeded grammars with commitments, random sources of four kinds (constant to pseudo-random); trusts the reference interpreter."),
 "C11": ("exploration", "simulated steps bounded by the reference interpreter's own search, with inert and failing callbacks; stack overflow caught in worker processes",
   "Termination is judged as at most 1000 instrumented statements per step of the reference search."),
 "C06": ("fault_enumeration", "imports resolved through a simulated file system: missing files, failing opens, short, failing and stalled reads, failing closes at every I/O step",
   "Every I/O step of each fault-free run is failed in turn, then combinations are drawn; import graphs (chains, diamonds, cycles, repeats) are seeded. Trusts a textual reference expansion of the imports."),
 "C07": ("fault_enumeration", "the command-line tool's own entry point over simulated files, stdin and stdout with faults at every I/O step, each run re-drawing map order and random numbers",
   "Every I/O step of each fault-free run is failed in turn, then combinations are drawn; commands, grammars and inputs are seeded. Runs in scratch directories."),
 "C09": ("fault_enumeration", "visitors that abort, exit the node or decline at prescribed calls, over the library's walker and walkers generated from the working tree",
   "Every visitor call of walks of up to 40 calls is stopped both ways, then combinations with absent visitors are drawn; five walkers, seeded trees."),
}
PURE = "a pure function of its input: no schedule, fault, clock, randomness or history enters, so simulation has nothing to decide; "
NA = {
 "C12": PURE + "what simulation needs of the matching semantics (callback failures, commitment) is decided under C04, C05 and C11 against the reference model.",
 "C13": PURE + "its independence of history and of the runtime's randomness is decided under C02 and C03.",
 "C14": PURE + "the stability of the verdict is decided under C03.",
 "C15": PURE + "the fixed point is asserted at package initialisation.",
 "C16": PURE + "generated walkers, where a fault enters (visitor stops), are decided under C09.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1,
 "setup_cmd": "./check --build-only C08 && ./check --build-only C09 && ./check --build-only C01",
 "checks": [], "not_applicable": [],
 "notes": "All checks are one simulator (sim/) built over /repo's working tree by a build overlay (tools/prep): no hook is committed in /repo. VERIF_SEED selects the run sequence, VERIF_TIER the budget; ./check --replay FILE replays a violation."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        lv, tech, note = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
          "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation: " + tech, "level": lv, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
