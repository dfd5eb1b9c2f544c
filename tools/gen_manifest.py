#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
 "C01": "stateful property-based testing: random histories against a reference model, everything read back",
 "C02": "model-based property testing of typed queries (135 query shapes) over random histories, rows compared as multisets",
 "C03": "model-based and differential property testing of dynamic queries (rows, columns, typed query) over random histories",
 "C04": "stateful property-based testing of id allocation (bare allocator and world) with stale-id operations, and of 2^32 reuses of a slot in an optimised build",
 "C05": "stateful property-based testing with a destructor ledger compared with the model after every step",
 "C06": "metamorphic property testing: the same component set assembled by several routes, with abandoned builders in between",
 "C07": "stateful property-based testing of randomly laid out run-time components: byte patterns, alignment, address ranges, destructor ledger",
 "C08": "property-based testing of lock schedules owned by the harness (threads that hold queries) against a conflict model",
 "C09": "stateful property-based testing with refused operations injected anywhere, whole state compared with the model afterwards",
 "C10": "stateful property-based testing mixing typed and id-based access against one model",
 "C11": "stateful property-based testing of UntypedVec against typed vectors, with destructor ledger and AddressSanitizer",
 "C12": "stateful property-based testing with location invariants checked over all live entities",
 "C13": "stateful property-based testing of entities as components, including self, mutual attachment and slot reuse",
 "C14": "differential property testing: two worlds in lockstep with unrelated worlds in between",
 "C15": "property-based fuzzing under AddressSanitizer and a layout-tracking allocator, under MemorySanitizer, and of short histories under Miri",
 "C16": "stateful property-based testing with panicking destructors injected at random positions",
}
N = "Random search of bounded histories: no violation in the cases generated, no proof. Trusts the harness's reference model, proptest's generators, the nightly toolchain and AddressSanitizer."
E = {
 "C08": " Schedules are sequential orders of obtaining and dropping queries, owned by the harness; a query counts as never granted once its thread has slept 5 s in the lock with nothing left to release.",
 "C15": " Uses of uninitialised memory are seen by MemorySanitizer on 16000 of the cases, aliasing only on the short histories run under Miri (Tree Borrows).",
 "C14": " Differences that need another process or machine are only seen through address and hash randomisation between the two worlds.",
}
checks = [{
  "property": p,
  "quick_cmd": f"./check.sh {p}",
  "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
  "technique": t,
  "level": "exploration",
  "level_note": N + E.get(p, ""),
} for p, t in T.items()]
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": [],
     "notes": "No hooks: every check uses the public API. KNOWN_FINDINGS.txt lists the defects repaired by fix: commits; none is left unrepaired."}
open("/verif/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
