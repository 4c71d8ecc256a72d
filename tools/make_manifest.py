#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C30": "A pure function of its input: coding and decoding one sequence involves no schedule, clock, I/O, allocation or interleaving for a simulator to decide (exercised indirectly by every workload through the monomials).",
 "C31": "A pure function of its input: conversions of numbers have no schedule, fault or interleaving in them.",
 "C32": "A pure function of its input; the parts with faults or sharing in them (allocation failure, sharing across threads) are in C06 and C09.",
 "C33": "Algebraic identities of pure functions; their behaviour under concurrency and failures is decided by C03 and C09.",
 "C34": "Algebraic identities of pure functions; multiplication and addition under schedules and faults are decided by C01, C09-C11 and C18.",
 "C35": "A pure function of the monomial; no schedule or fault can change it. The consequence that matters in parallel multiplication is decided by C01.",
 "C36": "Decided at compile time: there is no execution to simulate.",
 "C37": "A pure function of the seed.",
 "C38": "A pure function of its input; that overflow in the parallel path is reported is decided by C21.",
}
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --selftest",
 "hooks": {"guard": "none", "enable": "No hooks were added to /repo: the checks compile its unchanged sources with their own TBB and mp++ headers first in the include path, memory-access instrumentation (-fsanitize=thread, linked against the simulator instead of ThreadSanitizer), emulated thread-locals, and linker wraps of the pthread functions.", "source_commits": []},
 "checks": [], "not_applicable": [],
 "notes": "Deterministic simulation: one process, one real thread; fibers are scheduled by a seeded scheduler at every instrumented access, atomic, lock and task operation; allocation, coefficient, stream and platform faults are injected from the same seed. See DESIGN.md.",
}
for i in ids:
    if i in CHECKS:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": CHECKS[i].get("technique", "deterministic simulation with seeded schedules and fault injection"),
            "level": "exploration",
            "level_note": CHECKS[i].get("note", "Seeded search over schedules, splits and faults; samples, does not enumerate. " + CHECKS[i]["rule"]),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check registered (yet): see DESIGN.md.")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "claimed")
