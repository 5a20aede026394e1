#!/usr/bin/env python3
"""Regenerate MANIFEST.json from props.py and properties.jsonl."""
import json, os
import props as P

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
    "C15": "a compile-time rule: nothing executes, so there is no execution to simulate",
}
NOTE = {
    "checked": "seeded random search over histories of a library built with its optional checks; the abort of a failed check is replaced by a recorded event; not a proof. Trusts sim/model.hpp.",
    "meter": "seeded random search over counting histories delivered by a faulty network and stopwatches on simulated time; not a proof. Trusts the integer model in sim/meter.cpp.",
    "fields": "seeded random search over storage faults on calendar fields and month names; not a proof. Trusts the calendar in sim/model.hpp.",
    "world": "seeded random search: the property held on every simulated run explored, with an independent integer/calendar model as oracle; not a proof. Trusts sim/model.hpp and the compiler.",
    "disk": "seeded random search over write/sync/crash schedules of a simulated disk; not a proof. Trusts the simulated disk's crash model and sim/model.hpp.",
    "medium": "seeded random search over storage faults, with guard pages and sanitizers deciding containment and an independent reference reader deciding meaning; not a proof.",
    "stream": "seeded random search over deliveries of a byte stream; not a proof. Trusts the record model in sim/records.hpp.",
    "ambient": "seeded random search over interleavings of library calls with tasks that change errno and locales; not a proof. Trusts glibc's locale functions.",
    "oom": "seeded random search over allocation-failure points; the simulator owns the allocator of the whole process (operator new and the malloc family, including calls made inside libc and libstdc++); not a proof.",
    "threads": "seeded random search over thread interleavings at instrumented memory accesses of library code and inlined standard-library code; not a proof.",
}
TECH = {
    "checked": "deterministic simulation of clocks and crashes in the checked build (seeded search)",
    "meter": "deterministic simulation of clocks, network and crashes (seeded search)",
    "fields": "deterministic simulation with storage fault injection (seeded search, sanitizers)",
    "world": "deterministic simulation of clocks, network and crashes (seeded search)",
    "disk": "deterministic simulation of a crashing disk (seeded search)",
    "medium": "deterministic simulation with storage fault injection (seeded search, sanitizers)",
    "stream": "deterministic simulation of a byte stream with short reads and early EOF (seeded search)",
    "ambient": "deterministic simulation of interleaved tasks with ambient-state faults (seeded search)",
    "oom": "deterministic simulation with allocation-failure injection (seeded search)",
    "threads": "deterministic thread scheduling at instrumented accesses (seeded search)",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in P.PROPS:
        s = P.PROPS[i]["scenario"]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH[s], "level": "exploration", "level_note": NOTE[s]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
m["notes"] = "No hooks in /repo: every seam the simulator needs (clock values, text, streams, locales, operator new, thread switch points) is outside the library or inserted by the compiler. 'python3 check.py --replay FILE' replays a violation; 'python3 check.py --determinism' proves that a seed fixes the execution."
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
