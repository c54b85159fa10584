#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = set(os.environ.get("SKIP", "").split())
T = {
 "C01": "online monitor: real parse/serialise runs judged against an independent script reader",
 "C02": "online monitor with panic capture, allocation accounting, memory and CPU limits on hostile bytes; the same monitor under AddressSanitizer",
 "C16": "online monitor with panic capture, allocation accounting, memory and CPU limits on hostile documents; the same monitor under AddressSanitizer",
 "C11": "online monitor against an independent big-integer ECDSA, offline comparison of both back ends' event logs, and the same monitor under AddressSanitizer and C undefined-behaviour traps",
 "C19": "runtime monitor over generated script programs: compiled with the real macro, recorded operations compared with the written ones",
 "C20": "runtime monitor: recorded annotations checked against an executed stack on an independent interpreter; mutants must be rejected by the compiler",
 "C23": "online monitor of the library's own structures plus randomly generated derive structures compiled with the real derive macro, against an independent encoder",
 "C27": "ThreadSanitizer (Rust, its standard library and the C curve library instrumented) and an offline comparison of the threads' event logs with one thread alone",
 "C28": "online monitor running every operation on a small stack with allocation accounting on deep and shared provenance, against independent hashes",
 "C30": "offline comparison of the expansions recorded from repeated, reordered, concurrent and differently furnished compilations",
 "C31": "system call tracing, a preloaded watch on environment and clock, and offline comparison of the event logs of many processes making the same calls",
 "C32": "online monitor of refused calls whose faults are known, with either curve back end",
 "C33": "leak monitor: the counting allocator and the C library's heap account read around histories of calls, with either curve back end",
 "C26": "runtime monitor of the real macro and compiler over a type matrix and random programs: the compiler's event log must reject exactly the ill-typed functions",
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] in SKIP:
        continue
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": T.get(i, "online runtime monitor with an independent reference oracle over generated and hostile workloads"),
        "level": "exploration",
        "level_note": "Held on every execution the run produced (counts in the evidence file); nothing is claimed about inputs not run. Trusts the independent oracles in harness/src/oracle (self-tested on published vectors) and the debug build (overflow checks on).",
    })
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo are needed: everything is observed at the public API. Repairs are the 'fix:' commits listed in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
