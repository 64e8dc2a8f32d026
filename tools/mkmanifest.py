#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan of check.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
NA = {"P25": "sequential in-memory data structures: encoding, copying and reading values back has no thread, clock, I/O, crash or second party, so there is no schedule or fault for a simulator to decide; "
             "deterministic simulation would degenerate into plain input fuzzing. What of it crosses the network is covered by P01 (round trip of every value type through a session) and P12 (decoding hostile bytes, re-encoding what was accepted)."}
NOTE = ("Seeded search over schedules and faults with the real library code under a simulated kernel; a clean run means that no violation occurred in the runs counted in the evidence, not that none exists. "
        "Trusts the simulated kernel's model of Linux sockets, poll, timers, eventfd and pthreads, and sequentially consistent memory (P23 reports unsynchronised accesses). ")
EXTRA = {
    "P20": "Memory, descriptors and threads are accounted per simulated process; the runs end with everything destroyed and nothing may be left.",
    "P23": "Happens-before race detection (vector clocks per 8-byte granule, 4 last accesses) on the library's own heap accesses in all scenarios; memory that never leaves a stack or static storage is not watched.",
    "P12": "Hostile streams come from a grammar-aware mutator around valid encodings plus raw bytes; AddressSanitizer and UndefinedBehaviorSanitizer judge memory, the simulated heap bounds allocation.",
}
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 build.py",
     "hooks": {"guard": "none", "enable": "nothing is added to /repo: the checks compile its sources as they are and put the simulator behind the C library at link time (ld --wrap)", "source_commits": []},
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Replay a violation: python3 replay.py <replay file>. Known findings: known_findings.txt. VERIF_SEED, VERIF_TIER, VERIF_TIME (seconds of search) and VERIF_JOBS are honoured."}
for p in props:
    if p["id"] in NA:
        continue
    sc = ", ".join(sorted(check.PLAN[p["id"]][0]))
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                        "technique": "deterministic simulation with fault injection (seeded search; scenarios: %s)" % sc if len(check.PLAN[p["id"]][0]) < 12 else "deterministic simulation with fault injection (seeded search over all scenarios)",
                        "level": "exploration", "level_note": NOTE + EXTRA.get(p["id"], "")})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
