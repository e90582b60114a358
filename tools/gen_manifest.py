#!/usr/bin/env python3
"""Write MANIFEST.json from properties and tools/checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "the simulated check for this property is not built yet"})
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 tools/run_check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 tools/run_check.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": c.get("technique", "deterministic simulation with fault injection (seeded schedule/fault search on the real code)"),
                   "level": c["level"],
                   "level_note": c.get("note", "Seeded exploration: no violation in the sampled schedules, faults and inputs; not a proof. ") + " Assumes: " + " ".join(c["assumptions"])})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "JPP_SIMULATION",
               "enable": "tools/build.py compiles every source of /repo with -DJPP_SIMULATION=1; the default build of /repo leaves it undefined",
               "source_commits": ["2f08a39"]},
     "notes": "One guarded hook (the page size of util::memory managers can be chosen by the simulator). Every other seam is the C library interface (pthread, malloc, file, stream and clock functions are defined by the simulator and linked in front of libc) plus compiler-inserted memory access callbacks."}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
