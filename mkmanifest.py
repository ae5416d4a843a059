#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_table.py and properties.jsonl."""
import json, os
from checks_table import CHECKS
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
NA = {"C26": "pure functions of their input: no schedule, clock, I/O, fault or history for a simulator to decide"}
NA_DEFAULT = "not yet covered by a harness"
m = {"version": 1, "setup_cmd": "true",
     "checks": [dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough",
                     evidence_file=f"evidence/{p['id']}.json", technique=CHECKS[p["id"]]["technique"],
                     level=CHECKS[p["id"]].get("level", "exploration"), level_note=CHECKS[p["id"]]["note"])
                for p in props if p["id"] in CHECKS],
     "not_applicable": [dict(property=p["id"], reason=NA.get(p["id"], NA_DEFAULT)) for p in props if p["id"] not in CHECKS],
     "notes": "No hooks in /repo: all seams are interposed below the code (libc, pthreads, atomics instrumentation, io_uring, libaio, OpenMP). replay.py FILE re-executes a replay file."}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
