#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: builds the property's harness from /repo and runs the seeded search."""
import json, os, shutil, subprocess, sys, tempfile, time
import vbuild
HERE = os.path.dirname(os.path.abspath(__file__))

# property -> (harness, mode, quick seconds, thorough seconds, rule, real/stub text, extra args)
from checks_table import CHECKS, ASSUME

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[pid]
    t0 = time.time()
    print(f"seed {seed} tier {tier}", flush=True)
    known_all = json.load(open(f"{HERE}/known_findings.json"))
    known = [k for k in known_all if k["property"] == pid and k.get("status") == "known"]
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    os.makedirs(f"{HERE}/replays", exist_ok=True)
    bd = tempfile.mkdtemp(prefix=f"simbuild-{pid}-")
    procs = []
    try:
        exe = vbuild.build(c["harness"], bd)
        tb = time.time() - t0
        kf = f"{bd}/known.txt"
        with open(kf, "w") as f:
            for k in known:
                f.write(k["class"] + "\t" + k["match"] + "\n")
        out = f"{bd}/out.json"
        rdir = f"{HERE}/replays/{pid}"
        shutil.rmtree(rdir, ignore_errors=True)
        budget = c["quick_s"] if tier == "quick" else c["thorough_s"]
        cmd = [exe, "--seed", str(seed), "--budget", str(budget), "--out", out, "--replays", rdir, "--known", kf, "--workers",
               "8", "--limit", str(c.get("limit", 60)), "--min-budget", "60"]
        if c.get("mode"):
            cmd += ["--mode", c["mode"]]
        if tier == "thorough":
            cmd += ["--thorough"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if not os.path.exists(out):
            sys.stderr.write(r.stderr[-3000:])
            print("check error: no result", r.returncode)
            return 3
        d = json.load(open(out))
        runs, wall = d["runs"], max(d["wall_s"], 1e-6)
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": d["distinct"],
                "rule": c["rule"] + " Distinct: different hash over the run's operations, file operations, faults, schedule switches and recorded history.",
                "samples": d["samples"][:3],
                "nontrivial_runs": d["nontrivial"],
                "oracle_comparisons": d["checks"],
                "runs_per_hour": round(runs / wall * 3600),
                "simulated_seconds": d["simtime_ns"] / 1e9,
                "lives": d["lives"], "crashes": d["crashes"],
                "scheduler_switches": d["switches"], "scheduler_steps": d["steps"],
                "faults_injected": {k: v for k, v in d["faults"].items() if v},
                "probes": d["probes"],
                "determinism_pairs": d["determinism_pairs"],
                "determinism_mismatches": d["determinism_mismatches"],
                "internal_errors": d["internal_errors"],
                "known_finding_hits": d["known_hits"],
                "real_code": c["real"], "stubs": c["stubs"],
                "build_s": round(tb, 1),
            },
            "assumptions": ASSUME + c.get("assume", []),
            "wall_s": round(time.time() - t0, 1),
            "violations": 1 if d["violation"] else 0,
        }
        if d["violation"]:
            ev["coverage"]["violation"] = d["message"][:600]
            ev["coverage"]["minimisation_runs"] = d["min_tries"]
        json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
        for k, seen in zip(known, d["known_seen"]):
            print(f"KNOWN-FINDING: property={pid} {k['what']}" + ("" if seen else " (listed; not met in this run)"))
        print(f"{runs} runs, {d['distinct']} distinct non-trivial, {d['checks']} comparisons, {wall:.0f}s; "
              f"determinism {d['determinism_pairs']}/{d['determinism_mismatches']}")
        if d["violation"]:
            if not d["gate_ok"]:
                print("check error: a violation did not replay:", d["message"])
                return 3
            print(d["message"][:1500])
            print(f"VIOLATION property={pid} replay={d['replay']}")
            return 1
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-3000:])
            print("check error: harness exit", r.returncode)
            return 3
        return 0
    finally:
        shutil.rmtree(bd, ignore_errors=True)

sys.path.insert(0, HERE)
sys.exit(main())
