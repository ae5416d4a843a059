#!/usr/bin/env python3
"""seed.py ID [--notest] [--nocheck] [--tier T]: confirm a planted bug: demo clean, apply, build, stable tests, demo, checks, undo.
seed.py --new ID PROP < needs|what : store /repo's current diff as seeded/ID/patch.diff (and undo it)"""
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def undo(): sh("git -C /repo checkout -- .")
if sys.argv[1] == "--new":
    d = f"{V}/seeded/{sys.argv[2]}"; os.makedirs(d, exist_ok=True)
    diff = sh("git -C /repo diff").stdout
    assert diff.strip(), "no diff"
    open(d + "/patch.diff", "w").write(diff); undo()
    needs, what = sys.stdin.read().strip().split("|", 1)
    json.dump({"property": sys.argv[3], "needs": needs.strip(), "what_it_breaks": what.strip()}, open(d + "/meta.json", "w"), indent=1)
    sys.exit()
i = sys.argv[1]; d = f"{V}/seeded/{i}"; m = json.load(open(d + "/meta.json"))
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
r = sh(f"bash {d}/demo.sh", cwd=R, timeout=300); print("demo clean:", r.returncode, r.stdout[-300:].strip() if r.returncode else "")
try:
    r = sh(f"git -C {R} apply {d}/patch.diff"); assert r.returncode == 0, r.stdout
    if "--notest" not in sys.argv:
        r = sh("bash /opt/vp/build.sh"); print("build:", r.returncode, r.stdout[-500:] if r.returncode else "")
        sh("bash /opt/vp/test.sh /tmp/seed-out.json")
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o = set(json.load(open("/tmp/seed-out.json"))["passed"])
        print("stable tests missing:", len(b - o), sorted(b - o)[:3])
    r = sh(f"bash {d}/demo.sh", cwd=R, timeout=300); print("demo patched:", r.returncode, r.stdout[-300:].strip())
    if "--nocheck" not in sys.argv:
        for p in [m["property"]] + [a for a in sys.argv[2:] if a.startswith("C")]:
            import time; t = time.time()
            r = sh(f"python3 check.py {p} quick", cwd=V); print(f"check {p}: {r.returncode} {time.time()-t:.0f}s", r.stdout[-600:].strip())
finally: undo()
