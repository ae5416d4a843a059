#!/usr/bin/env python3
"""Builds a simulation harness from /repo's working tree:  vbuild.py HARNESS OUTDIR"""
import os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
INC = ["-I" + REPO + "/include", "-isystem", "/usr/include/concurrentqueue", "-isystem",
       "/usr/include/concurrentqueue/moodycamel", "-isystem", "/usr/include/eigen3", "-I" + HERE + "/shim"]
BASE = ["-std=gnu++20", "-g1", "-pthread", "-DSPDLOG_FMT_EXTERNAL", "-DFMT_SHARED", "-DALAYA_LASER_USE_LIBAIO=1", "-mavx2", "-mfma",
        "-fno-omit-frame-pointer", "-DNDEBUG", "-w"]
TSAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"]
MEMSYMS = [a for f in ("memcpy", "memmove", "memset") for a in ("--redefine-sym", f"{f}=sim_{f}")]
LIBS = ["-lspdlog", "-lfmt", "-lpthread", "-ldl"]

def spec(name, src=None, units=(), tsan=False, flags=(), libs=(), opt="-O1"):
    return dict(name=name, src=src or [name + ".cpp"], units=list(units), tsan=tsan, flags=list(flags), libs=list(libs), opt=opt)

HARNESSES = {h["name"]: h for h in [
    spec("recovery", units=["sched"], tsan=True),
    spec("diskcol"),
    spec("diskmt", units=["sched"], tsan=True, flags=["-I" + REPO + "/python/include"]),
    spec("pool", units=["sched"], tsan=True),
    spec("slots", units=["sched"], tsan=True),
    spec("gate", units=["sched"], tsan=True),
    spec("publish", units=["sched"], tsan=True),
    spec("graphs", units=["sched"], tsan=True, flags=["-fopenmp"], libs=["-lrocksdb"]),
    spec("collection", units=["sched"], tsan=True, flags=["-fopenmp", "-I" + REPO + "/python/include"], libs=["-lrocksdb"]),
    spec("graphupd", units=["sched"], tsan=True, flags=["-fopenmp"], libs=["-lrocksdb"]),
    spec("scalars", units=["sched"], tsan=True, libs=["-lrocksdb"]),
    spec("readers", src=["readers.cpp", "readers_tp.cpp"], units=["sched", "aio"], tsan=True),
    spec("uring", units=["sched", "aio", "uring"], tsan=True),
    spec("pageio", units=["sched", "aio", "uring"], tsan=True),
    spec("diskann", units=["sched", "aio", "uring"], tsan=True),
    spec("laser", units=["sched", "aio"], tsan=True, flags=["-fopenmp", "-DALAYA_ENABLE_LASER=1"]),
    spec("vamfile", units=["sched"], tsan=True, flags=["-fopenmp"]),
    spec("coros", units=["sched"], tsan=True),
]}

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout[-6000:] + "\n")
        raise SystemExit(3)

def build(name, out):
    h = HARNESSES[name]
    os.makedirs(out, exist_ok=True)
    jobs, objs = [], []
    for u in ["core", "fs", "misc"] + h["units"]:
        o = f"{out}/rt_{u}.o"
        objs.append(o)
        jobs.append(["g++", "-std=gnu++20", "-O2", "-g1", "-pthread", "-fno-builtin-malloc", "-fno-threadsafe-statics", "-fno-omit-frame-pointer", "-w", "-c", f"{HERE}/sim/{u}.cpp", "-o", o])
    for s in h["src"]:
        o = f"{out}/{os.path.basename(s)}.o"
        objs.append(o)
        jobs.append(["g++"] + BASE + [h["opt"]] + h["flags"] + (TSAN if h["tsan"] else []) + INC + ["-c", f"{HERE}/h/{s}", "-o", o])
    jobs.sort(key=lambda j: 0 if "/h/" in j[-3] else 1)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    if h["tsan"]:
        for s in h["src"]:
            run(["objcopy"] + MEMSYMS + [f"{out}/{os.path.basename(s)}.o"])
    exe = f"{out}/{name}"
    run(["g++", "-rdynamic", "-pthread", "-o", exe] + objs + h["libs"] + LIBS)
    return exe

if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2]))
