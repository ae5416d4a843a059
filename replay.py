#!/usr/bin/env python3
"""replay.py FILE: rebuilds the harness and re-executes a replay file (exit 1: the violation happened again)."""
import os, subprocess, sys, tempfile, shutil
import vbuild
lines = open(sys.argv[1]).read().split("\n")
name = [l.split()[1] for l in lines if l.startswith("harness ")][0]
bd = tempfile.mkdtemp(prefix="simreplay-")
try:
    exe = vbuild.build(name, bd)
    sys.exit(subprocess.run([exe, "--replay", sys.argv[1]]).returncode)
finally:
    shutil.rmtree(bd, ignore_errors=True)
