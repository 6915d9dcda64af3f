#!/usr/bin/env python3
"""Prepares the build folder and checks that the tools and the specifications are usable."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "build", "tlc"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
for t in ("g++", "java"):
    if not shutil.which(t):
        sys.exit(f"{t} is missing")
sys.path.insert(0, os.path.join(V, "lib"))
from vlib import JAR, SPEC
mods = [f for f in sorted(os.listdir(SPEC)) if f.endswith(".tla") and "_TTrace_" not in f]
r = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY", *mods], cwd=SPEC, capture_output=True, text=True)
if r.returncode or "*** Errors" in r.stdout:
    sys.exit("a specification does not parse:\n" + r.stdout[-3000:])
print("ready:", len(mods), "specification modules")
