#!/usr/bin/env python3
"""Offline setup: checks that the tools are there and that every module parses."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
for t in ("java", "g++", "clang++"):
    if not shutil.which(t):
        sys.exit(f"missing tool {t}")
mods = sorted(f for f in os.listdir(SPEC) if f.endswith(".tla"))
p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", *mods], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode != 0 or "*** Errors" in p.stdout or "Fatal errors" in p.stdout:
    sys.exit(p.stdout[-3000:])
print(f"parsed {len(mods)} modules")
