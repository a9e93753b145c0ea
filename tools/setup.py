#!/usr/bin/env python3
"""Nothing is built ahead of the checks (each builds the library from /repo's working tree);
this checks that the tools they need are there."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mbt import run
for t in ("gcc", "java", "tlc"):
    if not shutil.which(t):
        sys.exit("missing: " + t)
if not (os.path.exists(run.CP) and os.path.exists(run.community())):
    sys.exit("TLC's jars are missing")
print("ok")
