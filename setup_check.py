#!/usr/bin/env python3
"""Nothing has to be built ahead of the checks; this confirms that the tools they use are there."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
for t in ("g++", "java"):
    if not shutil.which(t):
        sys.exit("missing " + t)
for j in vlib.CP.split(":"):
    if not os.path.exists(j):
        sys.exit("missing " + j)
print("ok")
