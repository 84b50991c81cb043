#!/usr/bin/env python3
"""Checks that the tools the checks need are there and warms nothing: every check builds what it needs itself."""
import subprocess, sys, os
for c in (["g++", "--version"], ["python3", "--version"]):
    if subprocess.run(c, stdout=subprocess.DEVNULL).returncode: sys.exit("missing " + c[0])
if not os.path.isdir("/usr/include/eigen3"): sys.exit("missing eigen")
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "evidence"), exist_ok=True)
