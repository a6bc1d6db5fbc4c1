#!/usr/bin/env python3
"""setup.py: checks the toolchain and pre-builds every harness against /repo (a cache only; checks rebuild what changed)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
conf = json.load(open(os.path.join(check.VERIF, "checks.json")))
for pid in conf:
    check.build([os.path.join(check.VERIF, "harness", "rt.cpp")] + [os.path.join(check.VERIF, "harness", f) for f in conf[pid]["sources"]])
    print("built", pid)
