#!/usr/bin/env python3
"""Builds the executor and all harness crates, and runs the executor's self-test."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
os.makedirs(check.BUILD, exist_ok=True)
exe = check.build_engine()
for c in sorted({j["c"] for p in check.PROPS.values() for j in p["jobs"]}):
    check.build_crate(c)
sys.exit(subprocess.call([exe, "--selftest", "2000"]))
