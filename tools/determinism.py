#!/usr/bin/env python3
"""Checks that one seed is one execution: event digests of every run, with other worker counts and hash seeds.
   tools/determinism.py [runs] [property ...]
"""
import os, subprocess, sys, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
runs = sys.argv[1] if len(sys.argv) > 1 else "60"
props = sys.argv[2:] or [f"C{i:02}" for i in range(1, 26)]
bad = 0
for c in props:
    seen = []
    for workers, hashseed in (("8", "0"), ("3", "0"), ("1", "7"), ("5", "random")):
        e = dict(os.environ, PYTHONHASHSEED=hashseed)
        out = subprocess.run([PY, os.path.join(HERE, "check.py"), c, "--runs", runs, "--wall", "600", "--workers", workers, "--digests", "--no-evidence"],
                             env=e, capture_output=True, text=True).stdout
        seen.append(sorted(l for l in out.splitlines() if re.match(r"digest \d+ [0-9a-f]+$", l)))
    same = all(s == seen[0] for s in seen) and len(seen[0]) == int(runs)
    bad += not same
    print(c, len(seen[0]), "runs:", "same digests" if same else "DIFFERENT", flush=True)
    if not same:
        for s in seen[1:]:
            print("   ", len(s), [a for a, b in zip(s, seen[0]) if a != b][:3])
sys.exit(bool(bad))
