#!/usr/bin/env python3
"""Reverts each "fix:" commit named in KNOWN_FINDINGS.txt in a scratch copy of /repo and runs the property's quick check there."""
import os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
todo = []
for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if m:
        todo.append(m.groups())
for prop, commit, what in todo:
    if sys.argv[1:] and prop not in sys.argv[1:] and commit not in sys.argv[1:]:
        continue
    tmp = tempfile.mkdtemp(prefix="unfix")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
        g = ["git", "-C", tmp + "/r", "-c", "user.name=x", "-c", "user.email=x@x"]
        r = subprocess.run(g + ["revert", "--no-edit", commit], capture_output=True, text=True)
        if r.returncode:            # later fixes build on this one: take the tree before it
            subprocess.run(g + ["revert", "--abort"], capture_output=True)
            subprocess.run(g + ["checkout", "-q", commit + "^"], check=True)
            what = "(tree before the fix) " + what
        out = subprocess.run([PY, os.path.join(HERE, "check.py"), prop, "--no-evidence"], env=dict(os.environ, BIBLEREF_SRC=tmp + "/r/src"),
                             capture_output=True, text=True).stdout.splitlines()
        hit = [l for l in out if l.startswith("VIOLATION")]
        print(prop, commit, "detected" if hit else "MISSED", "|", next((l for l in out if l.startswith("run ")), "")[:150], "|", what, flush=True)
        for l in hit:
            os.path.exists(l.split("replay=")[1]) and os.remove(l.split("replay=")[1])
    finally:
        shutil.rmtree(tmp)
