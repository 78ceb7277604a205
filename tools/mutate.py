#!/usr/bin/env python3
"""Ad-hoc mutation helper: mutate.py FILE OLD NEW CHECK... (restores /repo)."""
import os, subprocess, sys
f, old, new, *checks = sys.argv[1:]
REPO = os.environ.get("MC_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = REPO + "/parametricmatrixmodels/" + f
s = open(p).read()
n = s.count(old)
if n < 1:
    sys.exit(f"pattern not found ({n})")
try:
    open(p, "w").write(s.replace(old, new, 1))
    for c in checks:
        r = subprocess.run([HERE + "/check", c], capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")]
        print(c, "rc", r.returncode, "|", " / ".join(v[:3])[:400])
finally:
    open(p, "w").write(s)
