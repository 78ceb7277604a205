#!/usr/bin/env python3
"""seedtest.py [ID...]: run each planted bug's property check against it."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
RES = os.path.join(HERE, "tools", "seed_results.json")
res = json.load(open(RES)) if os.path.exists(RES) else {}
extra = [a[1:] for a in ids if a.startswith("+")]   # +C05: also this check
ids = [a for a in ids if not a.startswith("+")] or sorted(
    os.listdir(os.path.join(HERE, "seeded")))
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    p = json.load(open(os.path.join(d, "meta.json")))["property"]
    repo = os.environ.get("MC_REPO", "/repo")
    subprocess.check_call(["git", "-C", repo, "apply",
                           os.path.join(d, "patch.diff")])
    try:
        for c in [p] + [e for e in extra if e != p]:
            r = subprocess.run([os.path.join(HERE, "check"), c],
                               capture_output=True, text=True, cwd=HERE)
            v = [x for x in r.stdout.splitlines() if not x.startswith("KNOWN")]
            hit = r.returncode == 1 and any(
                x.startswith(f"VIOLATION property={c} ") for x in v)
            res[i] = sorted(set(res.get(i, [])) - {c} | ({c} if hit else set()))
            print(i, c, "CAUGHT" if hit else f"MISSED rc={r.returncode}", "|",
                  " / ".join(v[:2])[:260], flush=True)
    finally:
        subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
