#!/usr/bin/env python3
"""plant.py SPEC.py [--keep]: turn a bug description into seeded/<id>/.

SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO (python text),
NEEDS, BREAKS.  The bug is confirmed in a scratch copy of /repo: the demo
passes without it and fails with it, and the stable tests still pass.
"""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1])
ID = spec["ID"]
out = os.path.join(HERE, "seeded", ID)
wt = f"/tmp/plant-{ID}"
shutil.rmtree(wt, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", os.environ.get("MC_REPO", "/repo"), wt])
try:
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "demo.py"), "w").write(spec["DEMO"])
    open(os.path.join(out, "demo.sh"), "w").write('''#!/bin/bash
# exit 0 when the behaviour is right; run in the root of the source tree
export PYTHONPATH="$PWD" JAX_PLATFORMS=cpu JAX_ENABLE_X64=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
''')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    def demo():
        return subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=wt,
                              capture_output=True, text=True)
    r = demo()
    if r.returncode:
        sys.exit(f"{ID}: demo fails on the unchanged tree\n{r.stdout[-1500:]}{r.stderr[-2500:]}")
    for f, old, new in spec["EDITS"]:
        p = os.path.join(wt, "parametricmatrixmodels", f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit(f"{ID}: pattern found {s.count(old)} times in {f}:\n{old}")
        open(p, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(out, "patch.diff"), "w").write(d)
    r = demo()
    if r.returncode == 0:
        sys.exit(f"{ID}: demo passes with the bug\n{r.stdout[-1500:]}")
    print(ID, "demo with bug:", (r.stdout + r.stderr + "\nexit %d" % r.returncode if not (r.stdout+r.stderr).strip() else r.stdout + r.stderr).strip().splitlines()[-1][:200])
    env = dict(os.environ, PYTHONPATH=wt, JAX_PLATFORMS="cpu", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1")
    if "--notest" not in sys.argv:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider",
                            "-n", "8", "--basetemp", wt + "-tmp"], cwd=wt, env=env,
                           capture_output=True, text=True)
        shutil.rmtree(wt + "-tmp", ignore_errors=True)
        print(ID, "tests:", r.stdout.strip().splitlines()[-1])
        if r.returncode:
            print(r.stdout[-1500:])
            sys.exit(f"{ID}: tests notice it")
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"],
               "what_it_breaks": spec["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
except SystemExit:
    if "--keep" not in sys.argv:
        shutil.rmtree(out, ignore_errors=True)
    raise
finally:
    shutil.rmtree(wt, ignore_errors=True)
