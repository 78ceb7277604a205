"""Runner: enumerate, execute in parallel, write evidence, report."""
import importlib
import json
import multiprocessing as mp
import os
import queue
import sys
import time
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _setup_worker():
    warnings.filterwarnings("ignore")
    # progress output of the code under test is not part of the report
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("MC_STDERR"):
        os.dup2(devnull, 2)


def _load(pid):
    return importlib.import_module("mc." + pid.lower())


STOP = 10 ** 9


def plan(mod, cases):
    """units of work: cases sharing compiled computations stay together in
    one worker (largest units first), otherwise every case is its own unit"""
    key = getattr(mod, "affinity", None)
    if key is None:
        return [[i] for i in range(len(cases))]
    cost = getattr(mod, "cost", lambda c: 1)
    groups = {}
    for i, c in enumerate(cases):
        groups.setdefault(key(c), []).append(i)
    return sorted(groups.values(), reverse=True,
                  key=lambda g: sum(cost(cases[i]) for i in g))


def worker(pid, tier, wid, counter, q):
    from . import core
    _setup_worker()
    ctx = core.Ctx(core.findings_for(pid))
    try:
        mod = _load(pid)
        cases = mod.cases(tier)
    except Exception as e:
        import traceback
        q.put(("fatal", wid, f"{type(e).__name__}: {e}\n"
               + traceback.format_exc()[-3000:]))
        q.put(("end", wid, set(), 0, 0, {}, {}, False))
        return
    units = plan(mod, cases)
    stop = again = False
    while not stop:
        with counter.get_lock():
            k = counter.value
            if k >= len(units):
                break
            counter.value += 1
        for i in units[k]:
            if counter.value >= STOP:
                stop = True
                break
            q.put(("start", wid, i))
            v = core.run_one(mod, cases[i], ctx)
            q.put(("done", wid, i, v))
            ctx.relieve()
        if core.maps() > core.MAPS_HARD:
            again = True
            break
    q.put(("end", wid, ctx.states, ctx.transitions, ctx.traces, ctx.outcomes,
           ctx.known, again))


def main(argv):
    if not argv:
        print("usage: check <ID> [tier|--replay file]")
        return 1
    pid = argv[0].upper()
    from . import core
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1 and argv[1] == "--replay":
        return replay(pid, argv[2])
    if len(argv) > 1:
        tier = argv[1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = None
    violations = []
    fatal = None
    try:
        mod = _load(pid)
        cases = mod.cases(tier)
    except Exception as e:
        import traceback
        fatal = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]
        cases = []
    default_deadline = 780 if tier == "quick" else 6 * 3600
    deadline = t0 + float(os.environ.get("MC_DEADLINE", default_deadline))
    hang = float(os.environ.get("MC_HANG", 300 if tier == "quick" else 1800))
    maxviol = int(os.environ.get("MC_MAXVIOL", "1"))
    nw = int(os.environ.get("MC_WORKERS", "8"))
    nw = max(1, min(nw, len(cases)))
    states, transitions, traces, outcomes, known = set(), 0, 0, {}, {}
    done = 0
    stopped = None
    if fatal is None:
        mpc = mp.get_context("spawn")
        q = mpc.Queue()
        counter = mpc.Value("l", 0)
        procs = {}

        def spawn():
            w = len(procs)
            procs[w] = mpc.Process(target=worker,
                                   args=(pid, tier, w, counter, q))
            procs[w].start()

        for _ in range(nw):
            spawn()
        running = {}
        ended = set()
        def handle(m):
            nonlocal transitions, traces, done, fatal
            if m[0] == "start":
                running[m[1]] = (m[2], time.time())
            elif m[0] == "done":
                running.pop(m[1], None)
                done += 1
                if m[3] is not None:
                    violations.append((m[2], m[3]))
            elif m[0] == "fatal":
                fatal = m[2]
            elif m[0] == "end":
                ended.add(m[1])
                states.update(m[2])
                transitions += m[3]
                traces += m[4]
                for k, v in m[5].items():
                    outcomes[k] = outcomes.get(k, 0) + v
                for k, v in m[6].items():
                    known[k] = known.get(k, 0) + v
                if m[7]:        # worn out: a fresh process carries on
                    spawn()

        last = time.time()
        while len(ended) < len(procs):
            try:
                handle(q.get(timeout=1.0))
                if time.time() - last < 1.0:
                    continue
            except queue.Empty:
                pass
            now = last = time.time()
            for w, p in list(procs.items()):
                if w not in ended and not p.is_alive():
                    try:
                        while True:
                            handle(q.get(timeout=0.2))
                    except queue.Empty:
                        pass
                    if w in ended:
                        continue
                    if w in running:
                        i = running.pop(w)[0]
                        violations.append((i, {
                            "kind": "process died",
                            "detail": f"exit code {p.exitcode} while "
                                      "executing this case"}))
                    else:
                        fatal = fatal or f"worker died ({p.exitcode})"
                    ended.add(w)
            for w, (i, ts) in list(running.items()):
                if now - ts > hang:
                    violations.append((i, {
                        "kind": "does not terminate",
                        "detail": f"case still running after {hang:.0f} s"}))
                    stopped = "hang"
            if len(violations) >= maxviol or fatal:
                # no need to look further; stop handing out cases
                with counter.get_lock():
                    counter.value = STOP
                if stopped is None:
                    stopped = "violation"
                    deadline = min(deadline, now + 20)
            if now > deadline or stopped == "hang":
                with counter.get_lock():
                    counter.value = STOP
                if stopped is None:
                    stopped = "deadline"
                    deadline = now + 60
                    continue
                for p in procs.values():
                    p.kill()
                break
        for p in procs.values():
            p.join(5)
            if p.is_alive():
                p.kill()
    wall = time.time() - t0
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev_dir, "replays"), exist_ok=True)
    replays = []
    if fatal is not None and not violations:
        violations.append((None, {"kind": "cannot execute", "detail": fatal}))
    violations.sort(key=lambda t: (t[0] is None, t[0] or 0))
    for n, (i, v) in enumerate(violations[:max(5, maxviol)]):
        rp = os.path.join(ev_dir, "replays", f"{pid}-{tier}-{n}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "case": cases[i] if i is not None
                       else None, "index": i, "violation": v}, f, indent=1,
                      default=str)
        replays.append(rp)
    step = max(1, len(cases) // 3) if cases else 1
    samples = cases[::step][:4] if cases else []
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {
        "states": len(states),
        "transitions": transitions,
        "traces_validated_against_impl": traces,
        "evaluations": done,
        "distinct_nontrivial": len(states),
        "rule": getattr(mod, "RULE", ""),
        "samples": samples,
        "cases_in_bound": len(cases),
        "cases_executed": done,
        "exhaustive": bool(done == len(cases) and stopped is None
                           and fatal is None),
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
        "distinct_outcomes": dict(sorted(outcomes.items())[:60]),
        "known_findings_hit": known,
    }
    if stopped == "deadline":
        cov["cap"] = "time cap reached; only cases_executed cases covered"
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": [dict(v, case=(cases[i] if i is not None else None))
                       for i, v in violations[:5]],
    }
    tmp = os.path.join(ev_dir, f".{pid}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    os.replace(tmp, os.path.join(ev_dir, f"{pid}.json"))
    listed = core.findings_for(pid)
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={pid} [{k}] {listed.get(k, '')}")
    print(f"{pid} tier={tier} cases={done}/{len(cases)} states={len(states)} "
          f"transitions={transitions} traces={traces} "
          f"outcomes={len(outcomes)} wall={wall:.1f}s"
          + (f" stopped={stopped}" if stopped else ""))
    if violations:
        for (i, v), rp in zip(violations, replays):
            print(f"  {v['kind']}: {v['detail'][:700]}")
            print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def replay(pid, path):
    from . import core
    data = json.load(open(path))
    warnings.filterwarnings("ignore")
    if data["case"] is None:
        print("no single case: " + data["violation"]["detail"])
        return 1
    ctx = core.Ctx(core.findings_for(pid))
    v = core.run_one(_load(pid), data["case"], ctx)
    print(json.dumps(data["case"], default=str))
    if v is None:
        print("case holds")
        return 0
    print(v["kind"], v["detail"])
    print(f"VIOLATION property={pid} replay={path}")
    return 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
