"""Bounded-exhaustive exploration core.

A *check module* (mc/cXX.py) defines

    ID, LEVEL, RULE, ASSUMPTIONS
    cases(tier)      -> deterministic list of JSON-able case descriptors
                        (the complete bounded space, simplest first)
    run(case, ctx)   -> executes the case on the real code and compares every
                        step with the reference model; reports through ctx

The runner executes every case, in parallel worker processes.  Nothing is
sampled: a case list is the enumeration itself.
"""
import hashlib
import json
import os
import traceback


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


MAPS_SOFT = 20000
MAPS_HARD = 35000


def maps():
    """number of memory mappings of this process (limited by the system)"""
    try:
        with open("/proc/self/maps", "rb") as f:
            return f.read().count(b"\n")
    except OSError:
        return 0


class Ctx:
    """Collects what one worker covered."""

    def __init__(self, findings):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.known = {}
        self._findings = findings
        self._since = 0

    # ---- accounting -----------------------------------------------------
    def state(self, *key):
        """Register a distinct visited state (canonical key)."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n=1):
        self.transitions += n
        self._since += 1
        if self._since >= 100:
            self.relieve()

    def relieve(self):
        """compiled programs use up memory mappings: drop them in time"""
        self._since = 0
        if maps() > MAPS_SOFT:
            import gc
            import jax
            gc.collect()
            jax.clear_caches()
            gc.collect()

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1

    # ---- judging --------------------------------------------------------
    def fail(self, kind, detail=""):
        raise Violation(kind, str(detail)[:4000])

    def check(self, cond, kind, detail=""):
        if not cond:
            self.fail(kind, detail() if callable(detail) else detail)

    def finding(self, key, kind, detail=""):
        """A genuine defect: silent only if listed in the findings file."""
        if key in self._findings:
            self.known[key] = self.known.get(key, 0) + 1
        else:
            self.fail(kind, f"[{key}] {detail}")


def findings_for(pid):
    path = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            parts = line[len("finding:"):].strip().split(None, 2)
            if parts[0] == f"property={pid}" and parts[1].startswith("key="):
                out[parts[1][4:]] = parts[2] if len(parts) > 2 else ""
    return out


def run_one(mod, case, ctx):
    """Run one case; returns None or a violation dict."""
    try:
        mod.run(case, ctx)
        return None
    except Violation as v:
        return {"kind": v.kind, "detail": v.detail}
    except Exception as e:  # the real code raised where it should not have
        return {
            "kind": f"unexpected {type(e).__name__}",
            "detail": (str(e)[:1500] + "\n" + traceback.format_exc()[-3000:]),
        }


def expect_error(ctx, fn, kind, detail="", errors=Exception):
    """fn must be refused with an exception."""
    try:
        r = fn()
    except errors:
        return
    ctx.fail(kind, f"{detail} (returned {str(r)[:300]})")


def dumps(o):
    return json.dumps(o, sort_keys=True, default=str)
