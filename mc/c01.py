"""C01 - limiting the batch size never changes a result."""
import itertools
import os
import pickle
import subprocess
import sys

from . import lib
from .lib import M, grid, jnp, np, pmm, same
from .toys import Fold, Lin, PLin

ID = "C01"
LEVEL = "model_checking"
RULE = ("every (model, operation, samples N, limit, mode) in the box, plus "
        "every ordered sequence of two/three calls with different options on "
        "one live model; non-trivial = the limit is below N so that the "
        "evaluation is really split")
BOUNDS = {
    "quick": "6 models, N<=6, limits 1..7 and none, both modes, 3 operations; "
             "all option pairs on one object",
    "thorough": "6 models, N<=10, limits 1..11, verbose on/off; all option "
                "triples on one object",
}
ASSUMPTIONS = ["float64 evaluation, relative tolerance 1e-6 (parameters are "
               "single precision)"]

TREE = {"a": (2,), "b": [(1, 2)], "c": ()}


class Pair(M.FuncBase):
    """tree -> tree of another structure, per sample."""

    def f(self, d):
        a, b = d["a"], d["b"][0]
        return (a * 2.0, {"s": jnp.stack([a[:, 0] * b[:, 0, 1],
                                          jnp.sin(a[:, 1]) + b[:, 0, 0]], 1),
                          "c": d["c"] * a[:, 0]})

    def get_hyperparameters(self):
        return {}


def build(kind):
    if kind == "array":
        m = pmm.SequentialModel([Lin(1.5, 0.25), M.LinearNN(2), M.Tanh()])
        m.compile(lib.key(3), (3,))
        return m, (3,)
    if kind == "pmm":
        m = pmm.SequentialModel([M.AffineEigenvaluePMM(3, 2)])
        m.compile(lib.key(3), (2,))
        return m, (2,)
    if kind == "tree":
        m = pmm.SequentialModel([PLin(1.25, -0.5), Pair()])
        m.compile(lib.key(3), TREE)
        return m, TREE
    if kind == "complex":
        m = pmm.SequentialModel([M.AffineHermitianMatrix(2)])
        m.compile(lib.key(3), (2,))
        return m, (2,)
    if kind == "graph":
        m = pmm.NonSequentialModel(
            {"M1": PLin(1.5, 0.5), "M2": M.LinearNN(2)},
            {"input": ["M1", "M2"], "M1": "output.p", "M2": "output.q"})
        m.compile(lib.key(3), (2,))
        return m, (2,)
    if kind == "state":
        m = pmm.SequentialModel([Lin(0.5, 0.1), Fold(0.5, 1.0),
                                 PLin(1.5, 0.0), Fold(-0.25, 2.0)])
        m.compile(lib.key(3), (2,))
        return m, (2,)
    raise KeyError(kind)


def data(shape, n):
    k = [0]

    def mk(s):
        k[0] += 1
        return grid((n,) + s, 0.2 * k[0])
    return lib.jax.tree.map(mk, shape, is_leaf=lib.is_shape)


KINDS = ["array", "pmm", "tree", "complex", "graph", "state"]


def ops_of(kind):
    return {"complex": ["predict", "grad_input"],
            "state": ["predict"],
            "pmm": ["predict", "grad_input", "grad_params"]}.get(
                kind, ["predict", "grad_input", "grad_params"])


def cases(tier):
    out = []
    nmax = 6 if tier == "quick" else 10
    for kind in KINDS:
        for op in ops_of(kind):
            for n in range(1, nmax + 1):
                lim = [1, 2, 3, 4, 5, 7] if tier == "quick" else \
                    list(range(1, nmax + 2))
                if tier == "quick" and op != "predict":
                    if n not in (1, 3, 5):
                        continue
                    lim = [1, 2, 5]
                    if kind not in ("tree", "graph", "array"):
                        lim = [2]
                out.append({"t": "box", "kind": kind, "op": op, "n": n,
                            "limits": lim,
                            "verbose": [False] if tier == "quick" and n != 5
                            else [False, True]})
    opts = [(None, False), (1, False), (2, True), (3, False), (2, False)]
    seqs = list(itertools.product(range(len(opts)), repeat=2 if
                                  tier == "quick" else 3))
    for kind in ["tree", "state"] if tier == "quick" else KINDS:
        for op in ops_of(kind):
            for s in seqs:
                if len(set(s)) > 1:
                    out.append({"t": "seq", "kind": kind, "op": op,
                                "seq": list(s)})
    # operations alternating on one object, with a parameter change between
    for kind in (["tree"] if tier == "quick" else ["tree", "graph", "array"]):
        for s in itertools.permutations(["predict", "grad_input",
                                         "grad_params"]):
            for lim in (None, 2):
                out.append({"t": "mix", "kind": kind, "seq": list(s),
                            "limit": lim})
    # first evaluation of a fresh process, with progress output
    for kind in (["graph"] if tier == "quick" else KINDS):
        for op in ops_of(kind):
            for avoid in ((False,) if tier == "quick" else (False, True)):
                out.append({"t": "fresh", "kind": kind, "op": op,
                            "avoid": avoid})
    return out


OPTS = [(None, False), (1, False), (2, True), (3, False), (2, False)]


def call(m, op, X, limit, avoid, verbose=False):
    fn = {"predict": m, "grad_input": m.grad_input,
          "grad_params": m.grad_params}[op]
    return fn(X, max_batch_size=limit, avoid_recompilation=avoid,
              verbose=verbose, return_state=True, rng=7)


def reference(kind, op, m, X):
    """Sample-by-sample evaluation of a fresh, never batched model; for the
    stateful model a plain fold in Python."""
    n = lib.leaves(X)[0].shape[0]
    if kind == "state":
        x = np.asarray(X, dtype=np.float64)
        s1, s2 = np.float32(1.0), np.float32(2.0)
        out = []
        for i in range(n):
            u = 0.5 * x[i] + 0.1
            v = u + s1
            s1 = np.float32(0.5 * s1 + u.sum())
            w = 1.5 * v
            out.append(w + s2)
            s2 = np.float32(-0.25 * s2 + w.sum())
        return jnp.asarray(np.array(out)), [(), jnp.array([s1]), (),
                                            jnp.array([s2])]
    outs = []
    for i in range(n):
        xi = lib.jax.tree.map(lambda a: a[i:i + 1], X)
        o, st = call(m, op, xi, None, False)
        outs.append(o)
    return lib.jax.tree.map(lambda *a: jnp.concatenate(a, 0), *outs), st


_ref = {}


def ref(kind, op, n):
    k = (kind, op, n)
    if k not in _ref:
        m, shape = build(kind)
        X = data(shape, n)
        _ref[k] = (X, shape) + tuple(reference(kind, op, m, X))
    return _ref[k]


def compare(ctx, kind, op, n, got, want, state, wstate, label):
    d = same(got, want, 2e-6, 1e-6)
    ctx.check(d is None, "batched result differs",
              f"{label}: {d}")
    if kind == "state":
        d = same(lib.leaves(state), lib.leaves(wstate), 2e-5, 1e-5)
        ctx.check(d is None, "state after batched evaluation differs",
                  f"{label}: {d}")
    ctx.trace()


def in_fresh_process(kind, op, avoid, n=5, limit=2):
    code = ("import sys, pickle; from mc import c01, lib\n"
            f"m, shape = c01.build({kind!r})\n"
            f"X = c01.data(shape, {n})\n"
            f"got, st = c01.call(m, {op!r}, X, {limit}, {avoid}, True)\n"
            "pickle.dump(lib.host((got, st)), open(sys.argv[1], 'wb'))\n")
    with lib.scratch() as d:
        f = os.path.join(d, "r.pkl")
        r = subprocess.run([sys.executable, "-c", code, f],
                           capture_output=True, text=True, timeout=200)
        if r.returncode:
            return None, r.stderr[-600:]
        with open(f, "rb") as h:
            return pickle.load(h), None


def run(case, ctx):
    kind = case["kind"]
    if case["t"] == "fresh":
        op = case["op"]
        X, shape, want, wstate = ref(kind, op, 5)
        r, err = in_fresh_process(kind, op, case["avoid"])
        if r is None:
            ctx.fail("first verbose batched evaluation of a process raised",
                     f"{case}: {err}")
        compare(ctx, kind, op, 5, r[0], lib.host(want), r[1], wstate,
                f"fresh process {case}")
        ctx.step()
        ctx.state("fresh", kind, op, case["avoid"])
        return
    if case["t"] == "box":
        op, n = case["op"], case["n"]
        X, shape, want, wstate = ref(kind, op, n)
        for avoid in (False, True):
            for verbose in case["verbose"]:
                for lim in case["limits"] + [None]:
                    m, _ = build(kind)
                    got, st = call(m, op, X, lim, avoid, verbose)
                    ctx.step()
                    if lim is not None and lim < n:
                        ctx.state(kind, op, n, lim, avoid, verbose)
                    ctx.outcome("split" if lim and lim < n else "whole")
                    compare(ctx, kind, op, n, got, want, st, wstate,
                            f"{kind} {op} N={n} limit={lim} "
                            f"avoid_recompilation={avoid} verbose={verbose}")
        return
    if case["t"] == "seq":
        op = case["op"]
        m, shape = build(kind)
        hist = []
        for j, k in enumerate(case["seq"]):
            n = 5 - j
            X, _, want, wstate = ref(kind, op, n)
            lim, avoid = OPTS[k]
            got, st = call(m, op, X, lim, avoid)
            hist.append((lim, avoid, n))
            ctx.step()
            ctx.state(kind, op, tuple(hist))
            compare(ctx, kind, op, n, got, want, st, wstate,
                    f"{kind} {op} after calls {hist}")
        return
    # mix: operations alternate, parameters change in between
    m, shape = build(kind)
    X = data(shape, 5)
    hist = []
    for rnd in range(2):
        for op in case["seq"]:
            fresh, _ = build(kind)
            fresh.set_params(m.get_params())
            want, wst = reference(kind, op, fresh, X)
            got, st = call(m, op, X, case["limit"], bool(rnd))
            hist.append((op, rnd))
            ctx.step()
            ctx.state(kind, tuple(hist), case["limit"])
            compare(ctx, kind, op, 5, got, want, st, wst,
                    f"{kind} mixed history {hist} limit={case['limit']}")
        m.set_params(lib.jax.tree.map(lambda p: p * 1.5 + 0.125,
                                      m.get_params()))
