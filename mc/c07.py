"""C07 - frozen parameters never change and trainable ones are trained.

All freeze subsets x structures, and all two-stage histories (subset, train,
optionally copy or save+load, subset, resume or train again), on real models,
against a reference Adam that holds frozen parameters constant.
"""
import itertools
import os

from . import lib
from .lib import M, jax, jnp, np, pmm
from .trainlib import Par, Slot, Tick, ref_grads

ID = "C07"
LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of all freeze subsets and two-stage "
             "freeze/train/persist/resume histories on the real code, each "
             "compared parameter by parameter with a reference optimizer")
RULE = ("a state is (structure, history so far, frozen set); transitions are "
        "train, resume, copy, save+load and (un)freeze operations")
BOUNDS = {
    "quick": "3 trainable modules in 6 structures x 8 subsets x 2 epochs; "
             "8x8 subset pairs x {resume} with copy / save+load between; "
             "built-in parametric modules x all subsets of a 4-module chain, "
             "single modules also frozen before compilation, copying, "
             "serialization or recompilation",
    "thorough": "8x8 subset pairs x {fresh, resume} x {nothing, copy, "
                "save+load} in 3 structures; three-stage histories",
}
ASSUMPTIONS = ["one batch per epoch (order of summation only)",
               "training a model whose modules are all frozen may be refused"]

STRUCTS = ["flat", "tuple", "dict", "nested", "deep", "graph"]
W = [(0.7, 0.3), (1.3, -0.2), (-0.6, 0.4)]
NAMES = ["m0", "m1", "m2"]


def build(s):
    """Returns (model, [leaf modules in application order], finder)."""
    ps = [Par(w, c) for w, c in W]
    t = Tick()
    if s == "flat":
        m = pmm.SequentialModel(ps + [t])
    elif s == "tuple":
        m = pmm.SequentialModel(tuple(ps) + (t,))
    elif s == "dict":
        m = pmm.SequentialModel({"a": ps[0], "b": ps[1], "c": ps[2],
                                 "d": t})
    elif s == "nested":
        m = pmm.SequentialModel([ps[0], pmm.SequentialModel(ps[1:]), t])
    elif s == "deep":
        m = pmm.SequentialModel([pmm.SequentialModel(
            {"p": ps[0], "q": pmm.SequentialModel([ps[1]])}),
            pmm.SequentialModel([ps[2]]), t])
    elif s == "graph":
        m = pmm.NonSequentialModel(
            {"u": ps[0], "v": pmm.SequentialModel([ps[1], ps[2]]), "w": t},
            {"input": "u", "u": "v", "v": "w", "w": "output"})
    return m


def leafs(m):
    out = {}

    def rec(x):
        if isinstance(x, pmm.Model):
            rec(x.modules)
        elif isinstance(x, dict):
            for v in x.values():
                rec(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                rec(v)
        elif isinstance(x, Par):
            out[(x.w0, x.c0)] = x
    rec(m)
    return [out[k] for k in W]


X = jnp.asarray([[0.5], [1.5], [-1.0]])
YT = jnp.asarray([[1.0], [2.0], [0.5]])


def loss_ref(xs):
    y = X
    for i in range(3):
        y = xs[2 * i] * y + xs[2 * i + 1]
    return jnp.mean((y - YT) ** 2)


class Ref:
    def __init__(self):
        self.s = [Slot(np.full((1,), v)) for wc in W for v in wc]

    def train(self, frozen, epochs, resume):
        if not resume:
            for s in self.s:
                s.fresh()
        for _ in range(epochs):
            gs = ref_grads(loss_ref, [s.x for s in self.s])
            for k, (s, g) in enumerate(zip(self.s, gs)):
                if k // 2 in frozen:
                    continue
                s.update(g, 0.05)
                s.tick()


def vals(m):
    return [np.asarray(v) for p in leafs(m)
            for v in (p.get_params()["w"], p.get_params()["c"])]


def train(m, epochs, resume):
    Y = {"y": YT, "n": jnp.zeros((3, 1))}

    def loss(ep, X, Y, P):
        return jnp.mean((P["y"] - Y["y"]) ** 2)

    def val(ep, X, Y, P):           # every epoch is the best so far
        return -P["n"][0, 0]
    m.train(X, Y=Y, X_val=X, Y_val=Y, loss_fn=loss, val_loss_fn=val, lr=0.05,
            batch_size=3, epochs=epochs, verbose=False, batch_rng=5,
            resume=resume)


def set_frozen(m, frozen, style):
    ls = leafs(m)
    for i, p in enumerate(ls):
        if style == 1:      # through an intermediate flip
            p.trainable = not (i in frozen)
            p.trainable = i in frozen
        p.trainable = i not in frozen


def subsets(n):
    return [list(c) for k in range(n + 1)
            for c in itertools.combinations(range(n), k)]


def cases(tier):
    out = []
    for s in STRUCTS:
        for f in subsets(3):
            out.append({"t": "hist", "s": s, "ops": [[f, "T", 2]]})
    th = tier == "thorough"
    structs = ["nested", "deep", "graph"] if th else ["nested"]
    n = 0
    for s in structs:
        for f1 in subsets(3):
            for f2 in subsets(3):
                if len(f1) == 3:
                    continue
                ways = itertools.product("RT", ["", "copy", "save"]) if th \
                    else [("R", ["", "copy", "save", "savez"][n % 4])]
                n += 1
                for op, how in ways:
                    out.append({"t": "hist", "s": s,
                                "ops": [[f1, "T", 1], how, [f2, op, 1]]})
    if th:
        for f1, f2, f3 in itertools.product(subsets(3)[:7], repeat=3):
            out.append({"t": "hist", "s": "nested",
                        "ops": [[f1, "T", 1], [f2, "R", 1], "save",
                                [f3, "R", 1]]})
    for f in subsets(3):
        for s in ("flat", "nested", "deep", "graph"):
            out.append({"t": "modelflag", "s": s, "f": f}) if f in (
                [], [0], [1, 2], [0, 1, 2]) else None
    for chain in CHAINS:
        k = 3 if chain in ("affine", "const") else 4
        for f in subsets(k):
            if 0 < len(f) < k and (th or len(f) in (1, k - 1)):
                out.append({"t": "builtin", "chain": chain, "f": f})
                if len(f) == 1 or th:
                    for when in WHEN[1:]:
                        if not th and when not in ("built", "nested") and (
                                chain, f[0]) not in COMPOSITE:
                            continue
                        if f == [1] and chain == "affine" or \
                                f == [0] and chain == "const":
                            # the flag of Einsum and MatMul says, until they
                            # are compiled, whether they have parameters
                            continue
                        out.append({"t": "builtin", "chain": chain, "f": f,
                                    "when": when})
    return out


# moments at which modules are frozen, and what happens before compiling
WHEN = ["compiled", "built", "built+copy", "built+wire", "recompiled",
        "unfrozen first", "nested"]
COMPOSITE = [("nn", 0), ("affine", 2), ("const", 1)]
CHAINS = {
    "nn": lambda: [M.LinearNN(3, bias=True, real=True), M.PReLU(),
                   M.Bias(scalar=False), M.LinearNN(1, bias=True, real=True,
                                                    activation=M.Tanh())],
    "pmm": lambda: [M.AffineHermitianMatrix(2, init_magnitude=0.5),
                    M.Eigenvalues(2), M.Bias(),
                    M.LinearNN(1, real=True)],
    "obs": lambda: [M.LowRankAffineHermitianMatrix(3, 2, init_magnitude=0.5),
                    M.Eigenvectors(1),
                    M.ExpectationValueSum(2, 1, init_magnitude=0.5),
                    M.Bias()],
    "affine": lambda: [M.AffineTensor((2, 3), init_magnitude=0.5, real=True),
                       M.Einsum("zi,ij->z", dim_map={"z": 2}, trainable=True,
                                init_magnitude=0.5),
                       M.AffineObservablePMM(2, 1, output_size=1,
                                             init_magnitude=0.5)],
    "const": lambda: [M.MatMul(output_shape=3, trainable=True,
                               init_magnitude=0.5),
                      M.AffineEigenvaluePMM(2, 1, init_magnitude=0.5),
                      M.Bias(scalar=True)],
}


def run(case, ctx):
    {"hist": r_hist, "modelflag": r_flag, "builtin": r_builtin}[case["t"]](
        case, ctx)


def compare(ctx, m, ref, frozen, before, msg):
    got = vals(m)
    for k, (g, s, b) in enumerate(zip(got, ref.s, before)):
        if k // 2 in frozen:
            if not np.array_equal(g, b) or g.dtype != b.dtype:
                ctx.fail("frozen parameter changed",
                         f"{msg}: module {k // 2} {b} -> {g}")
        elif not np.allclose(g, s.x, rtol=2e-6, atol=2e-6):
            ctx.fail("trainable parameter not updated as with the frozen "
                     "ones held constant",
                     f"{msg}: module {k // 2} is {g}, reference {s.x}")


def r_hist(case, ctx):
    m = build(case["s"])
    m.compile(lib.key(0), (1,))
    ref = Ref()
    hist = ()
    for k, op in enumerate(case["ops"]):
        hist += (repr(op),)
        ctx.state(case["s"], hist)
        ctx.step()
        if op == "":
            continue
        flags = [p.trainable for p in leafs(m)]
        if op == "copy":
            m = m.copy() if hasattr(m, "copy") else m
        elif op in ("save", "savez"):
            with lib.scratch() as d:
                f = os.path.join(d, "m.npz")
                (m.save if op == "save" else m.save_compressed)(f)
                m = type(m).from_file(f)
        if isinstance(op, str):
            if [p.trainable for p in leafs(m)] != flags:
                ctx.fail("trainable flags lost", f"{case}")
            continue
        frozen, what, ep = op
        pred = np.asarray(m(X, dtype=np.float64)["y"])
        before = vals(m)
        set_frozen(m, frozen, k % 2)
        bad = lib.exact(pred, np.asarray(m(X, dtype=np.float64)["y"])) or \
            lib.exact(before, vals(m))
        if bad:
            ctx.fail("freezing changed the model", f"{case}: {bad}")
        if len(frozen) == 3:
            try:
                train(m, ep, what == "R")
            except Exception:
                ctx.outcome("all frozen: refused")
            bad = lib.exact(before, vals(m))
            if bad:
                ctx.fail("frozen parameter changed", f"{case}: {bad}")
            return
        train(m, ep, what == "R")
        ref.train(frozen, ep, what == "R")
        compare(ctx, m, ref, frozen, before, f"{case} stage {k}")
        if [p.trainable for p in leafs(m)] != [i not in frozen
                                               for i in range(3)]:
            ctx.fail("training changed the trainable flags", f"{case}")
        ctx.outcome(f"{what}:{len(frozen)} frozen")
    ctx.trace()


def r_flag(case, ctx):
    """The flag of a whole (nested) model reaches all its modules."""
    m = build(case["s"])
    m.compile(lib.key(0), (1,))
    set_frozen(m, case["f"], 0)
    m.trainable = False
    if any(p.trainable for p in leafs(m)) or m.trainable:
        ctx.fail("freezing a model left modules trainable", f"{case}")
    m.trainable = True
    if not all(p.trainable for p in leafs(m)) or not m.trainable:
        ctx.fail("unfreezing a model left modules frozen", f"{case}")
    set_frozen(m, case["f"], 0)
    # every further module (Tick) stays as it was
    ctx.state(case["s"], tuple(case["f"]))
    ctx.step(3)
    before = vals(m)
    saved = m.serialize() if hasattr(m, "serialize") else None
    del saved
    if lib.exact(before, vals(m)):
        ctx.fail("serializing changed the model", f"{case}")
    # one-line summary must not fail for frozen models
    str(m)
    ctx.trace()


REFS = {}


def r_builtin(case, ctx):
    """After one step from the same start each trainable parameter has the
    value it gets when nothing is frozen; frozen ones keep theirs."""
    Xb = jnp.asarray([[0.4, -0.7], [1.1, 0.3], [-0.2, 0.9], [0.6, 0.8]],
                     jnp.float32)
    Yb = jnp.asarray([[0.3], [-0.4], [0.9], [0.1]], jnp.float32)

    def go(f, epochs=1):
        mods = CHAINS[case["chain"]]()
        when = case.get("when", "compiled")
        if when == "nested":
            mods = [pmm.SequentialModel([q]) for q in mods]
        m = pmm.SequentialModel(mods)

        def freeze():
            for i in f:
                if when == "unfrozen first":
                    m.modules[i].trainable = True
                m.modules[i].trainable = False
                if when == "nested":    # the other way to say it
                    m.modules[i].unfreeze()
                    m.modules[i].freeze()
        if when != "compiled":
            freeze()
        if when == "built+copy":
            m = m.copy()
        elif when == "built+wire":
            w = pmm.SequentialModel()
            w.deserialize(m.serialize())
            m = w
        elif when == "recompiled":
            # only these adapt to another shape
            m.compile(lib.key(4),
                      (3,) if case["chain"] == "nn" else (2,))
        m.compile(lib.key(4), (2,))
        start = lib.host(m.get_params())
        if when == "compiled":
            freeze()
        elif any(m.modules[i].trainable for i in f):
            ctx.fail("trainable flags lost", f"{case}: "
                     f"{[q.trainable for q in m.modules]}")
        # the large eps keeps round-off in vanishing gradients small
        try:
            m.train(Xb, Y=Yb, lr=1e-2, eps=1e-3, batch_size=4, epochs=epochs,
                    verbose=False, batch_rng=1)
        except Exception:
            if any(jax.tree.leaves(p) for i, p in enumerate(start)
                   if i not in f):
                raise
            ctx.outcome("all frozen: refused")
        return m, start
    key = (case["chain"], case.get("when") if case.get("when") in (
        "recompiled", "nested") else "")
    if key not in REFS:
        REFS[key] = go([])
    ref, start = REFS[key]
    m, start2 = go(case["f"])
    ctx.state(case["chain"], tuple(case["f"]), case.get("when"))
    ctx.step(2)
    if lib.exact(start, start2):
        ctx.fail("compiling is not reproducible", f"{case}")
    a, b = lib.host(ref.get_params()), lib.host(m.get_params())
    for i in range(len(start)):
        if i in case["f"]:
            bad = lib.exact(start[i], b[i])
            if bad:
                ctx.fail("frozen parameter changed",
                         f"{case} module {i}: {bad}")
        else:
            d = [np.max(np.abs(x - y)) if x.size else 0 for x, y in zip(
                jax.tree.leaves(a[i]), jax.tree.leaves(b[i]))]
            moved = [np.max(np.abs(x - y)) if x.size else 0 for x, y in zip(
                jax.tree.leaves(a[i]), jax.tree.leaves(start[i]))]
            if any(x > 2e-5 for x in d):
                ctx.fail("trainable parameter not updated as with the frozen "
                         "ones held constant", f"{case} module {i}: differs "
                         f"by {d} (step {moved})")
    ctx.trace()
