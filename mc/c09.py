"""C09 - optimizer steps follow Adam, and resuming equals not stopping.

Every combination of optimizer options is run on real models; the batches
actually used are recorded and fed to an independent numpy Adam.  All splits
of a run into train + resume (direct, copied, saved and loaded) are compared
with the reference of the uninterrupted run.
"""
import itertools
import os

from . import lib
from .lib import jax, jnp, np, pmm
from .trainlib import Log, Par, Slot, Tick, ref_grads

ID = "C09"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of optimizer options and of all "
             "train/resume splits; each real run is replayed step by step in "
             "a reference optimizer on the recorded batches")
RULE = ("a state is (options, epoch, batch); transitions are optimizer "
        "steps of the reference, compared at the end of each run")
BOUNDS = {
    "quick": "options: {real, complex, mixed (either order)} x {full, 1, 2 per batch} x "
             "{constant, schedule} x {default, b1/b2, eps, clip} x "
             "{reverse, forward}; splits N+M with N,M in 1..2 x {direct, "
             "copy, save, compressed} x {real, complex} x {constant, "
             "schedule}; best epoch anywhere in the first run",
    "thorough": "the full product; splits N+M, N+M+K with 1..4",
}
ASSUMPTIONS = ["complex parameters with forward mode are outside (JAX refuses "
               "holomorphic ambiguity)",
               "tolerance 2e-5 (single-precision step size and bias "
               "correction)"]


def sched(i):
    return 0.05 / (1.0 + 1.0 * i)


OPTS = {"default": {}, "betas": dict(b1=0.5, b2=0.7),
        "eps": dict(eps=0.3), "clip": dict(clip=0.2),
        "all": dict(b1=0.8, b2=0.9, eps=0.05, clip=0.5)}
KINDS = ["real", "complex", "mixed", "mixed2"]


def build(kind):
    if kind == "real":
        ps = [Par(0.7, 0.3), Par(1.3, -0.2)]
    elif kind == "complex":
        ps = [Par(0.7 + 0.2j, 0.3 - 0.1j, "complex128"),
              Par(1.3 - 0.4j, -0.2 + 0.3j, "complex128")]
    elif kind == "mixed":
        ps = [Par(0.7, 0.3), Par(1.3 - 0.4j, -0.2 + 0.3j, "complex128")]
    else:
        ps = [Par(1.3 - 0.4j, -0.2 + 0.3j, "complex128"), Par(0.7, 0.3)]
    return pmm.SequentialModel([ps[0], pmm.SequentialModel([ps[1]]), Tick()])


def vals(m):
    p = m.get_params()
    return [np.asarray(x) for x in (p[0]["w"], p[0]["c"], p[1][0]["w"],
                                    p[1][0]["c"])]


def data(kind, n=4):
    X = lib.grid((n, 1), 0.3) if kind == "real" else lib.cgrid((n, 1), 0.3)
    Y = (lib.grid((n, 1), 1.1) if kind == "real" else lib.cgrid((n, 1), 1.1))
    return X, Y * 0.5


def ref_loss(X, Y):
    X, Y = jnp.asarray(X), jnp.asarray(Y)

    def f(p):
        y = p[2] * (p[0] * X + p[1]) + p[3]
        return jnp.mean(jnp.abs(y - Y) ** 2)
    return f


class Ref:
    def __init__(self, m):
        self.s = [Slot(x) for x in vals(m)]

    def epoch(self, batches, lr, **kw):
        for X, Y in batches:
            gs = ref_grads(ref_loss(X, Y), [s.x for s in self.s])
            for s, g in zip(self.s, gs):
                s.update(g, lr, **kw)
        for s in self.s:
            s.tick()

    def snap(self):
        return [s.copy() for s in self.s]


def cases(tier):
    out = []
    th = tier == "thorough"
    for kind, bs, lr, opt, fwd in itertools.product(
            KINDS, (4, 1, 3), ("const", "sched"), OPTS, (False, True)):
        if fwd and kind != "real":
            continue
        if not th:
            if opt not in ("default", "all") and (bs != 4 or lr == "sched"
                                                  or fwd):
                continue
            if opt == "all" and lr == "const":
                continue
            if fwd and bs == 1:
                continue
        out.append({"t": "steps", "kind": kind, "bs": bs, "lr": lr,
                    "opt": opt, "fwd": fwd, "E": 3})
    R = (1, 2) if not th else (1, 2, 3, 4)
    hows = ["direct", "copy", "save", "savez"]
    for k, (kind, N, K, lr, how) in enumerate(itertools.product(
            ("real", "complex", "mixed"), R, R, ("const", "sched"), hows)):
        if not th and (kind == "mixed" or how != hows[(k + N + K + (
                lr == "sched")) % 4] and how != "direct"):
            continue
        out.append({"t": "split", "kind": kind, "parts": [N, K], "lr": lr,
                    "how": how, "best": None})
    for kind in ("real", "complex"):
        for N in (2, 3):
            for b in range(0, N + 1):
                out.append({"t": "split", "kind": kind, "parts": [N, 2],
                            "lr": "sched", "how": "direct", "best": b})
    for kind, lr in itertools.product(KINDS, ("const", "sched")):
        out.append({"t": "split", "kind": kind, "parts": [1, 1, 2],
                    "lr": lr, "how": "save", "best": None})
        out.append({"t": "split", "kind": kind, "parts": [1, 2],
                    "lr": lr, "how": "restart", "best": None})
    for name in ("mse",):
        for kind in ("real", "complex"):
            out.append({"t": "named", "loss": name, "kind": kind})
    out.append({"t": "noresume"})
    return out


LR = {"const": 0.05, "sched": sched}


def compare(ctx, m, slots, msg):
    for k, (g, s) in enumerate(zip(vals(m), slots)):
        if g.dtype != s.x.dtype and np.iscomplexobj(g) != np.iscomplexobj(
                s.x):
            ctx.fail("parameter changed its number type", f"{msg}: {k}")
        if not np.allclose(g, s.x, rtol=2e-5, atol=2e-5):
            ctx.fail("parameters differ from the reference optimizer",
                     f"{msg}: parameter {k} is {g}, reference {s.x}")


def train(m, log, X, Y, E, lr, bs, resume, script=None, **kw):
    """script: table of validation losses by number of batches seen."""
    n = X.shape[0]
    Yt = {"y": Y, "n": jnp.zeros((n, 1))}

    def loss(ep, X, Y, P):
        log.hook("t", X, Y["y"])
        return jnp.mean(jnp.abs(P["y"] - Y["y"]) ** 2)

    def val(ep, X, Y, P):
        if script is None:
            return -P["n"].real[0, 0].astype(jnp.float64)
        return jnp.asarray(script)[P["n"].real[0, 0].astype(int)]
    if script is not None:
        Xv, Yv = X, Yt
    else:
        Xv, Yv = X, Yt
    m.train(X, Y=Yt, X_val=Xv, Y_val=Yv, loss_fn=loss, val_loss_fn=val,
            lr=lr, batch_size=bs, epochs=E, verbose=False, batch_rng=2,
            resume=resume, **kw)
    ev = [(x, y) for _, x, y in log.flush()]
    per = -(-n // bs)
    return [ev[i:i + per] for i in range(0, len(ev), per)]


def run(case, ctx):
    {"steps": r_steps, "split": r_split, "named": r_named,
     "noresume": r_noresume}[case["t"]](case, ctx)


def r_steps(case, ctx):
    m = build(case["kind"])
    X, Y = data(case["kind"])
    m.compile(lib.key(0), (1,))
    ref = Ref(m)
    opt = OPTS[case["opt"]]
    eps = train(m, Log(), X, Y, case["E"], LR[case["lr"]], case["bs"], False,
                fwd=case["fwd"], **opt)
    if len(eps) != case["E"]:
        ctx.fail("wrong number of epochs", f"{case}: {len(eps)}")
    for e, b in enumerate(eps):
        ref.epoch(b, LR[case["lr"]], **opt)
        for k in range(len(b)):
            ctx.state(repr(sorted(case.items())), e, k)
            ctx.step()
    compare(ctx, m, ref.s, str(case))
    ctx.outcome("ok")
    ctx.trace()


def persist(m, how):
    if how == "copy":
        return m.copy()
    if how in ("save", "savez"):
        with lib.scratch() as d:
            f = os.path.join(d, "m.npz")
            (m.save if how == "save" else m.save_compressed)(f)
            return pmm.SequentialModel.from_file(f)
    return m


def r_split(case, ctx):
    m = build(case["kind"])
    X, Y = data(case["kind"], 3)
    m.compile(lib.key(0), (1,))
    ref = Ref(m)
    lr = LR[case["lr"]]
    log = Log()
    for i, E in enumerate(case["parts"]):
        resume = i > 0 and case["how"] != "restart"
        if i > 0:
            m = persist(m, case["how"])
            if not resume:
                for s in ref.s:
                    s.fresh()
        script = None
        if case["best"] is not None and i == 0:
            script = [1.0 if k != case["best"] else 0.0
                      for k in range(E + 1)]
            if case["best"] == 0:
                script[0] = -1.0
        eps = train(m, log, X, Y, E, lr, 3, resume, script)
        snaps = [ref.snap()]
        for e, b in enumerate(eps):
            ref.epoch(b, lr)
            snaps.append(ref.snap())
            ctx.state(repr(sorted(case.items())), i, e)
            ctx.step()
        if script is not None:
            ref.s = snaps[case["best"]]
        compare(ctx, m, ref.s, f"{case} part {i}")
    ctx.outcome(case["how"])
    ctx.trace()


def r_named(case, ctx):
    """Named loss, whole data set per batch, three epochs."""
    m = build(case["kind"])
    X, Y = data(case["kind"], 3)
    m = pmm.SequentialModel(m.modules[:2])
    m.compile(lib.key(0), (1,))
    ref = Ref(m)
    m.train(X, Y=Y, loss_fn=case["loss"], lr=0.01, batch_size=3, epochs=3,
            verbose=False, batch_rng=2)
    for e in range(3):
        ref.epoch([(X, Y)], 0.01)
        ctx.state("named", case["kind"], e)
        ctx.step()
    compare(ctx, m, ref.s, str(case))
    ctx.trace()


def r_noresume(case, ctx):
    """There is nothing to resume before the first training."""
    m = build("real")
    m.compile(lib.key(0), (1,))
    X, Y = data("real", 3)
    before = vals(m)
    try:
        train(m, Log(), X, Y, 1, 0.05, 3, True)
    except Exception:
        ctx.outcome("resume refused")
        if lib.exact(before, vals(m)):
            ctx.fail("refused resume changed the model")
        return
    ctx.fail("resume accepted without anything to resume")
