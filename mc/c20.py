"""C20 - an interrupt stops training cleanly and keeps the best model.

Every observable point of a verbose training run (each training batch, each
validation batch, each end-of-epoch callback, each progress output) is an
injection point; for each of them and both signals a real training run is
interrupted exactly there and its result compared with the reference.
"""
import os
import signal
import sys

from . import lib
from .lib import jax, jnp, np, pmm
from .trainlib import Par, Tick

ID = "C20"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive fault injection: a signal is delivered at every "
             "observable point of a real verbose training run, and the "
             "outcome is compared with the reference for that point")
RULE = ("a state is (injection point, signal); transitions are the epochs of "
        "the interrupted run and the operations that follow it")
BOUNDS = {
    "quick": "runs of 3 epochs x 2 batches x 2 validation batches, every hook "
             "point and every following progress output x SIGINT, SIGTERM; "
             "follow-up: use, resume, save and load, signal again",
    "thorough": "runs of 4 epochs x 3 batches, 3 loss scripts, all follow-ups "
                "at every point",
}
ASSUMPTIONS = ["training runs on the main thread (Python delivers signals "
               "there)", "one signal per run"]

SCRIPTS = {"mixed": [5., 3., 4., 2., 6.], "down": [5., 4., 3., 2., 1.],
           "up": [1., 2., 3., 4., 5.]}
SIG = {"INT": signal.SIGINT, "TERM": signal.SIGTERM}


def config(tier):
    return (3, 3, 2) if tier == "quick" else (4, 5, 2)    # E, n, bs


def points(E, n, bs):
    per = -(-n // bs) + 2 + 1
    return 2 + E * per


def cases(tier):
    E, n, bs = config(tier)
    out = []
    scripts = ["mixed"] if tier == "quick" else list(SCRIPTS)
    for sc in scripts:
        for sig in SIG:
            for k in range(1, points(E, n, bs) + 1):
                for where in ("hook", "write"):
                    if tier == "quick" and where == "write" and \
                            (k + (sig == "INT")) % 2:
                        continue
                    out.append({"E": E, "n": n, "bs": bs, "sc": sc,
                                "sig": sig, "k": k, "where": where,
                                "after": ["use", "resume", "save"][
                                    (k + (sig == "TERM")) % 3]
                                if tier == "quick" else "all"})
    for sig in list(SIG) + [None]:
        out.append({"E": 2, "n": n, "bs": bs, "sc": "down", "sig": sig,
                    "k": 10 ** 6, "where": "hook", "after": "all"})
    for what in ("loss raises", "refused"):
        out.append({"t": "error", "what": what})
    out.append({"t": "twice"})
    return out


class Out:
    """stdout stand-in that reports writes."""

    def __init__(self, f):
        self.f = f

    def write(self, s):
        self.f()
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError


class Session:
    def __init__(self, case):
        self.case = case
        self.count = 0
        self.armed = False
        self.fired = None          # (epoch lo, epoch hi) in progress
        self.epoch = -1            # epoch in progress by the hooks
        self.between = True        # after callback, before first batch
        self.batches = 0
        self.in_epoch = 0

    def fire(self):
        if self.between:
            self.fired = (self.epoch, self.epoch + 1)
        else:
            self.fired = (self.epoch, self.epoch)
        self.armed = False
        os.kill(os.getpid(), SIG[self.case["sig"]])

    def hook(self, kind):
        if self.armed:
            # no output appeared since the previous hook
            self.armed = False
        self.count += 1
        if kind == "t":
            if self.in_epoch == 0:
                self.epoch += 1
            self.in_epoch += 1
            self.batches += 1
            self.between = False
        elif kind == "v" and self.epoch == -1:
            self.between = False     # before the first epoch
        elif kind == "c":
            self.in_epoch = 0
        if self.count == self.case["k"] and self.case["sig"]:
            if self.case["where"] == "hook":
                self.between = False
                self.fire()
            else:
                self.armed = True
        if kind == "c" or self.epoch == -1:
            self.between = True      # later output may belong to the next

    def write(self):
        if self.armed:
            self.fire()


def make():
    m = pmm.SequentialModel([Par(0.5, 0.25), Tick()])
    m.compile(lib.key(0), (1,))
    return m


def train(m, ses, E, n, bs, script, resume=False, start=0):
    X = jnp.arange(1.0, n + 1.0)[:, None] / n
    Y = {"y": 2 * X + 1, "n": jnp.zeros((n, 1))}
    per = -(-n // bs)
    tab = jnp.asarray(list(script) + [9.0] * 40)

    def h(kind):
        def f(*a):
            ses.hook(kind)
        return f

    def loss(ep, X, Y, P):
        jax.debug.callback(h("t"), X, ordered=True)
        return jnp.mean((P["y"] - Y["y"]) ** 2)

    def val(ep, X, Y, P):
        jax.debug.callback(h("v"), X, ordered=True)
        return tab[P["n"][0, 0].astype(int) // per - start]

    def cb(rng, ep, params):
        jax.debug.callback(h("c"), ep, ordered=True)
        return rng, params
    old = sys.stdout
    sys.stdout = Out(ses.write)
    try:
        m.train(X, Y=Y, X_val=X[:2], Y_val=jax.tree.map(lambda y: y[:2], Y),
                loss_fn=loss, val_loss_fn=val, lr=0.1, batch_size=bs,
                val_batch_size=1, epochs=E, verbose=True, batch_rng=4,
                callback=cb, resume=resume)
        jax.effects_barrier()
    finally:
        sys.stdout = old


def run(case, ctx):
    got = []

    def mine(signum, frame):
        got.append(signum)
    saved = {s: signal.signal(s, mine) for s in SIG.values()}
    try:
        if case.get("t") == "error":
            r_error(case, ctx, got, mine)
        elif case.get("t") == "twice":
            r_twice(case, ctx, got, mine)
        else:
            r_point(case, ctx, got, mine)
    finally:
        for s, h in saved.items():
            signal.signal(s, h)


def reacts(ctx, case, got, mine):
    for name, s in SIG.items():
        if signal.getsignal(s) is not mine:
            ctx.fail("signal handling not restored after training",
                     f"{case}: {name} handler is {signal.getsignal(s)}")
        n = len(got)
        os.kill(os.getpid(), s)
        if len(got) != n + 1 or got[-1] != s:
            ctx.fail("process does not react to signals as before training",
                     f"{case}: {name}")
        ctx.step()


def best_of(vals):
    return int(np.argmin(vals))


def r_point(case, ctx, got, mine):
    E, n, bs = case["E"], case["n"], case["bs"]
    script = SCRIPTS[case["sc"]]
    per = -(-n // bs)
    m = make()
    probe = jnp.asarray([[0.5], [1.0]])
    ses = Session(case)
    # the undisturbed parameters after every number of epochs
    try:
        train(m, ses, E, n, bs, script)
    except BaseException as e:
        ctx.fail("the interrupted run raised", f"{case}: "
                 f"{type(e).__name__} {e}")
    ctx.state(case["k"], case["where"], case["sig"], case["sc"])
    if ses.fired is None:
        ok = [E]
        ctx.outcome("not delivered (no output there)" if case["sig"] and
                    case["k"] < 10 ** 6 else "undisturbed")
    else:
        lo, hi = ses.fired
        ok = [min(e + 1, E) for e in range(lo, hi + 1)]
        ctx.outcome(f"interrupted in epoch {lo}..{hi}")
    if got:
        ctx.fail("the signal did not reach the training run", f"{case}")
    ran = ses.batches / per
    if ran not in ok:
        ctx.fail("run did not end at the end of the epoch in progress",
                 f"{case}: signal in epoch {ses.fired}, {ran} epochs run")
    ran = int(ran)
    want = best_of(script[:ran + 1])
    st = float(np.asarray(m.get_state()[1])[0])
    if st != want * per:
        ctx.fail("model state is not that of the best epoch so far",
                 f"{case}: {st} batches, best epoch {want} of {ran}")
    # parameters: those of an undisturbed run of `want` epochs (same seeds)
    r = make()
    quiet = Session({"k": -1, "sig": None, "where": ""})
    train(r, quiet, want, n, bs, [9., 8., 7., 6., 5., 4.][:want + 1])
    bad = lib.exact(lib.host(r.get_params()), lib.host(m.get_params()))
    if bad:
        ctx.fail("parameters are not those of the best epoch so far",
                 f"{case}: {bad}")
    ctx.step(ran + 1)
    reacts(ctx, case, got, mine)
    follow = case["after"]
    if follow in ("use", "all"):
        y = m(probe, dtype=np.float64)["y"]
        p = m.get_params()[0]
        if lib.same(np.asarray(y), np.asarray(p["w"] * probe + p["c"]),
                    1e-6, 1e-6):
            ctx.fail("interrupted model not usable", str(case))
        ctx.step()
    if follow in ("save", "all"):
        with lib.scratch() as d:
            f = os.path.join(d, "m.npz")
            m.save(f)
            q = pmm.SequentialModel.from_file(f)
        if lib.exact(lib.host(q.get_params()), lib.host(m.get_params())) or \
                lib.exact(lib.host(q.get_state()), lib.host(m.get_state())):
            ctx.fail("interrupted model not saved faithfully", str(case))
        ctx.step()
    if follow in ("resume", "all"):
        s2 = Session({"k": -1, "sig": None, "where": ""})
        train(m, s2, 1, n, bs, [5., 1.], True, want)
        if s2.batches != per or float(np.asarray(m.get_state()[1])[0]) != \
                (want + 1) * per:
            ctx.fail("interrupted run could not be resumed",
                     f"{case}: {s2.batches} batches")
        reacts(ctx, case, got, mine)
        ctx.step()
    ctx.trace()


def r_error(case, ctx, got, mine):
    m = make()
    X = jnp.ones((2, 1))

    def bad_loss(ep, X, Y, P):
        raise ValueError("user error")
    try:
        if case["what"] == "loss raises":
            m.train(X, Y={"y": X, "n": X}, loss_fn=bad_loss, epochs=1,
                    verbose=True)
        else:
            m.train(X, Y={"y": X, "n": X}, loss_fn="no such loss", epochs=1,
                    verbose=True)
    except Exception:
        pass
    else:
        ctx.fail("error swallowed", str(case))
    ctx.state(case["what"])
    reacts(ctx, case, got, mine)


def r_twice(case, ctx, got, mine):
    """An interrupt stops the run it hits, not the next one."""
    for sig in SIG:
        m = make()
        ses = Session({"k": 4, "sig": sig, "where": "hook"})
        train(m, ses, 3, 3, 2, SCRIPTS["down"])
        if ses.batches != 2:
            ctx.fail("run did not end at the end of the epoch in progress",
                     f"{ses.batches} batches")
        m2 = make()
        s2 = Session({"k": -1, "sig": None, "where": ""})
        train(m2, s2, 2, 3, 2, SCRIPTS["down"])
        if s2.batches != 4:
            ctx.fail("an earlier interrupt stopped a later run",
                     f"{s2.batches} batches")
        reacts(ctx, case, got, mine)
        ctx.state("twice", sig)
        ctx.step(2)
