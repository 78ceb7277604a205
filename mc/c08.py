"""C08 - every epoch uses every sample exactly once, with its own target.

Every sample carries its identity; the loss functions report each batch they
are given, in order.  All (sample count, batch size) and (validation count,
validation batch size) pairs and all data modes x structures are run.
"""
import itertools

from . import lib
from .lib import M, jax, jnp, np, pmm
from .toys import Noise
from .trainlib import Log, Par
from parametricmatrixmodels.modules import BaseModule

ID = "C08"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of sample counts, batch sizes, data modes "
             "and structures; a monitor inside the loss functions checks "
             "every batch of every real training run")
RULE = ("a state is (configuration, epoch, batch); transitions are batches "
        "observed by the monitor")
BOUNDS = {
    "quick": "samples 1..6 x batch sizes 1..7; validation samples 1..4 x "
             "batch sizes 0..5; {supervised, uncertainty, unsupervised} x "
             "{array, tuple, dict, nested} x 3 sizes x {own, shared} "
             "validation data; 2 epochs; same-seed repetition, with "
             "seeds as numbers and keys",
    "thorough": "samples 1..9 x batch sizes 1..10 x modes; validation 1..6 x "
                "0..7; all structures; 3 epochs",
}
ASSUMPTIONS = []


class Seen(BaseModule):
    """State = order-sensitive digest of the samples seen in training;
    output {"y": data, "d": digest before, "t": training flag}."""
    __version__ = "0.0.0"

    def __init__(self):
        self.s = jnp.zeros((1,), jnp.float64)

    @property
    def name(self):
        return "Seen"

    def is_ready(self):
        return True

    def compile(self, rng, input_shape, /):
        pass

    def get_output_shape(self, input_shape, /):
        return {"y": input_shape, "d": (1,), "t": (1,)}

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return ()

    def set_params(self, params, /):
        pass

    def get_state(self):
        return self.s

    def set_state(self, state, /):
        self.s = state

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            x = jax.tree.leaves(data)[0]
            b = x.shape[0]
            out = {"y": data, "d": jnp.broadcast_to(state[None], (b, 1)),
                   "t": jnp.full((b, 1), 1.0 if training else 0.0)}
            if training:
                ids = x[:, 0]
                s = state[0]
                for i in range(b):
                    s = (3.0 * s + ids[i]) % 1009.0
                state = s[None]
            return out, state
        return fn


class ParY(Par):
    """Acts on the "y" part only, with noise from the module's key."""

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            w, c = params["w"][0], params["c"][0]
            r = jax.random.uniform(rng, (), jnp.float64)
            return dict(data, y=jax.tree.map(lambda x: w * x + c + r,
                                             data["y"])), state
        return fn


STRUCT = ["array", "tuple", "dict", "nested"]


def mk(struct, base, n):
    """Data whose every row encodes (leaf, sample)."""
    i = jnp.arange(1.0, n + 1.0)
    a = (base + i)[:, None]
    if struct == "array":
        return a
    b = base + 100.0 * i[:, None] + jnp.arange(2.0)[None, :]
    c = base + 10000.0 * i[:, None, None] + jnp.zeros((1, 2, 1))
    if struct == "tuple":
        return (a, b)
    if struct == "dict":
        return {"p": a, "z": c}
    return [a, {"u": b, "v": (c,)}]


def ids(tree, base):
    """Sample ids of all leaves; None if leaves disagree."""
    ls = jax.tree.leaves(tree)
    out = None
    for x in ls:
        x = np.asarray(x).reshape(x.shape[0], -1)[:, 0] - base
        if np.all(np.abs(x) >= 10000 - 1e-9):
            x = x / 10000
        elif np.all(np.abs(x) >= 100 - 1e-9):
            x = x / 100
        if out is None:
            out = x
        elif not np.allclose(out, x):
            return None
    return [int(round(v)) for v in out]


def cases(tier):
    out = []
    N, B, V, VB = ((6, 7, 4, 5) if tier == "quick" else (9, 10, 6, 7))
    E = 2 if tier == "quick" else 3
    base = dict(n=3, bs=2, nv=2, vb=0, mode="sup", struct="array", E=E,
                own=True, twice=False, verbose=False)
    for n, bs in itertools.product(range(1, N + 1), range(1, B + 1)):
        for mode in (("sup",) if tier == "quick" else ("sup", "unc",
                                                       "unsup")):
            out.append(dict(base, n=n, bs=bs, mode=mode))
    for nv, vb in itertools.product(range(1, V + 1), range(0, VB + 1)):
        out.append(dict(base, nv=nv, vb=vb))
    sizes = [(5, 2), (4, 4), (3, 1)] if tier == "quick" else \
        [(5, 2), (4, 4), (3, 1), (7, 3), (1, 1)]
    for mode, st, (n, bs), own in itertools.product(
            ("sup", "unc", "unsup"), STRUCT, sizes, (True, False)):
        if tier == "quick" and own != ((n + STRUCT.index(st)) % 2 == 0):
            continue
        out.append(dict(base, mode=mode, struct=st, n=n, bs=bs, own=own,
                        nv=3, vb=2))
    for mode, v in itertools.product(("sup", "unc", "unsup"), (True, False)):
        out.append(dict(base, mode=mode, n=5, bs=2, nv=3, vb=2, twice=True,
                        verbose=v))
    for u in (1, 2, 3):
        out.append(dict(base, n=5, bs=2, nv=4, vb=2, unroll=u))
    out.append(dict(t="reject"))
    out += [dict(t="seeds", bs=b, own=o) for b in (1, 2, 4)
            for o in (True, False)]
    return out


def run(case, ctx):
    if case.get("t") == "reject":
        return reject(ctx)
    if case.get("t") == "seeds":
        return seeds(case, ctx)
    n, bs, nv, vb, E = (case[k] for k in ("n", "bs", "nv", "vb", "E"))
    mode, st = case["mode"], case["struct"]
    XB, YB, UB, VB_ = 0.0, 0.25, 0.5, 40.0
    X, Y, U = mk(st, XB, n), mk(st, YB, n), mk(st, UB, n)
    XV, YV, UV = mk(st, VB_, nv), mk(st, VB_ + YB, nv), mk(st, VB_ + UB, nv)

    def full(y, k):
        return {"y": y, "d": jnp.zeros((k, 1)), "t": jnp.zeros((k, 1))}
    results = []
    for rep in range(2 if case["twice"] else 1):
        log = Log()
        par = ParY(1.0, 0.0)
        m = pmm.SequentialModel([Seen(), par if case["twice"] else
                                 pmm.SequentialModel([par])])
        m.compile(lib.key(7), lib.shapes(X))
        m.set_rng(lib.key(5))

        def err(P):
            return sum(jnp.mean(x ** 2) * 1e-6 for x in
                       jax.tree.leaves(P["y"]))

        def rec(tag, ep, X, Y, U, P):
            log.hook(tag, jnp.asarray(ep), X, Y, U, P["d"], P["t"])

        if mode == "sup":
            def loss(ep, X, Y, P):
                rec("t", ep, X, Y["y"], (), P)
                return err(P)

            def val(ep, X, Y, P):
                rec("v", ep, X, Y["y"], (), P)
                return err(P)
            kw = dict(Y=full(Y, n))
            if case["own"]:
                kw.update(X_val=XV, Y_val=full(YV, nv))
        elif mode == "unc":
            def loss(ep, X, Y, U, P):
                rec("t", ep, X, Y["y"], U["y"], P)
                return err(P)

            def val(ep, X, Y, U, P):
                rec("v", ep, X, Y["y"], U["y"], P)
                return err(P)
            kw = dict(Y=full(Y, n), Y_unc=full(U, n))
            if case["own"]:
                kw.update(X_val=XV, Y_val=full(YV, nv),
                          Y_val_unc=full(UV, nv))
        else:
            def loss(ep, X, P):
                rec("t", ep, X, (), (), P)
                return err(P)

            def val(ep, X, P):
                rec("v", ep, X, (), (), P)
                return err(P)
            kw = dict()
            if case["own"]:
                kw.update(X_val=XV)
        shared = not case["own"]
        if shared:
            val = None      # the training loss validates on training data
        args = dict(loss_fn=loss, val_loss_fn=val, lr=1e-3, batch_size=bs,
                    val_batch_size=vb, epochs=E, batch_rng=11,
                    verbose=case["verbose"], unroll=case.get("unroll"))
        Xc = jax.tree.map(jnp.copy, X)
        m.train(X, **args, **kw)
        if lib.exact(X, Xc):
            ctx.fail("training changed its input", str(case))
        ev = log.flush()
        judge(ctx, case, ev, shared, n, bs, nv, vb, E, XB, YB, UB, VB_, mode)
        results.append((lib.host(m.get_params()), lib.host(m.get_state()),
                        [jax.tree.map(np.asarray, e[1:]) for e in ev]))
        ctx.trace()
    if case["twice"]:
        bad = lib.exact(results[0][:2], results[1][:2]) or lib.exact(
            results[0][2], results[1][2])
        if bad:
            ctx.fail("same seeds gave a different run", f"{case}: {bad}")


def judge(ctx, case, ev, shared, n, bs, nv, vb, E, XB, YB, UB, VB_, mode):
    """Replay the event log against the reference epoch automaton."""
    # classify by the training flag the module saw
    phase = []
    for e in ev:
        tag, ep, X, Y, U, d, t = e
        tr = bool(t[0, 0] == 1.0)
        if np.any(t != t[0, 0]):
            ctx.fail("mixed training flag", str(case))
        if not shared and tr != (tag == "t"):
            ctx.fail("training flag does not match the phase",
                     f"{case}: {tag} evaluated with training={tr}")
        phase.append((tr, int(ep), X, Y, U, float(d[0, 0])))
    bs_ = min(bs, n)
    vn = n if shared else nv
    vb_ = vn if vb <= 0 else min(vb, vn)
    vbase = 0.0 if shared else VB_

    def sizes(k, b):
        return [b] * (k // b) + ([k % b] if k % b else [])
    digest = 0.0
    pos = 0

    def group(training, epoch, total, b, base):
        nonlocal pos, digest
        want = sizes(total, b)
        seen = []
        got = []
        for _ in want:
            if pos >= len(phase) or phase[pos][0] != training:
                break
            tr, ep, X, Y, U, d = phase[pos]
            pos += 1
            ctx.step()
            i = ids(X, base)
            if i is None:
                ctx.fail("parts of one sample were separated",
                         f"{case} epoch {epoch}: {lib.show(X)}")
            got.append(len(i))
            seen += i
            if mode in ("sup", "unc"):
                if ids(Y, base + YB) != i:
                    ctx.fail("a sample was paired with another's target",
                             f"{case} epoch {epoch}: inputs {i}, targets "
                             f"{ids(Y, base + YB)}")
            if mode == "unc" and ids(U, base + UB) != i:
                ctx.fail("a sample was paired with another's uncertainty",
                         f"{case} epoch {epoch}: inputs {i}, uncertainties "
                         f"{ids(U, base + UB)}")
            if training and ep != epoch:
                ctx.fail("wrong epoch number passed to the loss",
                         f"{case}: {ep}, expected {epoch}")
            if abs(d - digest) > 1e-6:
                ctx.fail("state does not follow the training batches in "
                         "sequence", f"{case} epoch {epoch}: {d} vs {digest}")
            if training:
                for v in i:
                    digest = (3.0 * digest + (v + base)) % 1009.0
            ctx.state(repr(sorted(case.items())), training, epoch, pos)
        if sorted(got) != sorted(want):
            ctx.fail("wrong batch sizes", f"{case} "
                     f"{'training' if training else 'validation'} epoch "
                     f"{epoch}: {got}, expected {want}")
        if sorted(seen) != list(range(1, total + 1)):
            ctx.fail("not every sample was used exactly once",
                     f"{case} {'training' if training else 'validation'} "
                     f"epoch {epoch}: {seen}")

    group(False, -1, vn, vb_, vbase)
    for e in range(E):
        group(True, e, n, bs_, 0.0)
        group(False, e, vn, vb_, vbase)
    if pos != len(phase):
        ctx.fail("samples used after the last epoch",
                 f"{case}: {len(phase) - pos} more batches")
    ctx.outcome(f"{len(sizes(n, bs_))}+{len(sizes(vn, vb_))}")


def seeds(case, ctx):
    """Models not compiled before: the seeds given decide the run."""
    X, Y = lib.grid((4, 2), .3), lib.grid((4, 2), 1.1)
    # later epochs are always better
    kw = dict(X_val=X[:2] + .1, Y_val=Y[:2],
              val_loss_fn=lambda ep, X, Y, P: 1. / (1. + ep + 0 * jnp.sum(P))
              ) if case["own"] else {}

    def go(form, init, batch, model):
        f = (lambda i: i) if form == "int" else lib.key
        m = pmm.SequentialModel([M.LinearNN(3), Noise(), M.LinearNN(2)],
                                rng=f(model))
        m.train(X, Y=Y, initialization_seed=f(init), batch_rng=f(batch),
                lr=.05, epochs=2, batch_size=case["bs"], verbose=False,
                **kw)
        ctx.step()
        ctx.state("seeds", case["bs"], case["own"], form, init, batch, model)
        return lib.host(m.get_params())
    first = go("int", 3, 11, 5)
    for form in ("int", "key"):
        for _ in range(2):
            bad = lib.exact(go(form, 3, 11, 5), first)
            ctx.check(not bad, "same seeds gave a different run",
                      lambda: f"{case} seeds as {form}: {bad}")
    ctx.check(lib.exact(go("int", 4, 11, 5), first), "the initialization "
              "seed has no effect", str(case))
    ctx.trace()


def reject(ctx):
    """Data whose parts cannot be paired up is refused."""
    X, Y = mk("array", 0, 3), mk("array", 0, 3)

    def model():
        m = pmm.SequentialModel([Par(1.0, 0.0)])
        m.compile(lib.key(0), (1,))
        return m
    bad = [
        ("Y shorter", X, dict(Y=Y[:2])),
        ("Y longer", X[:2], dict(Y=Y)),
        ("Y_unc shorter", X, dict(Y=Y, Y_unc=Y[:2], loss_fn="mse_unc")),
        ("Y_val shorter", X, dict(Y=Y, X_val=X, Y_val=Y[:2])),
        ("Y_val longer", X, dict(Y=Y, X_val=X[:1], Y_val=Y[:2])),
        ("Y_val without Y", X, dict(X_val=X, Y_val=Y,
                                    loss_fn="mse_unsupervised")),
        ("Y_unc without Y", X, dict(Y_unc=Y, loss_fn="mse_unsupervised")),
        ("Y_val_unc missing", X, dict(Y=Y, Y_unc=Y, X_val=X, Y_val=Y,
                                      loss_fn="mse_unc")),
        ("Y_val_unc shorter", X, dict(Y=Y, Y_unc=Y, X_val=X, Y_val=Y,
                                      Y_val_unc=Y[:1], loss_fn="mse_unc")),
        ("ragged X", (X, X[:2]), dict(Y=(Y, Y))),
        ("X_val of another shape", X, dict(Y=Y, X_val=jnp.ones((3, 2)),
                                           Y_val=Y)),
        ("Y_val of another shape", X, dict(Y=Y, X_val=X,
                                           Y_val=jnp.ones((3, 2)))),
    ]
    for name, x, kw in bad:
        m = model()
        p = lib.host(m.get_params())
        try:
            m.train(x, epochs=1, batch_size=2, verbose=False, **kw)
        except Exception:
            ctx.outcome("rejected")
            ctx.step()
            ctx.state(name)
            if lib.exact(p, lib.host(m.get_params())):
                ctx.fail("refused training changed the model", name)
            continue
        ctx.fail("unpairable data was accepted", name)
