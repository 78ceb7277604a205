"""C06 - training returns the best validated model and stops when it should.

The validation loss is scripted: a state-carrying module reports how many
training batches the parameters have seen, and the validation loss looks the
next value up in a table.  All scripts over a small alphabet are enumerated by
walking the reference stopping automaton (a branch ends where the automaton
stops); real training runs are compared with the automaton's verdict.
"""
import itertools
import math

from . import lib
from .lib import jax, jnp, np, pmm
from .trainlib import Log, Par, Tick

ID = "C06"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the stopping automaton: every "
             "path up to the epoch bound is replayed as a real training run "
             "with scripted validation losses")
RULE = ("a state is (configuration, prefix of the loss script); each maximal "
        "path of the automaton is one real Model.train run; transitions are "
        "epochs")
BOUNDS = {
    "quick": "all loss scripts (up to order isomorphism where only order "
             "matters) over 3 values and 3 epochs for patience 1, 2, 9; over "
             "3-5 values and 2 epochs for minimum improvement -inf,-1,2, "
             "targets, NaN and inf; 3 scripts x 14 batch and data-mode "
             "variants; 24 pairs of consecutive runs",
    "thorough": "4 values, 4 epochs, patience 1..3, all data-mode and batch "
                "variants x all scripts of 3 epochs",
}
ASSUMPTIONS = ["starting validation loss is not NaN",
               "validation losses are exactly representable"]
INF = "inf"


def f(x):
    return {"inf": math.inf, "-inf": -math.inf, "nan": math.nan}[x] if isinstance(
        x, str) else float(x)


def automaton(vals, E, p, d, t, start=0):
    """Returns (epochs run, index of best) or None if vals is too short."""
    best, bi, pat, e = f(vals[0]), 0, p, 0
    while e < E and best > t and pat > 0:
        if e + 1 >= len(vals):
            return None
        v = f(vals[e + 1])
        pat = p if v <= best - d else pat - 1
        if v < best:
            best, bi = v, e + 1
        e += 1
    return e, bi


def paths(alpha, E, p, d, t, first=None):
    out = []

    def rec(v):
        r = automaton(v, E, p, d, t)
        if r is not None:
            out.append(list(v))
            return
        for a in alpha:
            rec(v + [a])
    for a in (first or alpha):
        if a == "nan":
            continue
        rec([a])
    return out


BASE = dict(E=3, p=9, d="-inf", t="-inf", mode="sup", bs=2, vb=0, n=2,
            verbose=False, cb=False, how="val")


def cases(tier):
    out = []
    seen = set()

    def add(vals, **kw):
        c = dict(BASE, **kw)
        if c["d"] in ("-inf", 0) and c["t"] == "-inf" and not any(
                isinstance(v, str) for v in vals):
            # only the order of the values matters: canonical ranks
            lev = sorted(set(vals))
            vals = [lev.index(v) for v in vals]
        c["vals"] = vals
        k = repr(sorted(c.items()))
        if k not in seen:
            seen.add(k)
            out.append(c)

    def fam(alpha, **kw):
        c = dict(BASE, **kw)
        for v in paths(alpha, c["E"], c["p"], f(c["d"]), f(c["t"])):
            add(v, **kw)
    th = tier == "thorough"
    A = [0, 1, 2]
    if not th:
        fam(A, E=3, p=9, d="-inf")
        fam([0, 1, 2, 3, 4], E=2, p=1, d=2, )
        for p, d in ((1, 0), (2, 0), (2, 2), (1, -1)):
            fam(A if d == 0 else A[:2] + [3], E=3 if d == 0 else 2, p=p, d=d)
        fam(A, E=2, p=9, d=0, t=1)
        fam([1, "nan", "inf"], E=2, p=1, d=0)
        fam([1, "nan", "inf"], E=2, p=2, d="-inf")
        for E in (0, 1):
            fam(A, E=E)
        S = [[1, 0, 2, 0], [2, 2, 1, 1], [1, 2, 0, 3]]
    else:
        A = [0, 1, 2, 3]
        for p in (1, 2, 3, 9):
            for d in ("-inf", -1, 0, 1, 2):
                fam(A if p < 9 and d != "-inf" else A[:3], E=4, p=p, d=d)
        for t in (2, 1, 0):
            for p in (1, 2, 9):
                fam(A[:3], E=4, p=p, d=0, t=t)
        for p in (1, 2):
            for d in ("-inf", 0):
                fam([1, 2, "nan", "inf"], E=3, p=p, d=d)
        for E in (0, 1, 2):
            fam(A, E=E)
        S = [list(x) for x in itertools.product((0, 1, 2), repeat=4)]
    variants = [dict(mode=m) for m in ("unsup", "unc", "noval", "lossonly")]
    variants += [dict(verbose=True), dict(cb=True), dict(bs=1), dict(vb=1),
                 dict(bs=1, vb=1, n=4, p=2, d=0), dict(n=3, bs=2, vb=0),
                 dict(mode="noval", verbose=True, p=2, d=0),
                 dict(how="tree"), dict(how="nested"), dict(how="unroll")]
    for v in variants:
        c = dict(BASE, **v)
        for s in S:
            vals = list(s)
            r = automaton(vals, c["E"], c["p"], f(c["d"]), f(c["t"]))
            if r is None:
                continue
            add(vals[:r[0] + 1], **v)
    # two runs in a row on the same model
    for a in ([1, 0, 2], [1, 2, 2], [2, 1, 0]):
        for b in ([2, 0], [0, 2], [2, 1], [1, 1]):
            for resume in (False, True):
                add(a, E=2, second=b, resume=resume)
    return out


def run(case, ctx):
    vals = list(case["vals"])
    E, p, d, t = case["E"], case["p"], f(case["d"]), f(case["t"])
    n, bs, vb = case["n"], case["bs"], case["vb"]
    mode = case["mode"]
    log = Log()
    mods = [Par(0.5, 0.25), Tick()]
    if case["how"] == "nested":
        mods = [pmm.SequentialModel([mods[0]]), mods[1]]
    m = pmm.SequentialModel(mods)
    tree = case["how"] == "tree"
    X = jnp.arange(1.0, n + 1.0)[:, None]
    Yv = 2 * X + 1
    if tree:
        X, Yv = {"q": X, "r": X + 1}, {"q": Yv, "r": Yv - 1}
    m.compile(lib.key(0), lib.shapes(X))
    batches = -(-n // bs)
    Y = {"y": Yv, "n": jnp.zeros((n, 1))}
    XV = jax.tree.map(lambda x: x[:2], X)
    YV = jax.tree.map(lambda x: x[:2], Y)
    if n == 4:
        XV, YV = X, Y
    table = [None]

    def err(P):
        return sum(jnp.mean(jnp.abs(a - b) ** 2) for a, b in zip(
            jax.tree.leaves(P["y"]), jax.tree.leaves(Yv_for(P))))

    def Yv_for(P):
        b = P["n"].shape[0]
        return jax.tree.map(lambda y: jnp.broadcast_to(jnp.mean(
            y, axis=0, keepdims=True), (b,) + y.shape[1:]), Yv)

    def look(P, X):
        i = P["n"][0, 0].astype(int) // batches
        v = table[0][i]
        log.hook("v", P["n"][:, 0], jax.tree.leaves(X)[0][:, 0], P["y"])
        return v

    def core(X, P):
        log.hook("t", jax.tree.leaves(X)[0][:, 0])
        return err(P)

    if mode in ("unsup",):
        def loss(ep, X, P): return core(X, P)

        def val(ep, X, P): return look(P, X)
        kw = dict(X_val=XV)
    elif mode == "unc":
        def loss(ep, X, Y, U, P): return core(X, P)

        def val(ep, X, Y, U, P): return look(P, X)
        kw = dict(Y=Y, Y_unc=jax.tree.map(jnp.ones_like, Y), X_val=XV,
                  Y_val=YV, Y_val_unc=jax.tree.map(jnp.ones_like, YV))
    elif mode == "noval":
        # validation falls back on the training data
        def loss(ep, X, Y, P):
            return core(X, P) * 0 + err(P) - jax.lax.stop_gradient(
                err(P)) + look(P, X)
        val = None
        kw = dict(Y=Y)
    else:
        def loss(ep, X, Y, P):
            c = core(X, P)
            if mode == "lossonly":
                return c - jax.lax.stop_gradient(c) + look(P, X)
            return c

        def val(ep, X, Y, P): return look(P, X)
        if mode == "lossonly":
            val = None
        kw = dict(Y=Y, X_val=XV, Y_val=YV)
    cb = None
    if case["cb"]:
        def cb(rng, epoch, params):
            return rng, jax.tree.map(lambda x: x + 1.0, params)

    probe = X

    def go(vals, E, resume=False):
        start = int(np.asarray(m.get_state()[-1])[0]) // batches
        pad = [0.0] * start + [f(v) for v in vals]
        # anything beyond the stopping point would look like the best epoch
        pad = pad + [-100.0 - k for k in range(6)]
        table[0] = jnp.asarray(pad, jnp.float64)
        before = lib.host(m(probe, dtype=np.float64)["y"])
        log.flush()
        m.train(X, loss_fn=loss, val_loss_fn=val, lr=0.1, batch_size=bs,
                val_batch_size=vb, epochs=E, target_loss=t,
                early_stopping_patience=p, early_stopping_min_delta=d,
                verbose=case["verbose"], batch_rng=3, callback=cb,
                unroll=2 if case["how"] == "unroll" else None,
                resume=resume, **kw)
        ev = log.flush()
        want_e, want_b = automaton(vals, E, p, d, t)
        for k in range(len(vals)):
            ctx.state(repr(sorted((a, b) for a, b in case.items()
                                  if a != "vals")), tuple(vals[:k + 1]))
        ctx.step(want_e + 1)
        got_t = sum(1 for x in ev if x[0] == "t")
        if mode in ("noval", "lossonly"):
            # the loss function is also used to validate
            nv = -(-n // vb) if vb else 1
            if mode == "lossonly":
                nv = -(-2 // vb) if vb else 1
            want_t = want_e * batches + (want_e + 1) * nv
        else:
            want_t = want_e * batches
        if got_t != want_t:
            ctx.fail("wrong number of epochs",
                     f"script {vals}: {got_t} training batches, expected "
                     f"{want_t} ({want_e} epochs of {batches})")
        st = float(np.asarray(m.get_state()[-1])[0])
        if st != (start + want_b) * batches:
            ctx.fail("model state is not that of the best epoch",
                     f"script {vals}: state of batch {st}, best is epoch "
                     f"{want_b} (batch {(start + want_b) * batches})")
        # predictions of the returned parameters equal the ones validated
        after = lib.host(m(probe, dtype=np.float64)["y"])
        if want_b == 0:
            bad = lib.exact(before, after)
            if bad:
                ctx.fail("starting parameters were best but the model "
                         "changed", f"script {vals}: {bad}")
        else:
            by = {}
            for x in ev:
                if x[0] != "v":
                    continue
                for i, (nn, xx) in enumerate(zip(x[1], x[2])):
                    by.setdefault(float(nn), {})[float(xx)] = jax.tree.map(
                        lambda y: y[i], x[3])
            rec = by[(start + want_b) * batches]
            p0 = np.asarray(jax.tree.leaves(probe)[0])[:, 0]
            for i, xx in enumerate(p0):
                if float(xx) not in rec:
                    continue
                bad = lib.same(jax.tree.map(lambda y: y[i], after),
                               rec[float(xx)], 1e-9, 1e-9)
                if bad:
                    ctx.fail("returned parameters are not the validated "
                             "ones", f"script {vals}, best {want_b}: {bad}")
        ctx.outcome(f"e{want_e}b{want_b}")
        ctx.trace()
    go(vals, E)
    if "second" in case:
        r = automaton(vals, E, p, d, t)
        go([f(vals[r[1]])] + case["second"], 2, case["resume"])
