"""C11 - a conformal wrapper reflects exactly its latest calibration.

Explicit-state exploration of histories: the reference state of a wrapper is
the calibration that was applied last; whatever came before, its intervals
must be those of a model wrapped afresh and calibrated once like that.
"""
import io
import itertools
import os
import pathlib
import warnings

from . import lib
from .c10 import PATTERN, inputs, intervals, residuals
from .lib import M, jax, jnp, np, pmm
from .toys import Fold, Lin, PLin
from parametricmatrixmodels.conformal import ConformalizedModel

ID = "C11"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all histories of calibrations, "
             "refused calibrations, predictions and persistence on the real "
             "wrapper; reference: a fresh wrapper calibrated once")
RULE = ("a state is (model, last calibration, history); a transition is one "
        "operation")
BOUNDS = {
    "quick": "sequential model: all histories of 2 operations out of 13 (8 "
             "calibrations, a refused one, 2 predictions, 2 ways of "
             "persisting) and of 3 out of 8; 5 further models: all pairs "
             "out of 7; 9 ways of saving and loading (2 for some "
             "calibrations) x 6 models; 6 x 20 pairs of queries out of 6 "
             "levels next to each other across rank thresholds",
    "thorough": "4 operations out of 13; further models: 3 operations "
                "out of 13",
}
ASSUMPTIONS = ["calibrating twice with the same arguments gives the same "
               "numbers to 1e-5 (parameters are float32)"]
ALPHA = [.1, .25, .5, .8]


def graph():
    m = pmm.NonSequentialModel(
        {"a": PLin(2., .5), "b": Lin(.5, 1.)},
        {"input": ["a"], "a": "b", "b": "output"}, rng=0)
    return m


MODELS = {
    "seq": (lambda: pmm.SequentialModel([PLin(2., .5)], rng=0), (1,)),
    "graph": (graph, (2,)),
    "tree": (lambda: pmm.SequentialModel([PLin(2., .5)], rng=0),
             {"a": (1,), "b": (2,)}),
    "stateful": (lambda: pmm.SequentialModel(
        [PLin(2., .5), Fold(train_only=True)], rng=0), (1,)),
    "eig": (lambda: pmm.SequentialModel(
        [M.AffineEigenvaluePMM(2, 2)], rng=0), (2,)),
    "nested": (lambda: pmm.SequentialModel([pmm.SequentialModel(
        [PLin(2., .5), Lin(2., 1.)]), PLin(.5, .1)], rng=0), (1,)),
}


def make(name):
    mk, shape = MODELS[name]
    m = mk()
    m.compile(3, shape)
    return m, shape


def sets(m, shape):
    """calibration name -> arguments"""
    X, X2 = inputs(shape, 4, "generic"), inputs(shape, 3, "generic", .8)
    C = inputs(shape, 5, "cat")
    T, T2 = inputs(shape, 6, "generic", .77), inputs(shape, 5, "cat", .77)
    one = lambda v: jax.tree.map(lambda _: v, shape,           # noqa
                                 is_leaf=lib.is_shape)
    y = lambda x, k=0: residuals(m(x, dtype=np.float64),       # noqa
                                 PATTERN[k:] + PATTERN[:k])
    xu = jax.tree.map(lambda x: .1 + .05 * jnp.abs(x), X)
    F, TR = False, True
    return {
        "plain": ((X, y(X)), {}),
        "other": ((X2, y(X2, 3)), {}),
        "train": ((X, y(X, 1)), dict(X_train=T)),
        "train2": ((X2, y(X2, 2)), dict(X_train=T2,
                                        parameter_sensitivity=F)),
        "bias": ((X, y(X, 4)), dict(stratified_bias_corrections=TR)),
        "strata": ((C, y(C)), dict(stratified_bias_corrections=one(TR),
                                   continuous_features=one(F))),
        "stratat": ((C, y(C, 5)), dict(
            stratified_bias_corrections=one(TR), X_train=T2,
            continuous_features=one(F))),
        "unc": ((X, y(X, 2)), dict(X_cal_unc=xu, Y_cal_unc=jax.tree.map(
            lambda v: .1 + jnp.abs(v) / 3, y(X, 2)), X_train=T)),
        "nodist": ((X2, y(X2)), dict(X_train=T, distance_sensitivity=F,
                                     input_sensitivity=F)),
    }


def refused(shape, S):
    """arguments that calibrate has to refuse"""
    (X, Y), (C, YC) = S["plain"][0], S["strata"][0]
    one = lambda v: jax.tree.map(lambda _: v, shape,           # noqa
                                 is_leaf=lib.is_shape)
    bare = lib.is_shape(shape)
    return [
        ((X, jax.tree.map(lambda v: v[:-1], Y)), {}),
        ((X, jax.tree.map(lambda v: v[:, :, None], Y)), {}),
        ((X, Y), dict(stratified_bias_corrections=one(True))
         if not bare else dict(distance_sensitivity={"no": False})),
        ((C, YC), dict(continuous_features=one(False),
                       stratified_bias_corrections=(one(True), True))),
        ((X, Y), dict(parameter_sensitivity={"no": True})),
        ((C, YC), dict(continuous_features=one(False), input_sensitivity=[
            one(False)] * 2)),
        ((X, Y), dict(stratified_bias_corrections=True,
                      distance_sensitivity=[one(False)] * 2)),
        ((X, Y), dict(continuous_features=[one(False)] * 2)),
    ]


def cal(c, a, kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c.calibrate(*a, skip_sanity_checks=True, **kw)


def look(c, shape, S):
    """everything a user sees of the intervals"""
    X = inputs(shape, 3, "generic", 1.31)
    C = jax.tree.map(lambda x: x[:3], S["strata"][0][0])
    out = [intervals(c, X, ALPHA), intervals(c, C, ALPHA[1:3]),
           intervals(c, X, ALPHA[2:3])]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out.append(c(X))
        out.append(c(X, X_unc=jax.tree.map(lambda x: .2 + .1 * jnp.abs(x),
                                           X), alpha=.5))
    return out


_refs = {}
_models = {}


def shared(name):
    """one model for all wrappers (checked to stay what it is)"""
    if name not in _models:
        m, shape = make(name)
        _models[name] = m, shape, sets(m, shape), view(m, shape)
    return _models[name]


def reference(name, k):
    """intervals of a fresh wrapper calibrated once"""
    if (name, k) not in _refs:
        m, shape, S, _ = shared(name)
        c = ConformalizedModel(m)
        cal(c, *S[k])
        _refs[name, k] = lib.host(look(c, shape, S))
    return _refs[name, k]


def view(m, shape):
    X = inputs(shape, 3, "generic", .1)
    return lib.host((m(X, dtype=np.float64), m.get_params(), m.get_state(),
                     m.get_rng()))


def agree(ctx, name, c, last, shape, S, before, what):
    if last is None:
        try:
            c(inputs(shape, 3, "generic"), alpha=.5)
        except Exception:
            ctx.outcome("uncalibrated refused")
        else:
            ctx.fail("uncalibrated wrapper gives intervals", what)
    else:
        got = look(c, shape, S)
        d = lib.same(got, reference(name, last), 1e-5, 1e-6)
        ctx.check(d is None, "intervals differ from a fresh calibration",
                  lambda: f"{what}: latest calibration {last}: {d}")
        ctx.outcome("as fresh")
    d = lib.same(view(c.model, shape), before, 1e-9, 1e-9)
    ctx.check(d is None, "wrapped model changed", lambda: f"{what}: {d}")


def persist(c, route):
    if route == "dict":
        return ConformalizedModel.deserialize(c.serialize())
    with lib.scratch() as d:
        if route in ("obj", "objz"):
            b = io.BytesIO()
            (c.save if route == "obj" else c.save_compressed)(b)
            b.seek(0)
            return ConformalizedModel.from_file(b)
        f = os.path.join(d, "w") + (".npz" if "npz" in route else "")
        if "path" in route:
            f = pathlib.Path(f)
        (c.save_compressed if route.endswith("z-") else c.save)(f)
        return ConformalizedModel.from_file(f)


ROUTES = ["dict", "file", "obj", "objz", "file-npz", "path", "path-npz",
          "file-z-", "path-npz-z-"]
CALS = ["plain", "other", "train", "train2", "bias", "strata", "stratat",
        "unc", "nodist"]
OPS = (["cal:" + k for k in CALS if k != "unc"]
       + ["refuse", "pred", "predmany", "persist:obj", "persist:dict"])
FEW = ["cal:plain", "cal:train", "cal:bias", "cal:strata",
       "cal:nodist", "refuse", "predmany", "persist:obj"]


def run_history(case, ctx):
    name = case["model"]
    for tail in itertools.product(case["ops"], repeat=case["len"]):
        hist = tuple(case["pre"]) + tail
        m, shape, S, before = shared(name)
        ws = [[ConformalizedModel(m, alpha=.4), None, m]]
        for o in hist:
            c, last, mm = ws[-1]
            ctx.step()
            if o.startswith("cal:"):
                cal(c, *S[o[4:]])
                ws[-1][1] = o[4:]
            elif o == "refuse":
                for a, kw in refused(shape, S):
                    try:
                        cal(c, a, kw)
                    except Exception:
                        continue
                    ctx.fail("invalid calibration accepted",
                             f"{name} {hist}: {sorted(kw)}")
            elif o == "pred":
                if last is not None:
                    c(inputs(shape, 3, "generic", .4), alpha=.25)
            elif o == "predmany":
                if last is not None:
                    intervals(c, inputs(shape, 3, "generic", .4),
                              [.8, .1, .33], fwd=name != "eig")
            else:
                n = persist(c, o[8:])
                ws.append([n, last, n.model])
        ctx.state(name, hist)
        for i, (c, last, mm) in enumerate(ws):
            c.default_alpha = 1 - 0.682689492137
            agree(ctx, name, c, last, shape, S, before,
                  f"{name} history {hist} wrapper {i}")
    ctx.trace()


def run_routes(case, ctx):
    name, k = case["model"], case["cal"]
    m, shape = make(name)
    S = sets(m, shape)
    before = view(m, shape)
    c = ConformalizedModel(m)
    if k is not None:
        cal(c, *S[k])
        if case["pred"]:
            intervals(c, inputs(shape, 3, "generic", .4), [.25, .33])
    for route in case["routes"]:
        n = persist(c, route)
        ctx.step()
        ctx.state(name, k, case["pred"], route)
        agree(ctx, name, n, k, shape, S, before, f"{name} {k} via {route}")
        agree(ctx, name, c, k, shape, S, before,
              f"{name} {k} after {route}")
        # settings
        for nm in (None, "named") if case["settings"] else ():
            c2 = ConformalizedModel(m, alpha=.37, nn_dist_quantile=.9,
                                    name=nm)
            n2 = persist(c2, route)
            ctx.check(n2.name == c2.name and isinstance(n2.name, str),
                      "name lost", f"{route}: {n2.name!r} vs {c2.name!r}")
            ctx.check(float(n2.default_alpha) == .37
                      and float(n2.nn_dist_quantile) == .9,
                      "settings lost", route)
            if k == "train":
                X = inputs(shape, 3, "generic", 1.31)
                cal(c2, *S[k])
                cal(n2, *S[k])
                n3 = persist(c2, route)
                r = c2(X)
                d = lib.same(n2(X), r, 1e-5, 1e-6) or lib.same(
                    n3(X), r, 1e-5, 1e-6)
                ctx.check(d is None, "settings lost",
                          lambda: f"{name} {k} {route}: {d}")
    # each copy has a life of its own
    a, b = persist(c, "dict"), persist(c, "obj")
    cal(a, *S["bias"])
    a.model.set_params(jax.tree.map(lambda p: p * 1.7, a.model.get_params()))
    b.model.set_params(jax.tree.map(lambda p: p * .7, b.model.get_params()))
    agree(ctx, name, c, k, shape, S, before, f"{name} {k} with changed copies")
    ctx.trace()


def run_args(case, ctx):
    """arguments belong to the caller"""
    name, k = case["model"], case["cal"]
    m, shape = make(name)
    S = sets(m, shape)
    before = view(m, shape)
    args, kw = S[k]
    wr = lambda t: jax.tree.map(lambda x: np.array(x)          # noqa
                                if hasattr(x, "shape") else x, t)
    for pred in (False, True):
        a, w = wr(args), wr(kw)
        ref = wr((a, w))
        c = ConformalizedModel(m)
        try:
            cal(c, a, w)
        except TypeError:
            ctx.outcome("host arrays refused")
            continue
        d = lib.exact((a, w), ref)
        ctx.check(d is None, "arguments changed", f"{name} {k}: {d}")
        if pred:
            look(c, shape, S)

        def spoil(x):
            if isinstance(x, np.ndarray):
                x[...] = -7.
        jax.tree.map(spoil, (a, w))
        ctx.step()
        ctx.state("args", name, k, pred)
        agree(ctx, name, c, k, shape, S, before,
              f"{name} {k} caller's arrays reused afterwards")
        agree(ctx, name, persist(c, "obj"), k, shape, S, before,
              f"{name} {k} caller's arrays reused, saved")
    ctx.trace()


# either side of the rank thresholds of 4 samples, far and near
LEVELS = [.2 - 1e-6, .2 + 1e-6, .4 - 1e-3, .4 + 1e-3, .6 - 1e-9, .6 + 1e-9]
# round values and values that become them when rounded to 1, 2, ... digits
ROUND = [(.2, .17), (.2, .197), (.4, .3994), (.4, .399993), (.6, .5999999),
         (.6, .599999997)]


def run_levels(case, ctx):
    """what was asked before does not change what a level gives"""
    import copy
    name = case["model"]
    m, shape, S, _ = shared(name)
    X = inputs(shape, 3, "generic", 1.31)
    c0 = ConformalizedModel(m)
    cal(c0, *S[case["cal"]])
    fresh = lambda: copy.deepcopy(c0)                         # noqa
    ref = {a: lib.host(intervals(fresh(), X, [a]))
           for a in {*LEVELS, *itertools.chain(*ROUND)}}

    def ask(c, al, what):
        P, I = lib.host(intervals(c, X, al))
        ctx.state(name, case["cal"], what, tuple(al))
        ctx.step()
        ctx.check(len(I) == len(al), "number of intervals", what)
        for a, i in zip(al, I):
            d = lib.same((P, [i]), ref[a], 1e-9, 1e-9)
            ctx.check(d is None, "interval depends on the levels asked for "
                      "before", lambda: f"{what}: {al}: level {a}: {d}")
    near = [tuple(LEVELS[i] for i in t) for t in
            ([0], [2], [4], [1, 2], [5, 0], [3, 3, 1])]
    mixed = [tuple(LEVELS[i] for i in t) for t in itertools.chain(
        itertools.permutations((0, 1, 2), 2),
        itertools.permutations((2, 3, 4, 5), case["len"]),
        [(1, 1, 0), (4, 5, 4)])]
    for first in near:
        for second in mixed:
            c = fresh()
            ask(c, list(first), "first")
            ask(c, list(second), f"after {first}")
    for pair in ROUND:
        for first, second in (pair, pair[::-1]):
            for al in ([second], [second, first]):
                c = fresh()
                ask(c, [first], "first")
                ask(c, al, f"after {first}")
            ask(fresh(), [first, second], "at once")
    for order in (LEVELS, LEVELS[::-1]):
        c = fresh()
        for k, a in enumerate(order):
            ask(c, [a], f"after {order[:k]}")
        c = persist(c, "dict")
        for k, a in enumerate(order):
            ask(c, [a], "after persisting")
        cal(c, *S["other"])
        cal(c, *S[case["cal"]])
        ask(c, order, "after recalibrating")
    ctx.trace()


def cases(tier):
    q = tier == "quick"
    out = []
    for name in (["seq", "tree"] if q else MODELS):
        for k in ["plain"] if q else ["plain", "train", "unc"]:
            out.append({"k": "levels", "model": name, "cal": k,
                        "len": 2 if q else 3})
    depth = 3 if q else 4
    for n in range(0, depth + 1):
        pl = max(0, n - 2)
        ops = OPS if n < 3 or not q else FEW
        for pre in itertools.product(ops, repeat=pl):
            out.append({"k": "history", "model": "seq", "pre": pre,
                        "len": n - pl, "ops": ops})
    for name in MODELS:
        if name == "seq":
            continue
        for n in range(1, 3 if q else 4):
            ops = [o for o in FEW if o != "cal:plain"] if q else OPS
            for pre in itertools.product(ops, repeat=n - 1):
                out.append({"k": "history", "model": name, "pre": pre,
                            "len": 1, "ops": ops})
    for name in MODELS:
        for k in [None] + CALS:
            for pred in (False, True):
                if q and (pred != (k == "plain") or name != "seq"
                          and k not in (None, "train", "stratat")):
                    continue
                out.append({"k": "routes", "model": name, "cal": k,
                            "pred": pred, "settings": not q or name == "seq"
                            and k in (None, "train"),
                            "routes": ROUTES if not q or k is None
                            or name == "seq" and k in ("plain", "stratat")
                            else ["dict", "objz"]})
        for k in CALS:
            if q and (name not in ("seq", "tree") or k in (
                    "plain", "nodist", "train2", "bias")):
                continue
            out.append({"k": "args", "model": name, "cal": k})
    return out


FEWER = [(k,) for k in FEW[:4]]


def affinity(case):
    if case["model"] == "seq":
        return (case["k"], "seq", tuple(case.get("pre", ()))[:1])
    return ("", case["model"], tuple(case.get("pre", ()))[:1] in FEWER)


def cost(case):
    if case["k"] == "history":
        return .3 * len(case["ops"]) ** case["len"]
    return 8


def run(case, ctx):
    {"history": run_history, "routes": run_routes, "args": run_args,
     "levels": run_levels}[
        case["k"]](case, ctx)
