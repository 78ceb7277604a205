"""C10 - conformal intervals cover their own calibration data as promised.

The judge sees only what a user sees (predictions and interval ends); the
promise is counted out on the calibration data themselves.
"""
import itertools
import math
import warnings

from . import lib
from .lib import M, jax, jnp, np, pmm
from .toys import Lin, PLin
from parametricmatrixmodels.conformal import ConformalizedModel

ID = "C10"
LEVEL = "model_checking"
TECHNIQUE = ("bounded-exhaustive enumeration of calibration sets (all "
             "assignments of residuals from a small set, ties and zeros "
             "included), options and significance levels (all thresholds of "
             "the rank and both sides of them); the real wrapper is "
             "calibrated and its intervals are counted out")
RULE = ("a state is (model, options, calibration set, level); a transition is "
        "one calibration or one set of intervals")
BOUNDS = {
    "quick": "1-4 samples: all residuals from {0, .3, -1, 2} x 3 sets of "
             "inputs x all rank thresholds; 9 models x 24 option sets x "
             "calibration size 6 (1, 2 and 6 for two models) x all rank "
             "thresholds; all orders of 4 samples (3 of a tree)",
    "thorough": "1-5 samples, residuals from 5 values; 9 models x 48 option "
                "sets x 8 sizes; all orders of 5 samples; compiled and "
                "operation by operation",
}
ASSUMPTIONS = ["predictions and heuristics are exact to 1e-9"]
# Jacobians with respect to single-precision parameters are exact to about
# 1e-7 only
TOL = 5e-7


class Scale(PLin):
    """x -> w*x: insensitive where x = 0"""
    __version__ = "0.0.0"

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            return jax.tree.map(lambda x: params["w"][0] * x, data), state
        return fn


class HalfConst(Scale):
    """first component w*x, the others constant"""
    __version__ = "0.0.0"

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            return params["w"][0] * data * jnp.asarray(
                [1.] + [0.] * (data.shape[1] - 1)) + 1., state
        return fn


MODELS = {
    "plin": (lambda: [PLin(2., .5)], (1,)),
    "scale": (lambda: [Scale(1.5)], (1,)),
    "vec": (lambda: [PLin(2., .5)], (3,)),
    "mat": (lambda: [PLin(-1., .5)], (2, 3)),
    "tree": (lambda: [PLin(2., .5)], {"a": (1,), "b": [(2,), (2, 2)]}),
    "nopar": (lambda: [Lin(2., 1.)], (2,)),
    "half": (lambda: [HalfConst(2.)], (2,)),
    "eig": (lambda: [M.AffineEigenvaluePMM(2, 2)], (2,)),
    "nn": (lambda: [M.LinearNN(2, activation=M.Tanh())], (3,)),
}


def make(name):
    mk, shape = MODELS[name]
    m = pmm.SequentialModel(mk(), rng=0)
    m.compile(3, shape)
    return m, shape


def inputs(shape, n, kind, s=.3):
    """kind: generic | zero (contains zeros) | dup (repeated samples)"""
    c = itertools.count()

    def one(q):
        x = np.array(lib.grid((n,) + q, s + .53 * next(c)))
        if kind == "zero":
            x[::2] = 0.
        if kind == "dup" and n > 1:
            x[1::2] = x[0]
        if kind == "cat":
            x = np.sign(x)
        return jnp.asarray(x)
    return jax.tree.map(one, shape, is_leaf=lib.is_shape)


def levels(n):
    out = {.01, .3173, .99}
    for j in range(1, n + 1):
        a = j / (n + 1)
        out |= {a, a - .004, a + .004}
    return sorted(x for x in out if 0 < x < 1)


def rank(n, a):
    return math.ceil((n + 1) * (1 - a) - 1e-9)


def residuals(Y, pattern):
    """targets at the given offsets (cycled over components)"""
    c = itertools.count()

    def one(y):
        y = np.array(y)
        k = next(c)
        for i in range(y.shape[0]):
            row = y[i].reshape(-1)
            for j in range(row.size):
                row[j] += pattern[(i + j + k) % len(pattern)] * (
                    1 + .137 * ((j + k) % 3))
        return jnp.asarray(y)
    return jax.tree.map(one, Y)


def L(t):
    return [np.asarray(x) for x in jax.tree.leaves(t)]


def intervals(c, X, al, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = c(X, alpha=al, **kw)
    P, I = r[0], r[1]
    if len(al) == 1:
        I = [I] if isinstance(I, tuple) else list(I)
    return P, I


def calibrate(m, X, Y, **kw):
    c = ConformalizedModel(m)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c.calibrate(X, Y, skip_sanity_checks=True, **kw)
    return c


def judge(ctx, c, X, Y, n, what, centre, kw={}):
    """all promises on the calibration data"""
    al = levels(n)
    # asked for in no particular order
    mix = list(range(len(al)))[1::2] + list(range(len(al)))[::2][::-1]
    P, I = intervals(c, X, [al[i] for i in mix], **kw)
    ctx.step(len(al))
    ctx.check(len(I) == len(al), "number of intervals", what)
    I = [I[mix.index(i)] for i in range(len(al))]
    ctx.check(lib.struct(P) == lib.struct(centre), "prediction structure",
              what)
    for p, q in zip(L(P), L(centre)):
        ctx.check(p.shape == q.shape and np.allclose(
            p, q, rtol=TOL, atol=TOL), "not centred on the prediction",
            lambda: f"{what}: {p.tolist()} expected {q.tolist()}")
    prev = None
    for a, (lo, hi) in zip(al, I):
        k = rank(n, a)
        ctx.state(what, a)
        ctx.check(lib.struct(lo) == lib.struct(Y) == lib.struct(hi),
                  "interval structure", what)
        cur = []
        for p, y, u, v in zip(L(P), L(Y), L(lo), L(hi)):
            ctx.check(u.shape == y.shape == v.shape, "interval shape", what)
            bad = np.isnan(u) | np.isnan(v)
            ctx.check(not bad.any(), "interval is not a number",
                      lambda: f"{what} alpha={a}: [{u.tolist()}, "
                      f"{v.tolist()}]")
            fin = np.isfinite(u) & np.isfinite(v)
            ctx.check(np.all(np.abs((u + v) / 2 - p)[fin] <= TOL * (
                1 + np.abs(u) + np.abs(v))[fin]),
                "interval not centred on the prediction",
                lambda: f"{what} alpha={a}: [{u.tolist()}, {v.tolist()}] "
                f"around {p.tolist()}")
            ctx.check(np.all((u == -np.inf) == (v == np.inf)),
                      "interval unbounded on one side", what)
            t = TOL * (1 + np.abs(y))
            inside = (y >= u - t) & (y <= v + t)
            count = inside.sum(axis=0)
            ctx.check(np.all(count >= min(k, n)), "coverage below promise",
                      lambda: f"{what} alpha={a} n={n}: {count.tolist()} of "
                      f"{n} inside, promised {min(k, n)}: residuals "
                      f"{(y - p).tolist()}, half widths "
                      f"{((v - u) / 2).tolist()}")
            # not more than one too many where scores are distinct
            w = (v - u) / 2
            with np.errstate(all="ignore"):
                r = np.sort(np.abs(y - p) / w, axis=0)
            ok = np.isfinite(r).all(axis=0) & (w > 0).all(axis=0)
            if n > 1:
                ok &= (np.diff(r, axis=0) > 1e-6).all(axis=0)
            ctx.check(np.all(count[ok] <= min(k, n) + 1),
                      "interval wider than needed",
                      lambda: f"{what} alpha={a} n={n}: {count.tolist()} "
                      f"inside, {k} needed")
            cur.append((u, v))
        if prev is not None:
            ctx.check(all(np.all(a1[0] <= b1[0] + TOL)
                          and np.all(a1[1] >= b1[1] - TOL)
                          for a1, b1 in zip(prev, cur)),
                      "intervals are not nested", f"{what} alpha={a}")
        prev = cur
    ctx.outcome("covered")


# ------------------------------------------------------ all small residuals
def run_small(case, ctx):
    n, kind = case["n"], case["kind"]
    for name in case["models"]:
        m, shape = make(name)
        X = inputs(shape, n, kind)
        base = m(X, dtype=np.float64)
        for pat in itertools.product(case["res"], repeat=n):
            if pat[:len(case["pre"])] != tuple(case["pre"]):
                continue
            Y = jax.tree.map(lambda y: y + jnp.asarray(pat).reshape(
                (n,) + (1,) * (y.ndim - 1)), base)
            c = calibrate(m, X, Y)
            judge(ctx, c, X, Y, n, f"{name} {kind} residuals {pat}", base)
    ctx.trace()


# ------------------------------------------------------------------- options
def tree_of(shape, values):
    v = itertools.cycle(values)
    return jax.tree.map(lambda _: next(v), shape, is_leaf=lib.is_shape)


def options(shape, params, n, thorough):
    """name -> (calibrate options, prediction options, kind of inputs)"""
    Xt = {k: inputs(shape, 6, k, .77) for k in ("generic", "cat")}
    const = jax.tree.map(lambda x: jnp.ones_like(x), Xt["generic"])
    one = jax.tree.map(lambda x: x[:1], Xt["generic"])
    xu = jax.tree.map(lambda x: .1 + .05 * jnp.abs(x),
                      inputs(shape, n, "generic", .9))
    T, F = True, False
    cont = lambda *v: tree_of(shape, v)                        # noqa
    nl = len(jax.tree.leaves(shape, is_leaf=lib.is_shape))
    O = {
        "plain": ({}, {}, "generic"),
        "nopar": (dict(parameter_sensitivity=F), {}, "generic"),
        "somepar": (dict(parameter_sensitivity=jax.tree.map(
            lambda _, s=itertools.count(): next(s) % 2 == 0, params)), {},
            "generic"),
        "train": (dict(X_train=Xt["generic"]), {}, "generic"),
        "trainzero": (dict(X_train=Xt["generic"]), {}, "zero"),
        "traindup": (dict(X_train=Xt["generic"]), {}, "dup"),
        "dist": (dict(X_train=Xt["generic"], parameter_sensitivity=F,
                      input_sensitivity=F), {}, "generic"),
        "input": (dict(X_train=Xt["generic"], parameter_sensitivity=F,
                       distance_sensitivity=F), {}, "generic"),
        "none": (dict(X_train=Xt["generic"], parameter_sensitivity=F,
                      distance_sensitivity=F, input_sensitivity=F), {},
                 "generic"),
        "xunc": (dict(X_train=Xt["generic"], X_cal_unc=xu), dict(X_unc=xu),
                 "generic"),
        "xunconly": (dict(X_cal_unc=xu), dict(X_unc=xu), "generic"),
        "yunc": (dict(Y_cal_unc="y"), {}, "generic"),
        "yunctrain": (dict(Y_cal_unc="y", X_train=Xt["generic"]), {},
                      "generic"),
        "consttrain": (dict(X_train=const), {}, "generic"),
        "onetrain": (dict(X_train=one), {}, "generic"),
        "cat": (dict(X_train=Xt["cat"], continuous_features=cont(F)), {},
                "cat"),
        "somecat": (dict(X_train=Xt["cat"],
                         continuous_features=cont(F, T)), {}, "cat"),
        "bias": (dict(stratified_bias_corrections=T), {}, "generic"),
        "biastrain": (dict(stratified_bias_corrections=T,
                           X_train=Xt["generic"]), {}, "generic"),
        "nobias": (dict(stratified_bias_corrections=F), {}, "generic"),
        "strata": (dict(stratified_bias_corrections=cont(T),
                        continuous_features=cont(F)), {}, "cat"),
        "stratatrain": (dict(stratified_bias_corrections=cont(T, F),
                             continuous_features=cont(F, T),
                             X_train=Xt["cat"]), {}, "cat"),
        "batch": (dict(X_train=Xt["generic"], max_batch_size=2),
                  dict(max_batch_size=3), "generic"),
        "fwd": (dict(X_train=Xt["generic"], fwd=T), dict(fwd=F), "generic"),
    }
    if thorough:
        for k in list(O):
            a, b, kind = O[k]
            if kind == "generic":
                O[k + "+dup"] = (a, b, "dup")
                O[k + "+zero"] = (a, b, "zero")
            if "stratified_bias_corrections" not in a:
                O[k + "+bias"] = (dict(a, stratified_bias_corrections=T), b,
                                  kind)
    return O


def median_bias(X, Y, P, sbc):
    """reference bias correction: value per sample"""
    res = [y - p for y, p in zip(L(Y), L(P))]
    n = res[0].shape[0]
    if sbc is True:
        return [np.broadcast_to(np.median(r, axis=0), r.shape) for r in res]
    if not sbc or not any(jax.tree.leaves(sbc)):
        return [np.zeros_like(r) for r in res]
    rows = [tuple(np.concatenate([x[i].ravel() for x, s in zip(
        L(X), jax.tree.leaves(sbc)) if s])) for i in range(n)]
    out = []
    for r in res:
        b = np.zeros_like(r)
        for i in range(n):
            b[i] = np.median(r[[j for j in range(n) if rows[j] == rows[i]]],
                             axis=0)
        out.append(b)
    return out


PATTERN = [.31, -.72, 1.9, -.05, .45, -1.3, .88, 0.013, -2.2]


def run_options(case, ctx):
    m, shape = make(case["model"])
    n = case["n"]
    for name in case["opts"]:
        if name.startswith("fwd") and case["model"] == "eig":
            continue            # complex parameters: refused by jax
        a, b, kind = options(shape, m.get_params(), n,
                             case["thorough"])[name]
        X = inputs(shape, n, kind)
        base = m(X, dtype=np.float64)
        for unsup in (False, True):
            if unsup and (lib.struct(base) != lib.struct(X) or any(
                    x.shape != y.shape for x, y in zip(L(base), L(X)))):
                continue
            if unsup and (name not in ("plain", "bias", "train")
                          and not case["thorough"]):
                continue
            Y = X if unsup else residuals(base, PATTERN)
            kw = dict(a)
            if kw.get("Y_cal_unc") == "y":
                kw["Y_cal_unc"] = jax.tree.map(
                    lambda y: .1 + jnp.abs(y) / 3, Y)
            c = calibrate(m, X, None if unsup else Y, **kw)
            bias = median_bias(X, Y, base,
                               a.get("stratified_bias_corrections"))
            centre = jax.tree.unflatten(lib.struct(base), [
                p + q for p, q in zip(L(base), bias)])
            what = f"{case['model']} {name} n={n}{' unsup' * unsup}"
            judge(ctx, c, X, Y, n, what, centre, b)
            # elsewhere: centred, a number, and strata never seen unbiased
            Xn = inputs(shape, 3, "generic", 1.31)
            if "X_unc" in b:
                Xn = jax.tree.map(lambda x: x * 1.01, X)
            P, I = intervals(c, Xn, [.2, .6], **b)
            ctx.step()
            sbc = a.get("stratified_bias_corrections")
            pn = L(m(Xn, dtype=np.float64))
            if sbc is True:
                pn = [p + q[:1] for p, q in zip(pn, bias)]
            ctx.check(all(np.allclose(p, q, rtol=TOL, atol=TOL)
                          for p, q in zip(L(P), pn)),
                      "not centred on the prediction", what + " elsewhere")
            for lo, hi in I:
                for u, v, p in zip(L(lo), L(hi), L(P)):
                    ctx.check(not np.isnan(u).any()
                              and not np.isnan(v).any(),
                              "interval is not a number",
                              lambda: f"{what} elsewhere: {u.tolist()} "
                              f"{v.tolist()}")
                    ctx.check(np.all(u <= p + TOL) and np.all(v >= p - TOL),
                              "interval not around the prediction", what)
    ctx.trace()


# --------------------------------------------------------------------- order
def run_order(case, ctx):
    m, shape = make(case["model"])
    n = case["n"]
    X0 = inputs(shape, n, case["kind"])
    base = m(X0, dtype=np.float64)
    Y0 = residuals(base, PATTERN)
    Xn = inputs(shape, 3, "generic", 1.31)
    a, b, _ = options(shape, m.get_params(), n, False)[case["opt"]]
    al = levels(n)
    ref = None
    for perm in itertools.permutations(range(n)):
        ix = np.array(perm)
        X = jax.tree.map(lambda x: x[ix], X0)
        Y = jax.tree.map(lambda y: y[ix], Y0)
        kw = dict(a)
        if kw.get("Y_cal_unc") == "y":
            kw["Y_cal_unc"] = jax.tree.map(lambda y: .1 + jnp.abs(y) / 3, Y)
        c = calibrate(m, X, Y, **kw)
        P, I = intervals(c, Xn, al)
        ctx.step()
        ctx.state("order", case["model"], case["opt"], case["kind"], perm)
        v = [x for q in I for e in q for x in L(e)]
        if ref is None:
            ref = v
        ctx.check(all(np.allclose(x, y, rtol=1e-7, atol=1e-9, equal_nan=True)
                      for x, y in zip(v, ref)),
                  "depends on the order of the calibration samples",
                  f"{case} {perm}")
    ctx.trace()


# --------------------------------------------------------------------- cases
def cases(tier):
    q = tier == "quick"
    out = []
    res = [0., .3, -1., 2.] if q else [0., .3, -1., 2., .7]
    for n in range(1, 5 if q else 6):
        for kind in ("generic", "zero", "dup"):
            if n == 4 and q and kind != "generic":
                continue
            for ms in (["plin"], ["scale"]):
                for pre in itertools.product(res, repeat=max(0, n - 2)):
                    out.append({"k": "small", "n": n, "kind": kind,
                                "models": ms, "res": res, "pre": pre})
    m, shape = "plin", (1,)
    names = list(options((1,), {"w": 1, "c": 1}, 2, not q))
    for model in MODELS:
        for n in ((1, 2, 3, 4, 5, 7, 9, 19) if not q else
                  (1, 2, 6) if model in ("plin", "half") else (6,)):
            for i in range(0, len(names), 8):
                for eager in ((False,) if q else (True, False)):
                    out.append({"k": "options", "model": model, "n": n,
                                "opts": names[i:i + 8], "thorough": not q,
                                "eager": eager})
    for model in ("plin", "tree"):
        for opt in ("plain", "train", "yunc", "bias"):
            for kind in ("generic", "dup"):
                out.append({"k": "order", "model": model, "opt": opt,
                            "kind": kind, "n":
                            (3 if model == "tree" else 4) if q else 5})
    return out


def affinity(case):
    """same shapes, same compiled operations"""
    return (case["k"], case.get("model", ""), case["n"],
            case["opts"][0] if case.get("model") == "tree" and "opts" in case
            else case["models"][0] if "models" in case else "")


def cost(case):
    return {"small": 2, "options": 8, "order": 4}[case["k"]]


def run(case, ctx):
    case = {k: tuple(v) if k == "pre" else v for k, v in case.items()}
    f = {"small": run_small, "options": run_options, "order": run_order}[
        case["k"]]
    if case.get("eager"):
        with jax.disable_jit():
            f(case, ctx)
    else:
        f(case, ctx)
