"""C05 - saving, loading and copying reproduce a model completely and
independently."""
import itertools
import os
from pathlib import Path

from . import c02, c18, core, lib
from .core import expect_error
from .lib import M, jax, jnp, np, pmm
from .toys import Fold, Lin, Noise
from .trainlib import Par

ID = "C05"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration: every module configuration and "
             "model structure is brought through every life point, "
             "reproduced by every route, and original and reproduction are "
             "driven through the same continuations (must agree) and through "
             "one-sided operations (must not show)")
RULE = ("a state is (configuration, life point, route); a transition is one "
        "reproduction, continuation or one-sided operation followed by a "
        "comparison of everything observable")
BOUNDS = {
    "quick": "all module configurations of C02, all element-wise modules of "
             "C18 and 19 with given values x {uncompiled, compiled, values "
             "replaced, frozen} x {copy, dict, file}; 17 model structures x "
             "8 life points x {copy, one of 9 other routes} x {resume, one of 4 "
             "other continuations}, alternating; 11 "
             "one-sided operations in both directions",
    "thorough": "as quick with all routes, continuations and one-sided "
                "operations for every structure and life point and pairs of "
                "successive reproductions",
}
ASSUMPTIONS = ["user classes are importable and constructible without "
               "arguments (required by the package)",
               "names of models and key order of dictionaries carry no "
               "meaning for execution"]
K = lib.key


def g(shape, s=0.3):
    return jnp.asarray(lib.grid(shape, s))


def cg(shape, s=0.3):
    return jnp.asarray(lib.cgrid(shape, s))


def hm(k, n):
    return jnp.stack([jnp.asarray(lib.herm(n, .3 + i)) for i in range(k)])


# ------------------------------------------------- modules with given values
GIVEN = {
    "AHM": (lambda: M.AffineHermitianMatrix(Ms=hm(4, 2)), (3,)),
    "AHMnb": (lambda: M.AffineHermitianMatrix(
        Ms=hm(3, 2), bias_term=False, smoothing=.3), (3,)),
    "LR": (lambda: M.LowRankAffineHermitianMatrix(3, 2, .4), (3,)),
    "AT": (lambda: M.AffineTensor(Ms=cg((4, 2, 2)), real=False), (3,)),
    "ATr": (lambda: M.AffineTensor(Ms=g((3, 2)), bias_term=False), (3,)),
    "AE": (lambda: M.AffineEigenvaluePMM(3, Ms=hm(4, 3), num_eig=2,
                                         which="LM"), (3,)),
    "AO": (lambda: M.AffineObservablePMM(
        3, which="LA", Ms=hm(4, 3), Ds=jnp.stack([hm(2, 3), hm(2, 3)]), b=g((2,)),
        num_eig=2, num_secondaries=2, output_size=2), (3,)),
    "EVS": (lambda: M.ExpectationValueSum(Ds=jnp.stack([hm(2, 3)])),
            (3, 2)),
    "TAS": (lambda: M.TransitionAmplitudeSum(Ds=jnp.stack([hm(2, 3)]),
                                             centered=False), (3, 2)),
    "Bias": (lambda: M.Bias(g((3,))), (3,)),
    "Biasfix": (lambda: M.Bias(g((3,)), trainable=False), (3,)),
    "Biasscalar": (lambda: M.Bias(.75, scalar=True), (3,)),
    "Const": (lambda: M.Constant({"a": g((2,)), "b": [g((1, 2))]}), (3,)),
    "Consttr": (lambda: M.Constant(cg((2, 3)), trainable=True), (3,)),
    "Constname": (lambda: M.Constant(g((2, 3)), name="my constant"), (3,)),
    "PReLU": (lambda: M.PReLU(single_parameter=False), {"a": (3,)}),
    "Einsumfix": (lambda: M.Einsum("ij,j->i", params=[g((2, 3))],
                                   trainable=False), (3,)),
    "Einsumtr": (lambda: M.Einsum("ij,j->i", params=[g((2, 3))],
                                  trainable=True), (3,)),
    "MatMulfix": (lambda: M.MatMul(g((2, 3))), (3,)),
    "MatMultr": (lambda: M.MatMul(g((2, 3)), trainable=True), (3,)),
    "NNact": (lambda: M.LinearNN(2, activation=M.LeakyReLU(0.3),
                                 init_magnitude=.7), (2, 2)),
    "NNtwice": (lambda: M.LinearNN(3, activation=M.Tanh(), bias=False,
                                   real=False), (2,)),
    # every remaining constructor argument at a value that is not its default
    "AHMinit": (lambda: M.AffineHermitianMatrix(
        2, smoothing=-.5, init_magnitude=.7), (3,)),
    "LRinit": (lambda: M.LowRankAffineHermitianMatrix(
        3, 1, init_magnitude=.7, bias_term=False), (3,)),
    "ATinit": (lambda: M.AffineTensor((2,), init_magnitude=.7), (3,)),
    "AEsmooth": (lambda: M.AffineEigenvaluePMM(
        3, num_eig=2, smoothing=.6, init_magnitude=.7), (3,)),
    "AEnobias": (lambda: M.AffineEigenvaluePMM(
        3, num_eig=2, smoothing=.4, bias_term=False), (3,)),
    "AOsmooth": (lambda: M.AffineObservablePMM(
        3, num_eig=2, num_secondaries=2, output_size=2, smoothing=.6,
        affine_bias_matrix=True, init_magnitude=.7), (3,)),
    "AOother": (lambda: M.AffineObservablePMM(
        3, num_eig=2, num_secondaries=2, output_size=2, smoothing=.4,
        affine_bias_matrix=False, centered=False, bias_term=False,
        use_expectation_values=True), (3,)),
    "AOtrans": (lambda: M.AffineObservablePMM(
        3, num_eig=2, num_secondaries=2, output_size=2, centered=True,
        bias_term=True, use_expectation_values=False), (3,)),
    "EVSinit": (lambda: M.ExpectationValueSum(2, 2, init_magnitude=.7),
                (3, 2)),
    "TASinit": (lambda: M.TransitionAmplitudeSum(2, 2, init_magnitude=.7),
                (3, 2)),
    "Biasinit": (lambda: M.Bias(init_magnitude=.7, real=False), (3,)),
    "Constinit": (lambda: M.Constant(shape=(2, 3), init_magnitude=.7,
                                     trainable=True, real=False), (3,)),
    "PReLUinit": (lambda: M.PReLU(init_magnitude=.7, real=False,
                                  single_parameter=True), (3,)),
    "Einsuminit": (lambda: M.Einsum("ij,j->i", params=None, dim_map={"i": 2},
                                    trainable=True, init_magnitude=.7,
                                    real=False), (3,)),
    "MatMulinit": (lambda: M.MatMul(output_shape=(2, 1), trainable=True,
                                    init_magnitude=.7, real=False), (3, 1)),
    "MatMulorder": (lambda: M.MatMul(path_order=["b", "a"]),
                    {"a": (3, 3), "b": (3, 3)}),
    "MatMulsep": (lambda: M.MatMul(path_order=["b/c", "a"], separator="/"),
                  {"a": (3, 3), "b": {"c": (3, 3)}}),
    "Concatsep": (lambda: M.ConcatenateLeaves(
        path_order=["b/c", "a"], separator="/"),
        {"a": (3,), "b": {"c": (2,)}}),
    "Treekeysep": (lambda: M.TreeKey({"p": "b/c", "q": "a"}, separator="/"),
                   {"a": (3,), "b": {"c": (2,)}}),
    "Comment": (lambda: M.Comment("what the\nuser said"), (3,)),
}
STAGES = ["uncompiled", "compiled", "replaced", "frozen"]
MROUTES = ["copy", "deepcopy", "dict", "file", "modelcopy"]


def shape_for(oracle):
    for s in c02.ASHAPES + c02.BASE + c02.QBASE:
        try:
            if oracle(s) is not None:
                return s
        except Exception:
            continue
    return None


def module_names():
    out = [("given", n) for n in GIVEN]
    out += [("spec", n) for n, (_, o, _s) in c02.SPECS.items()
            if shape_for(o) is not None]
    out += [("act", f"{n}:{i}") for n in sorted(c18.ACT)
            for i in range(len(c18.ACT[n]))]
    return out


def module(case):
    if case["src"] == "given":
        mk, shape = GIVEN[case["name"]]
        return mk(), shape
    if case["src"] == "spec":
        mk, oracle, _ = c02.SPECS[case["name"]]
        return mk(), shape_for(oracle)
    n, i = case["name"].split(":")
    a, kw, _ = c18.ACT[n][int(i)]
    return getattr(M, n)(*a, **kw), (3,)


def data(shape, n=3, s=0.3):
    c = itertools.count()
    return jax.tree.map(
        lambda q: jnp.asarray(_data((n,) + q, s + .7 * next(c))), shape,
        is_leaf=lib.is_shape)


def _data(sh, s):
    x = lib.grid(sh, s)
    if len(sh) == 3 and sh[1] == sh[2]:      # square arrays: symmetric
        x = x + np.swapaxes(x, 1, 2)
    return x


# --------------------------------------------------------------- observation
def norm(v):
    """comparable form of hyperparameters"""
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in sorted(v.items(), key=str)
                if k not in ("modules", "rng", "_optimizer_state")}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [norm(x) for x in v]
    if isinstance(v, (jax.Array, np.ndarray)):
        try:
            v = np.asarray(v)
        except TypeError:
            return "key"
        return ("array", v.shape, str(v.dtype), v.tolist())
    if isinstance(v, pmm.modules.BaseModule):
        return (type(v).__name__, norm(v.get_hyperparameters()))
    return v


def flags(m):
    if isinstance(m, pmm.Model):
        return [flags(q) for q in lib.leaves(m.modules)]
    return bool(m.trainable)


def types(m):
    if isinstance(m, pmm.Model):
        return (type(m).__name__, str(jax.tree.structure(m.modules)),
                [types(q) for q in lib.leaves(m.modules)])
    return type(m).__name__


def observe(m, shape, X, ctx, predict=True):
    """everything a user can see"""
    o = {"type": types(m), "flags": flags(m), "ready": m.is_ready()}
    o["hyper"] = norm(m.get_hyperparameters())
    if isinstance(m, pmm.Model) and not isinstance(
            m, (M.AffineEigenvaluePMM, M.AffineObservablePMM, M.LinearNN)):
        o["key"] = np.asarray(jax.random.key_data(m.get_rng())).tolist()
    if o["ready"]:
        o["params"] = snap(m.get_params())
        o["state"] = snap(m.get_state())
        o["count"] = m.get_num_trainable_floats()
        o["shape"] = str(m.get_output_shape(shape))
        if predict:
            try:
                r = m(X, dtype=np.float64)
            except Exception as e:
                r = None
                o["refused"] = type(e).__name__
            o["pred"] = None if r is None else snap(r)
    return o


def snap(t):
    return jax.tree.structure(t), [np.array(x) for x in jax.tree.leaves(t)]


def diff(a, b):
    """first difference of two observations"""
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return f"{k}: only in one of them"
        x, y = a[k], b[k]
        if k in ("params", "state", "pred"):
            if (x is None) != (y is None):
                return f"{k}: {x} / {y}"
            if x is None:
                continue
            if x[0] != y[0]:
                return f"{k}: structure {x[0]} / {y[0]}"
            for p, q in zip(x[1], y[1]):
                if p.shape != q.shape or p.dtype != q.dtype:
                    return f"{k}: {p.shape} {p.dtype} / {q.shape} {q.dtype}"
                if not np.array_equal(p, q, equal_nan=p.dtype.kind in "fc"):
                    return f"{k}: {p.ravel()[:4]} / {q.ravel()[:4]}"
        elif k == "hyper":
            if repr(x) != repr(y):
                ks = [j for j in sorted(set(x) | set(y))
                      if repr(x.get(j)) != repr(y.get(j))]
                return (f"hyperparameters {ks}: "
                        f"{[(x.get(j), y.get(j)) for j in ks]}"[:600])
        elif x != y:
            return f"{k}: {x} / {y}"
    return None


# -------------------------------------------------------------------- routes
ROUTES = ["copy", "dict", "str", "strnpz", "path", "pathnpz", "io", "zstr",
          "zio", "loadused"]


def reproduce(m, route, d):
    cls = type(m)
    if route == "copy":
        return m.copy()
    if route == "deepcopy":
        return m.deepcopy()
    if route == "dict":
        new = cls()
        new.deserialize(m.serialize())
        return new
    if route in ("io", "zio", "loadused"):
        p = os.path.join(d, "f" + route)
        with open(p, "wb") as b:
            (m.save_compressed if route == "zio" else m.save)(b)
        with open(p, "rb") as b:
            if route == "loadused":
                new = used(cls)
                new.load(b)
                return new
            return cls.from_file(b)
    p = os.path.join(d, "m" + route)
    if route in ("strnpz", "pathnpz"):
        p += ".npz"
    if route.startswith("path"):
        p = Path(p)
    (m.save_compressed if route == "zstr" else m.save)(p)
    if route == "strnpz":
        new = cls()
        new.load(p)
        return new
    return cls.from_file(p)


def used(cls):
    """a model with a past of its own"""
    if cls is pmm.NonSequentialModel:
        m = cls({"q": Par(3., 1.)}, {"input": "q", "q": "output"})
    elif cls is M.LinearNN:
        m = cls(5, activation=M.ReLU())
    elif cls is M.AffineEigenvaluePMM:
        m = cls(4, 2)
    else:
        m = cls([Par(3., 1.), Fold()])
    m.compile(3, (3,))
    X = data((3,))
    Y = m(X, dtype=np.float64)
    m.train(X, Y=Y, X_val=X, Y_val=Y, loss_fn="mse", lr=.01, batch_size=3,
            epochs=2, verbose=False)
    return m


# ------------------------------------------------------------------- modules
def run_module(case, ctx):
    for stage in STAGES:
        m, shape = module(case)
        X = data(shape)
        if stage != "uncompiled":
            m.compile(K(1), shape)
        if stage == "replaced":
            m.set_params(jax.tree.map(
                lambda p: (1.7 * p).astype(
                    {"float32": "float64", "complex64": "complex128"}
                    .get(str(p.dtype), p.dtype)), m.get_params()))
        if stage == "frozen":
            m.freeze()
        a = observe(m, shape, X, ctx)
        with lib.scratch() as d:
            for route in MROUTES:
                ctx.step()
                ctx.state("module", case["src"], case["name"], stage, route)
                if route in ("file", "modelcopy"):
                    mod = pmm.SequentialModel([m])
                    new = mod.copy() if route == "modelcopy" else \
                        reproduce(mod, "io", d)
                    new = new.modules[0]
                else:
                    new = reproduce(m, route, d)
                b = observe(new, shape, X, ctx)
                df = diff(a, b)
                ctx.check(df is None, "reproduction differs",
                          f"{case['name']} {stage} {route}: {df}")
                if stage == "uncompiled" and route != "deepcopy":
                    # both must grow into the same thing
                    o1, _ = module(case)
                    o1.compile(K(2), shape)
                    new.compile(K(2), shape)
                    df = diff(observe(o1, shape, X, ctx),
                              observe(new, shape, X, ctx))
                    ctx.check(df is None, "uncompiled reproduction compiles "
                              "differently",
                              f"{case['name']} {route}: {df}")
                # one-sided change
                if stage == "compiled" and jax.tree.leaves(a["params"][1]):
                    new.set_params(jax.tree.map(lambda p: p * 3,
                                                new.get_params()))
                    new.freeze()
                    df = diff(a, observe(m, shape, X, ctx))
                    ctx.check(df is None, "copy shares with the original",
                              f"{case['name']} {route}: {df}")
        ctx.trace()


# -------------------------------------------------------------------- models
def S_matrix():
    return pmm.SequentialModel([M.AffineHermitianMatrix(2),
                                M.Eigenvalues(1), M.Bias()], rng=5), (2,)


def S_dict():
    return pmm.SequentialModel({"b": Par(), "a": M.LinearNN(
        2, activation=M.Tanh())}, rng=5), (3,)


def S_tuple():
    return pmm.SequentialModel((Par(), Fold(), Par(2., 1.)), rng=5), (2,)


def S_nested():
    return pmm.SequentialModel({"x": [Par(), (Lin(2., 1.), Par(.3))],
                                "y": Par(2., 1.)}, rng=5), (2,)


def S_digits():
    return pmm.SequentialModel({str(i): Lin(1. + i, i * .5) if i % 2 else
                                Par(1. + i * .1) for i in range(11)},
                               rng=5), (2,)


def S_inner():
    return pmm.SequentialModel([Par(), pmm.SequentialModel(
        [Par(2., 1.), Fold()], rng=7), Par(.7)], rng=5), (2,)


def S_graph():
    return pmm.NonSequentialModel(
        {"m1": Par(), "m2": Par(2., 1.)},
        {"input": "m1", "m1": ["m2", "output.u"], "m2": "output.v"},
        rng=5), (2,)


def S_graphlist():
    return pmm.NonSequentialModel(
        [Par(), Fold(), Par(2., 1.)],
        {"input": "2", "2": "0", "0": "1", "1": "output"}, rng=5), (2,)


def S_graphsep():
    return pmm.NonSequentialModel(
        {"a": {"b": Par(), "c": Par(2., 1.)}},
        {"input": "a/b", "a/b": "a/c", "a/c": "output"}, rng=5,
        separator="/"), (2,)


def S_graphin():
    return pmm.SequentialModel([Par(.2), S_graph()[0]], rng=5), (2,)


def S_seqingraph():
    return pmm.NonSequentialModel(
        {"s": pmm.SequentialModel([Par(), Fold()], rng=9), "p": Par(2.)},
        {"input": "s", "s": "p", "p": "output"}, rng=5), (2,)


def S_observable():
    return pmm.SequentialModel([M.AffineObservablePMM(
        3, 2, num_secondaries=1, output_size=2)], rng=5), (2,)


def S_noise():
    return pmm.SequentialModel([Noise(.5), Par()], rng=5), (2,)


def S_linear():
    return M.LinearNN(2, activation=M.Tanh()), (2,)


def S_eig():
    return M.AffineEigenvaluePMM(2, 1), (2,)


def S_single():
    return pmm.SequentialModel(Par(1.5, -.5), rng=5), (2,)


def S_complex():
    return pmm.SequentialModel([M.AffineTensor((2,), real=False),
                                M.Bias(real=False), M.Abs()
                                if hasattr(M, "Abs") else M.Comment()],
                               rng=5), (2,)


STRUCTS = {n[2:]: f for n, f in list(globals().items())
           if n.startswith("S_")}
POINTS = ["uncompiled", "compiled", "trained", "frozen", "partfrozen",
          "double", "edited", "replaced"]


def train(m, shape, resume=False, epochs=2, noise=False):
    X = data(shape, 4)
    Y = jax.tree.map(lambda x: jnp.zeros_like(x) + .1, m(
        X, dtype=np.float64))
    m.train(X, Y=Y, X_val=X, Y_val=Y, loss_fn="mse", lr=.03, batch_size=2,
            epochs=epochs, verbose=False, resume=resume,
            batch_rng=jax.random.key(3), early_stopping_patience=50)


def prepare(case):
    m, shape = STRUCTS[case["struct"]]()
    pt = case["point"]
    if pt == "uncompiled":
        return m, shape
    m.compile(2, shape)
    if pt in ("trained", "partfrozen"):
        train(m, shape)
    if pt == "double":
        m.astype(np.float64)
        train(m, shape, epochs=1)
    if pt == "frozen":
        for q in lib.leaves(m.modules):
            q.freeze()
    if pt == "partfrozen":
        ls = lib.leaves(m.modules)
        q = ls[0]
        while isinstance(q, pmm.Model):
            q = lib.leaves(q.modules)[0]
        q.freeze()
    if pt == "edited":
        train(m, shape, epochs=1)
        if isinstance(m, pmm.NonSequentialModel):
            m.connections = {k: v for k, v in m.connections.items()}
            m.set_rng(jax.random.key(77))
        elif isinstance(m.modules, (list, tuple)):
            m.append_module(M.Comment("added"))
        else:
            m.append_module(M.Comment("added"), key="zz") if \
                "key" in m.append_module.__code__.co_varnames else \
                m.insert_module(len(m.modules), M.Comment("added"), "zz")
    if pt == "replaced":
        m.set_params(jax.tree.map(lambda p: p * 1.5 + .25, m.get_params()))
    return m, shape


CONT = ["predict", "resume", "compile", "append", "double"]


def continuation(m, shape, what):
    """drive a model further; returns what was refused"""
    try:
        _continuation(m, shape, what)
    except Exception as e:      # e.g. nothing left to train
        return type(e).__name__


def _continuation(m, shape, what):
    if what == "predict":
        if m.is_ready():
            X = data(shape, 4, .9)
            m(X, dtype=np.float64, update_state=True)
    if what == "resume":
        if not m.is_ready():
            m.compile(4, shape)
            train(m, shape, False)
        else:
            try:
                train(m, shape, True)
            except Exception:
                train(m, shape, False)
    if what == "compile":
        m.compile(9, shape)
    if what == "append" and isinstance(m, pmm.SequentialModel) and isinstance(
            m.modules, (list, tuple)):
        m.append_module(Par(1.1, .2))
        m.compile(9, shape)
    if what == "double":
        if not m.is_ready():
            m.compile(4, shape)
        m.set_precision(32)


def run_model(case, ctx):
    with lib.scratch() as d:
        for cont in case["cont"]:
            for route in case["routes"]:
                m, shape = prepare(case)
                X = data(shape)
                a = observe(m, shape, X, ctx)
                new = reproduce(m, route, d)
                for r in case.get("then", []):
                    new = reproduce(new, r, d)
                ctx.step()
                ctx.state("model", case["struct"], case["point"], route)
                df = diff(a, observe(new, shape, X, ctx))
                ctx.check(df is None, "reproduction differs",
                          f"{case['struct']} {case['point']} {route}: {df}")
                df = diff(a, observe(m, shape, X, ctx))
                ctx.check(df is None, "reproducing changed the original",
                          f"{case['struct']} {case['point']} {route}: {df}")
                r1 = continuation(m, shape, cont)
                a = observe(m, shape, X, ctx)
                b0 = observe(m, shape, X, ctx)
                ctx.check(diff(a, b0) is None, "observing changes", "")
                r2 = continuation(new, shape, cont)
                ctx.step(2)
                ctx.outcome(f"{cont} {r1 or 'done'}")
                ctx.check(r1 == r2, "continuation refused differently",
                          f"{case['struct']} {case['point']} {route} {cont}:"
                          f" {r1} / {r2}")
                df = diff(a, observe(new, shape, X, ctx))
                ctx.check(df is None, "continuation differs",
                          f"{case['struct']} {case['point']} {route} {cont}:"
                          f" {df}")
                # the continuation of the copy did not reach the original
                df = diff(a, observe(m, shape, X, ctx))
                ctx.check(df is None, "not independent",
                          f"{case['struct']} {case['point']} {route} {cont}:"
                          f" {df}")
                ctx.trace()


ONESIDE = ["train", "params", "freeze", "unfreeze", "precision", "rng",
           "state", "append", "pop", "replace", "hyper"]


def inner(m):
    q = m
    while isinstance(q, pmm.Model):
        q = lib.leaves(q.modules)[-1 if not isinstance(
            q, pmm.NonSequentialModel) else 0]
    return q


def one_sided(m, shape, what):
    if what == "train":
        train(m, shape, epochs=2)
    elif what == "params":
        m.set_params(jax.tree.map(lambda p: p + 3, m.get_params()))
    elif what == "freeze":
        inner(m).freeze()
    elif what == "unfreeze":
        for q in lib.leaves(m.modules):
            q.freeze()
            q.unfreeze()
    elif what == "precision":
        m.set_precision(32)
    elif what == "rng":
        m.set_rng(jax.random.key(1234))
    elif what == "state":
        m.set_state(jax.tree.map(lambda s: s + 1, m.get_state()))
    elif what == "append":
        if isinstance(m, pmm.SequentialModel) and isinstance(
                m.modules, (list, tuple)):
            m.append_module(Par(9., 9.))
            m.compile(1, shape)
    elif what == "pop":
        if isinstance(m, pmm.SequentialModel) and isinstance(
                m.modules, (list, tuple)):
            m.pop_module_by_index(0)
    elif what == "replace":
        if isinstance(m.modules, list):
            m[0] = Par(5., 5.)
    elif what == "hyper":
        q = inner(m)
        if isinstance(q, (Par, Lin)):
            h = q.get_hyperparameters()
            q.set_hyperparameters({**h, list(h)[0]: 17.})


def run_sides(case, ctx):
    with lib.scratch() as d:
        for route in case["routes"]:
            for what in ONESIDE:
                for side in (0, 1):
                    m, shape = prepare(case)
                    X = data(shape)
                    new = reproduce(m, route, d)
                    pair = [m, new]
                    a = observe(pair[1 - side], shape, X, ctx)
                    one_sided(pair[side], shape, what)
                    ctx.step()
                    ctx.state("side", case["struct"], case["point"], route,
                              what, side)
                    df = diff(a, observe(pair[1 - side], shape, X, ctx))
                    ctx.check(df is None, "not independent",
                              f"{case['struct']} {case['point']} {route}: "
                              f"{what} on the "
                              f"{['original', 'reproduction'][side]}: {df}")
        ctx.trace()


# --------------------------------------------------------------------- cases
def cases(tier):
    out = [{"k": "module", "src": s, "name": n} for s, n in module_names()]
    quick = tier == "quick"
    i = 0
    for st in STRUCTS:
        for pt in POINTS:
            if st in ("linear", "eig") and pt == "edited":
                continue        # their arrangement is not the user's
            i += 1
            if quick:
                other = ["predict", "compile", "append", "double"][i // 2 % 4]
                file = ROUTES[1 + i % (len(ROUTES) - 1)]
                if st == "noise":
                    pairs = [("copy", "predict"), (file, "predict")]
                elif st in ("digits", "observable") and pt not in (
                        "uncompiled", "trained", "double"):
                    pairs = [("copy", other), (file, other)]
                elif (i + i // 8) % 2:
                    pairs = [("copy", "resume"), (file, other)]
                else:
                    pairs = [("copy", other), (file, "resume")]
                for r, c in pairs:
                    out.append({"k": "model", "struct": st, "point": pt,
                                "routes": [r], "cont": [c]})
                if pt == "compiled" and st not in ("digits", "observable"):
                    for r in ("copy", "io"):
                        out.append({"k": "side", "struct": st, "point": pt,
                                    "routes": [r]})
                continue
            for eager in (True, False):
                for c in CONT:
                    out.append({"k": "model", "struct": st, "point": pt,
                                "routes": ROUTES, "cont": [c],
                                "eager": eager})
            for r in ROUTES:
                out.append({"k": "side", "struct": st, "point": pt,
                            "routes": [r]})
            for r in ("copy", "io"):
                out.append({"k": "model", "struct": st, "point": pt,
                            "routes": ["copy", "dict", "io", "loadused"],
                            "then": [r], "cont": ["resume"]})
    return out


def affinity(case):
    return (case["k"], case["name"] if case["k"] == "module"
            else case["struct"])


def cost(case):
    return {"module": 1, "model": 4, "side": 8}[case["k"]]


def run(case, ctx):
    if case["k"] == "side" and case["point"] in ("uncompiled", "edited"):
        return
    f = {"module": run_module, "model": run_model, "side": run_sides}[
        case["k"]]
    if case.get("eager", True):
        # the same code, executed operation by operation
        with jax.disable_jit():
            f(case, ctx)
    else:
        f(case, ctx)
