"""C18 - losses and element-wise modules equal their definitions."""
import itertools

import scipy.special as sp

from . import core, lib
from .core import expect_error
from .lib import M, jax, jnp, np, pmm
from .trainlib import Par

ID = "C18"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of loss names, value patterns, "
             "structures and options on the real code against closed-form "
             "numpy definitions")
RULE = ("a state is (loss or module, options, structure, number type, value "
        "pattern); a transition is one evaluation compared with the formula")
BOUNDS = {
    "quick": "13 losses x 5 structures x real/complex x every pair of "
             "(prediction, target) from a 6-value alphabet (and every "
             "uncertainty of 3); every loss through Model.train (gradient of "
             "one step, bracketed validation loss) on 2 structures; every "
             "exported element-wise module x option setting x 4 structures "
             "x 14 values x 2 precisions",
    "thorough": "as quick with 10-value alphabets, train on 5 structures and "
                "complex models",
}
ASSUMPTIONS = ["double precision, relative tolerance 1e-9 (single: 1e-5)",
               "the constants 1e-4 and 2 in the relative losses are part of "
               "their definition"]

# ------------------------------------------------------------------ losses
LOSS = {
    "mse": lambda p, y: np.abs(p - y) ** 2,
    "mae": lambda p, y: np.abs(p - y),
    "pseudo_huber": lambda p, y: np.sqrt(1 + np.abs(p - y) ** 2) - 1,
    "pseudo_huber:0.5": lambda p, y: .25 * (
        np.sqrt(1 + np.abs((p - y) / .5) ** 2) - 1),
    "pseudo_huber:3": lambda p, y: 9 * (
        np.sqrt(1 + np.abs((p - y) / 3) ** 2) - 1),
    "mre": lambda p, y: np.abs((p - y) / (y + 1e-4)),
    "mrd": lambda p, y: np.abs((p - y) / (2 * (p + y) + 1e-4)),
}
LOSS_U = {
    "mse_unc": lambda p, y, u: np.abs((p - y) / u) ** 2,
    "mae_unc": lambda p, y, u: np.abs((p - y) / u),
    "mre_unc": lambda p, y, u: np.abs((p - y) / ((y + 1e-4) * u)),
    "mrd_unc": lambda p, y, u: np.abs(
        (p - y) / ((2 * (p + y) + 1e-4) * u)),
}
LOSS_X = {
    "mse_unsupervised": LOSS["mse"],
    "mae_unsupervised": LOSS["mae"],
    "mre_unsupervised": LOSS["mre"],
}
BAD = ["", "MSE", "mse ", "foo", "mse_", "unc", "mrd_unsupervised",
       "pseudo_huberx", "mse:1", "rmse"]
STRUCTS = ["bare1", "bare2", "list", "dict", "deep"]


def put(kind, n, f):
    """tree whose leaf i is f(shape, i)"""
    if kind == "bare1":
        return f((n, 1), 0)
    if kind == "bare2":
        return f((n, 2, 3), 0)
    if kind == "list":
        return [f((n, 1), 0), f((n, 4), 1)]
    if kind == "dict":
        return {"z": f((n, 2), 0), "a": f((n, 2), 1)}
    return {"z": [f((n, 1), 0), (f((n, 3), 1),)], "a": f((n, 2, 2), 2)}


def values(tier, cplx):
    v = [-2., -0.5, 0., 0.3, 1., 2.5]
    if tier == "thorough":
        v += [-1., 4., 0.01, -3.7]
    if cplx:
        return [a + 1j * b for a, b in zip(v, v[2:] + v[:2])]
    return v


def filler(vals, shift, stride, dtype):
    """leaf filled with the alphabet, so that over all shifts every pair of
    values meets at every position"""
    def f(shape, i):
        n = int(np.prod(shape))
        k = np.arange(n) * stride + shift + 3 * i
        return jnp.asarray(np.array(vals)[k % len(vals)].reshape(shape),
                           dtype)
    return f


def mean_of(f, *trees):
    ls = [lib.leaves(lib.host(t)) for t in trees]
    out = [f(*xs) for xs in zip(*ls)]
    return (sum(np.sum(o) for o in out) / sum(o.size for o in out))


# -------------------------------------------------------------- activations
def sig(x):
    return sp.expit(x)


def softplus(x):
    return np.logaddexp(x, 0.)


def softmax(x, axis=-1):
    return sp.softmax(x, axis)


SC, AL = 1.0507009873554805, 1.6732632423543772
# name -> list of (args, kwargs, reference)
ACT = {
    "ReLU": [((), {}, lambda x: np.maximum(x, 0))],
    "ReLU6": [((), {}, lambda x: np.clip(x, 0, 6))],
    "Sigmoid": [((), {}, sig)],
    "Softplus": [((), {}, softplus)],
    "SparsePlus": [((), {}, lambda x: np.where(
        x <= -1, 0, np.where(x >= 1, x, (x + 1) ** 2 / 4)))],
    "SparseSigmoid": [((), {}, lambda x: np.clip((x + 1) / 2, 0, 1))],
    "SoftSign": [((), {}, lambda x: x / (1 + np.abs(x)))],
    "SiLU": [((), {}, lambda x: x * sig(x))],
    "Swish": [((), {}, lambda x: x * sig(x))],
    "LogSigmoid": [((), {}, lambda x: -softplus(-x))],
    "LeakyReLU": [((), {}, lambda x: np.where(x >= 0, x, .01 * x)),
                  ((.3,), {}, lambda x: np.where(x >= 0, x, .3 * x)),
                  ((), {"negative_slope": 2.}, lambda x: np.where(
                      x >= 0, x, 2 * x))],
    "HardSigmoid": [((), {}, lambda x: np.clip(x + 3, 0, 6) / 6)],
    "HardSiLU": [((), {}, lambda x: x * np.clip(x + 3, 0, 6) / 6)],
    "HardSwish": [((), {}, lambda x: x * np.clip(x + 3, 0, 6) / 6)],
    "HardTanh": [((), {}, lambda x: np.clip(x, -1, 1))],
    "ELU": [((), {}, lambda x: np.where(x > 0, x, np.expm1(x))),
            ((.5,), {}, lambda x: np.where(x > 0, x, .5 * np.expm1(x))),
            ((), {"alpha": 2.}, lambda x: np.where(
                x > 0, x, 2 * np.expm1(x)))],
    "CELU": [((), {}, lambda x: np.where(x > 0, x, np.expm1(x))),
             ((), {"alpha": 2.}, lambda x: np.where(
                 x > 0, x, 2 * np.expm1(x / 2)))],
    "SELU": [((), {}, lambda x: SC * np.where(x > 0, x, AL * np.expm1(x)))],
    "GELU": [((), {}, lambda x: .5 * x * (1 + np.tanh(np.sqrt(
        2 / np.pi) * (x + .044715 * x ** 3)))),
        ((), {"approximate": False}, lambda x: x * sp.ndtr(x)),
        ((False,), {}, lambda x: x * sp.ndtr(x))],
    "SquarePlus": [((), {}, lambda x: (x + np.sqrt(x * x + 4)) / 2),
                   ((1.,), {}, lambda x: (x + np.sqrt(x * x + 1)) / 2)],
    "Mish": [((), {}, lambda x: x * np.tanh(softplus(x)))],
    "Identity": [((), {}, lambda x: x)],
    "Softmax": [((), {}, softmax), ((), {"axis": -1}, softmax)],
    "LogSoftmax": [((), {}, lambda x: sp.log_softmax(x, -1))],
    "Standardize": [((), {}, lambda x: (x - x.mean(-1, keepdims=True))
                     / np.sqrt(x.var(-1, keepdims=True) + 1e-5))],
    "LogSumExp": [((), {"axis": -1, "keepdims": True},
                   lambda x: sp.logsumexp(x, -1, keepdims=True))],
    "AMax": [((), {"axis": -1}, lambda x: x.max(-1)),
             ((-1,), {"keepdims": True}, lambda x: x.max(
                 -1, keepdims=True))],
    "AMin": [((), {"axis": -1}, lambda x: x.min(-1))],
    "ArcTan2": [((2.,), {}, lambda x: np.arctan2(x, 2.))],
    "Clip": [((-1., 2.), {}, lambda x: np.clip(x, -1, 2)),
             ((), {"min": 0.}, lambda x: np.maximum(x, 0)),
             ((), {"max": .5}, lambda x: np.minimum(x, .5)),
             ((), {}, lambda x: x)],
    "FloatPower": [((2.,), {}, lambda x: np.float_power(x, 2))],
    "FloorDivide": [((2.,), {}, lambda x: np.floor_divide(x, 2.))],
    "LDExp": [((3,), {}, lambda x: x * 8)],
    "NextAfter": [((9.,), {}, lambda x: np.nextafter(x, 9.))],
    "Pow": [((2,), {}, lambda x: x ** 2), ((3,), {}, lambda x: x ** 3),
            ((.5,), {}, lambda x: np.power(x, .5))],
    "Power": [((2,), {}, lambda x: x ** 2),
              ((-1.,), {}, lambda x: np.power(x, -1.))],
    "Round": [((), {}, np.round), ((1,), {}, lambda x: np.round(x, 1)),
              ((), {"decimals": 2}, lambda x: np.round(x, 2))],
    "NanToNum": [((), {"nan": 5.}, lambda x: np.nan_to_num(x, nan=5.)),
                 ((), {}, np.nan_to_num)],
    "NaNToNum": [((), {"nan": 5., "posinf": 7., "neginf": -7.},
                  lambda x: np.nan_to_num(x, nan=5., posinf=7.,
                                          neginf=-7.)),
                 ((), {}, np.nan_to_num)],
    "FAbs": [((), {}, np.abs)],
    "Cbrt": [((), {}, np.cbrt)],
}
for _n, _f in {
    "Ceil": np.ceil, "Deg2Rad": np.deg2rad, "Degrees": np.degrees,
    "Floor": np.floor, "I0": np.i0, "Rad2Deg": np.rad2deg,
    "Radians": np.radians, "RInt": np.rint,
    "Trunc": np.trunc,
}.items():
    ACT[_n] = [((), {}, _f)]
CACT = {      # also defined for complex numbers
    "Abs": np.abs, "Absolute": np.abs, "ACos": np.arccos,
    "ACosh": np.arccosh, "Angle": np.angle, "ArcCos": np.arccos,
    "ArcCosh": np.arccosh, "ArcSin": np.arcsin, "ArcSinh": np.arcsinh,
    "ArcTan": np.arctan, "ArcTanh": np.arctanh, "ASin": np.arcsin,
    "ASinh": np.arcsinh, "ATan": np.arctan, "ATanh": np.arctanh,
    "Conj": np.conj, "Conjugate": np.conj, "Cos": np.cos, "Cosh": np.cosh,
    "Exp": np.exp, "Exp2": np.exp2, "Expm1": np.expm1, "Imag": np.imag,
    "Log": np.log, "Log10": np.log10, "Log1p": np.log1p, "Log2": np.log2,
    "Positive": lambda x: x, "Real": np.real, "Reciprocal": np.reciprocal,
    "Sign": np.sign, "Sin": np.sin, "Sinc": np.sinc, "Sinh": np.sinh,
    "Sqrt": np.sqrt, "Square": np.square, "Tan": np.tan, "Tanh": np.tanh,
}
for _n, _f in CACT.items():
    ACT[_n] = [((), {}, _f)]
NOPRESERVE = {"LogSumExp", "AMax", "AMin"}
XS = np.array([-3.3, -1.5, -1., -.999, -.5, -.25, 0., .3, .5, 1., 1.7, 2.5,
               4., 7.25])
WILD = {"NanToNum", "NaNToNum", "Abs", "Positive", "Identity", "Square",
        "Sign", "ReLU", "Clip", "Real", "Conj"}


def cases(tier):
    out = []
    for st in STRUCTS:
        for cplx in (False, True):
            for name in list(LOSS) + list(LOSS_U) + list(LOSS_X):
                out.append({"t": "loss", "name": name, "st": st,
                            "cplx": cplx, "tier": tier})
    out.append({"t": "bad"})
    sts = ["bare2", "deep"] if tier == "quick" else STRUCTS
    for st in sts:
        for name in list(LOSS) + list(LOSS_U) + list(LOSS_X):
            out.append({"t": "train", "name": name, "st": st,
                        "cplx": False})
            if tier == "thorough":
                out.append({"t": "train", "name": name, "st": st,
                            "cplx": True})
    for name in sorted(ACT):
        for i in range(len(ACT[name])):
            out.append({"t": "act", "name": name, "opt": i})
    for single in (True, False):
        for cont in ("bare", "vec", "list", "dict", "deep"):
            out.append({"t": "prelu", "single": single, "cont": cont})
    out.append({"t": "comment"})
    out.append({"t": "func"})
    return out




def run(case, ctx):
    globals()["run_" + case["t"]](case, ctx)


# ------------------------------------------------------------------- losses
def run_loss(case, ctx):
    mk = getattr(pmm.training, "make_loss_fn", None)
    if mk is None:
        ctx.outcome("no make_loss_fn")
        return
    name = case["name"]
    dt = jnp.complex128 if case["cplx"] else jnp.float64
    vals = values(case["tier"], case["cplx"])
    n = 3
    seen = {}

    def model_fn(X, params, training, state, rng):
        seen["args"] = (training, rng)
        return params, {"s": state["s"] + 1}
    fn = jax.jit(mk(name, model_fn), static_argnames=("training",))
    K = len(vals)
    for s1 in range(K):
        for s2 in range(K):
            ctx.step()
            ctx.state(name, case["st"], case["cplx"], s1, s2)
            P = put(case["st"], n, filler(vals, s1, 1, dt))
            Y = put(case["st"], n, filler(vals, s2, 1, dt))
            kw = dict(params=P, training=True, state={"s": jnp.zeros(())},
                      rng=lib.key(0))
            if name in LOSS_X:
                got, ns = fn(0, Y, **kw)
                want = mean_of(LOSS_X[name], P, Y)
            elif name in LOSS_U:
                for us in range(3):
                    U = put(case["st"], n, filler([.5, 2., 1.25], us, 1,
                                                  jnp.float64))
                    got, ns = fn(0, None, Y, U, **kw)
                    want = mean_of(LOSS_U[name], P, Y, U)
                    judge_loss(ctx, name, got, want, case)
            else:
                got, ns = fn(0, None, Y, **kw)
                want = mean_of(LOSS[name], P, Y)
            judge_loss(ctx, name, got, want, case)
            ctx.check(float(ns["s"]) == 1.0, "state lost", str(ns))
    ctx.check(seen["args"][0] is True, "training flag lost", str(seen))
    ctx.trace()
    ctx.outcome(f"{name}")


def judge_loss(ctx, name, got, want, case):
    ctx.check(jnp.shape(got) == () and not jnp.iscomplexobj(got),
              "loss is not a real scalar", f"{got}")
    ok = np.isclose(float(got), float(np.real(want)), rtol=1e-9, atol=1e-12,
                    equal_nan=True)
    ctx.check(ok, "loss differs from its definition",
              f"{name} {case['st']} complex={case['cplx']}: {got} vs {want}")


def run_bad(case, ctx):
    mk = getattr(pmm.training, "make_loss_fn", None)
    X = lib.grid((3, 2))
    for b in BAD:
        ctx.step()
        ctx.state("bad", b)
        if mk is not None:
            expect_error(ctx, lambda: mk(b, lambda *a: (None, None)),
                         "unknown loss accepted", b)
        m = pmm.SequentialModel([Par()])
        m.compile(lib.key(0), (2,))
        expect_error(ctx, lambda: m.train(X, X, loss_fn=b, epochs=1,
                                          verbose=False),
                     "unknown loss accepted by train", b)
    ctx.trace()


def run_train(case, ctx):
    """gradient of one step (a huge epsilon makes the step proportional to
    the gradient) and the validation loss (bracketed by the target)"""
    name = case["name"]
    cplx = case["cplx"]
    dt = "complex128" if cplx else "float64"
    vals = [.4, 1.3, 2.1, .9, 3.3, 1.7]
    if cplx:
        vals = [a + .3j * b for a, b in zip(vals, vals[::-1])]
    n = 4
    X = put(case["st"], n, filler(vals, 0, 1, dt))
    Y = put(case["st"], n, filler(vals, 2, 1, dt))
    XV = put(case["st"], n - 1, filler(vals, 1, 5, dt))
    YV = put(case["st"], n - 1, filler(vals, 3, 1, dt))
    U = put(case["st"], n, filler([.5, 2., 1.25], 0, 1, "float64"))
    UV = put(case["st"], n - 1, filler([.5, 2., 1.25], 1, 1, "float64"))
    if cplx:
        U, UV = (jax.tree.map(lambda x: x.astype(dt), t) for t in (U, UV))
    w0, c0 = (.7 + .2j, .35 - .1j) if cplx else (.7, .35)

    def data(val):
        a = (XV, YV, UV) if val else (X, Y, U)
        k = 1 if name in LOSS_X else 3 if name in LOSS_U else 2
        return a[:k]

    def loss_of(w, c, val):
        d = data(val)
        P = jax.tree.map(lambda x: w * np.asarray(x) + c, d[0])
        if name in LOSS_X:
            return float(np.real(mean_of(LOSS_X[name], P, d[0])))
        f = LOSS_U.get(name) or LOSS[name]
        return float(np.real(mean_of(f, P, *d[1:])))

    def fresh():
        m = pmm.SequentialModel([Par(w0, c0, dt)])
        m.compile(lib.key(0), lib.shapes(X))
        return m

    def kw(val=True):
        out = dict(loss_fn=name, batch_size=n, val_batch_size=n, b1=.9,
                   verbose=False, batch_rng=1, X_val=XV)
        if name not in LOSS_X:
            out["Y_val"] = YV
        if name in LOSS_U:
            out.update(Y_unc=U, Y_val_unc=UV)
        return out
    args = data(False)[:2]
    # --- gradient
    m = fresh()
    B = 1e7
    opts = kw()
    opts["X_val"] = X        # so that the step improves the validated loss
    if "Y_val" in opts:
        opts["Y_val"] = Y
    if "Y_val_unc" in opts:
        opts["Y_val_unc"] = U
    m.train(*args, **opts, epochs=1, lr=B * 1e-3, eps=B, clip=1e12)
    p = m.get_params()[0]
    h = 1e-6

    def num(k):
        def at(e):
            v = [w0, c0]
            v[k] = v[k] + e
            return loss_of(*v, False)
        g = (at(h) - at(-h)) / (2 * h)
        if cplx:
            g = g + 1j * (at(1j * h) - at(-1j * h)) / (2 * h)
        return g
    for k, (nm, x0) in enumerate((("w", w0), ("c", c0))):
        want = x0 - 1e-3 * num(k)
        got = np.asarray(p[nm])[0]
        ctx.step()
        ctx.check(np.isclose(got, want, rtol=0, atol=1e-7),
                  "training step is not the gradient of the named loss",
                  f"{name} {case['st']} {nm}: {got} vs {want}")
    # --- validation loss
    L = loss_of(w0, c0, True)
    for f, stop in ((1 - 1e-5, False), (1 + 1e-5, True)):
        seen = []
        m = fresh()

        def cb(rng, epoch, params):
            jax.debug.callback(lambda e: seen.append(int(e)), epoch,
                               ordered=True)
            return rng, params
        m.train(*args, **kw(), epochs=2, lr=0.0, target_loss=L * f,
                callback=cb)
        jax.effects_barrier()
        ctx.step()
        ctx.check((len(seen) < 2) == stop,
                  "validation loss differs from the named loss",
                  f"{name} {case['st']}: loss {L} target factor {f}: "
                  f"{len(seen)} epochs")
    ctx.trace()
    ctx.state("train", name, case["st"], cplx)
    ctx.outcome(f"train {name}")


# ------------------------------------------------------------------ modules
def containers(x):
    """input arrangements of the value list x (14 values)"""
    yield "vec", jnp.asarray(x)[:, None]
    yield "bare", jnp.asarray(x).reshape(7, 2)
    yield "cube", jnp.asarray(x).reshape(2, 7, 1)
    yield "tree", {"z": [jnp.asarray(x).reshape(2, 7)],
                   "a": (jnp.asarray(x[::-1]).reshape(2, 1, 7),)}


def tol_of(dt):
    return (3e-5, 3e-5) if dt in (np.float32, np.complex64) else (1e-9, 1e-9)


def run_act(case, ctx):
    name = case["name"]
    args, kw, ref = ACT[name][case["opt"]]
    cls = getattr(M, name)
    kinds = [np.float64, np.float32]
    if name == "Standardize":      # ill-conditioned in single precision
        kinds = [np.float64]
    if name in CACT:
        kinds += [np.complex128]
    for dt in kinds:
        x = XS.astype(dt)
        if np.iscomplexobj(x):
            x = x + 1j * XS[::-1] * .4
        if name in WILD and not np.iscomplexobj(x):
            x[3], x[8], x[11] = np.nan, np.inf, -np.inf
        for cname, data in containers(x):
            keep = lib.host(data)
            with np.errstate(all="ignore"):
                want = jax.tree.map(lambda a: ref(np.array(a)), data)
            mod = cls(*args, **kw)
            got, st = mod(data, training=False, state=(), rng=lib.key(0))
            ctx.step()
            ctx.state(name, case["opt"], str(np.dtype(dt)), cname)
            rt, at = tol_of(dt)
            d = lib.same(got, want, rt, at)
            ctx.check(d is None, "module differs from its function",
                      f"{name}{args}{kw} {np.dtype(dt)} {cname}: {d}")
            ctx.check(st == (), "state changed", str(st))
            ctx.check(lib.exact(data, keep) is None, "input modified", name)
            if cname in ("bare", "tree") and dt is not np.float32 \
                    and name not in NOPRESERVE:
                m = pmm.SequentialModel([cls(*args, **kw)])
                m.compile(lib.key(0), lib.shapes(data))
                out = m(data, dtype=dt)
                d = lib.same(out, want, rt, at)
                ctx.check(d is None, "module in a model differs from its "
                          "function", f"{name}{args}{kw} {cname}: {d}")
                m2 = pmm.SequentialModel([cls(*args, **kw),
                                          M.Identity()])
                m2.compile(lib.key(0), lib.shapes(data))
                d = lib.same(m2(data, dtype=dt), want, rt, at)
                ctx.check(d is None, "module in a model differs", f"{d}")
    ctx.trace()
    ctx.outcome("activation")


def run_prelu(case, ctx):
    shp = {"bare": (3,), "vec": (2, 2), "list": [(2,), (3, 2)],
           "dict": {"z": (2,), "a": (2,)},
           "deep": {"z": [(2,)], "a": ((1, 2),)}}[case["cont"]]
    m = pmm.SequentialModel([M.PReLU(single_parameter=case["single"])])
    m.compile(lib.key(3), shp)
    n = 5
    j = itertools.count()
    X = jax.tree.map(lambda s: lib.grid((n,) + s, .3 + .2 * next(j)), shp,
                     is_leaf=lib.is_shape)
    X = jax.tree.map(lambda x: x.at[0].set(0.0), X)
    for pat in ("init", "set", "neg", "zero"):
        par = m.get_params()
        if pat != "init":
            k = itertools.count()
            par = jax.tree.map(
                lambda p: {"set": .25, "neg": -1.5, "zero": 0.}[pat]
                + (.1 * next(k) + .05 * jnp.arange(p.size).reshape(p.shape)
                   if pat == "set" else jnp.zeros(p.shape)), par)
            m.set_params(par)
        ls, st = jax.tree.flatten(X)
        a = [np.asarray(p) for p in lib.leaves(m.get_params())]
        if case["single"]:
            ctx.check(len(a) == 1 and a[0].size == 1,
                      "single parameter expected", str(a))
            a = [a[0].reshape(())] * len(ls)
        else:
            ctx.check([x.shape for x in a] == [x.shape[1:] for x in ls],
                      "one slope per feature expected",
                      str([x.shape for x in a]))
        want = jax.tree.unflatten(st, [
            np.where(np.asarray(x) >= 0, np.asarray(x), s * np.asarray(x))
            for x, s in zip(ls, a)])
        got = m(X, dtype=np.float64)
        ctx.step()
        ctx.state("prelu", case["single"], case["cont"], pat)
        d = lib.same(got, want, 1e-6, 1e-6)
        ctx.check(d is None, "PReLU", f"{case} {pat}: {d}")
    ctx.trace()
    ctx.outcome("prelu")


def run_comment(case, ctx):
    for c in ((), ("",), ("a remark",)):
        for _, data in containers(XS):
            m = pmm.SequentialModel([M.Comment(*c)])
            m.compile(lib.key(0), lib.shapes(data))
            ctx.check(lib.exact(m(data, dtype=np.float64), data) is None,
                      "comment changes the data", c)
            ctx.step()
            ctx.state("comment", str(c))
    ctx.trace()


def run_func(case, ctx):
    """user functions and user activations"""
    from parametricmatrixmodels.modules import ActivationBase, FuncBase

    class Cube(ActivationBase):
        __version__ = "0.0.0"

        def func(self, x):
            return x ** 3 + (self.args[0] if self.args else 0.) \
                - self.kwargs.get("s", 0.)

    class Rev(FuncBase):
        __version__ = "0.0.0"

        def get_hyperparameters(self):
            return {}

        def f(self, data):
            return jax.tree.map(lambda x: jnp.flip(x, -1) + 1, data)
    for cname, data in containers(XS):
        for args, kw, off in (((), {}, 0), ((2.,), {}, 2), ((), {"s": 3.},
                                                            -3),
                              ((1.,), {"s": 3.}, -2)):
            m = pmm.SequentialModel([Cube(*args, **kw), Rev()])
            m.compile(lib.key(0), lib.shapes(data))
            want = jax.tree.map(
                lambda x: np.flip(np.asarray(x) ** 3 + off, -1) + 1, data)
            d = lib.same(m(data, dtype=np.float64), want)
            ctx.step()
            ctx.state("func", cname, str(args), str(kw))
            ctx.check(d is None, "user function", f"{cname}: {d}")
    ctx.trace()
