"""C17 - evaluation is pure and follows the requested precision.

The reference carries the parameters, states and key of a model through the
same history; every prediction has a closed form.
"""
import copy
import itertools
import os
import random
import subprocess
import sys
import warnings

from . import lib
from .lib import M, jax, jnp, np, pmm
from .toys import BaseModule, Lin, Noise

ID = "C17"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all histories of evaluations, "
             "state updates, key and precision operations on the real model "
             "against a reference that carries parameters, states and key "
             "along in closed form")
RULE = ("a state is (model kind, history); a transition is one operation "
        "followed by a comparison of parameters, states, key, flags and "
        "prediction")
BOUNDS = {
    "quick": "2 kinds of models: all pairs of 25 operations, 4 kinds: all "
             "pairs of 12, one kind: all triples of 7, and all pairs of 12 "
             "compiled (the others are executed without jit); all spellings "
             "of precisions x number types; all pairs of number types and "
             "requested types",
    "thorough": "6 kinds: all sequences of two of 12 and one of 25 "
                "operations, one kind: all 4-sequences of 12, all kinds: "
                "all pairs of 25 compiled",
}
ASSUMPTIONS = ["numbers that are not floating point (counters) have "
               "no precision"]


class Box(BaseModule):
    """x -> w x + s; s and a counter are states; complex on request"""
    __version__ = "0.0.0"

    def __init__(self, w=1.5, s=.25, mixed=False):
        self.w0, self.mixed = w, mixed
        self.p = None
        self.st = {"s": jnp.asarray([s], jnp.float32),
                   "n": jnp.asarray([3], jnp.int32)}

    @property
    def name(self):
        return "Box"

    def is_ready(self):
        return self.p is not None

    def compile(self, rng, input_shape, /):
        if self.p is None:
            self.p = {"w": jnp.asarray([self.w0], jnp.float32),
                      "e": jnp.zeros((0,), jnp.float32)}
            if self.mixed:
                self.p["z"] = jnp.asarray([.1 - .3j], jnp.complex64)

    def get_output_shape(self, input_shape, /):
        return input_shape

    def get_hyperparameters(self):
        return {"w": self.w0, "mixed": self.mixed}

    def get_params(self):
        return self.p

    def set_params(self, p, /):
        self.p = p

    def get_state(self):
        return self.st

    def set_state(self, s, /):
        self.st = s

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            w = params["w"][0]
            if self.mixed:
                w = w + jnp.abs(params["z"][0]) ** 2
            out = jax.tree.map(lambda x: w * x + state["s"][0], data)
            return out, {"s": state["s"] + .5, "n": state["n"] + 1}
        return fn


class Dither(BaseModule):
    """adds one random number, scaled"""
    __version__ = "0.0.0"

    def __init__(self, scale=1.):
        self.scale = scale

    @property
    def name(self):
        return "Dither"

    def is_ready(self):
        return True

    def compile(self, rng, input_shape, /):
        pass

    def get_output_shape(self, input_shape, /):
        return input_shape

    def get_hyperparameters(self):
        return {"scale": self.scale}

    def get_params(self):
        return ()

    def set_params(self, p, /):
        pass

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            r = self.scale * jax.random.uniform(rng, (), jnp.float32)
            return jax.tree.map(lambda x: x + r.astype(x.dtype), data), state
        return fn


S, G = pmm.SequentialModel, pmm.NonSequentialModel
TREE = {"a": (2,), "b": [(1, 2)]}
KINDS = {
    # name: (model, shape, boxes in order, dithers)
    "seq": (lambda: S([Box(), Dither(), Box(-.5, 1., True)], rng=11), (2,)),
    "tree": (lambda: S({"p": Box(.5), "q": [Dither(.5), Box(2., .5)]},
                       rng=11), TREE),
    "nested": (lambda: S([S([Box(), Dither()]), (Dither(2.), S(
        [Box(.7, .1, True)]))], rng=11), (2,)),
    "graph": (lambda: G({"u": Box(), "v": {"d": Dither(), "w": Box(.7, .2)}},
                        {"input": "u", "u": "v.d", "v.d": "v.w",
                         "v.w": "output"}, rng=11), (2,)),
    "loose": (lambda: G({"u": Box(), "x": Box(9., 9.), "d": Dither()},
                        {"input": "d", "d": "u", "u": "output"}, rng=11),
              (2,)),
    "mixedg": (lambda: S([Box(), G([Box(.3, .4), Dither()], {
        "input": "1", "1": "0", "0": "output"}), Dither(.1)], rng=11), (2,)),
}


def boxes(m):
    """Box modules in the order of execution"""
    out = []

    def rec(q):
        if isinstance(q, pmm.Model):
            if isinstance(q, G):
                ms = jax.tree.leaves(q.modules, is_leaf=lambda z: isinstance(
                    z, BaseModule))
            else:
                ms = lib.leaves(q.modules)
            for z in ms:
                rec(z)
        elif isinstance(q, Box):
            out.append(q)
    rec(m)
    return out


class Ref:
    """what the model should be"""

    def __init__(self, kind):
        self.kind = kind
        self.bx = {"seq": [(1.5, .25, 0), (-.5, 1., 1)],
                   "tree": [(.5, .25, 0), (2., .5, 0)],
                   "nested": [(1.5, .25, 0), (.7, .1, 1)],
                   "graph": [(1.5, .25, 0), (.7, .2, 0)],
                   "loose": [(1.5, .25, 0)],
                   "mixedg": [(1.5, .25, 0), (.3, .4, 0)]}[kind]
        self.w = [np.float32(b[0]) for b in self.bx]
        self.z = [np.complex64(.1 - .3j)] * len(self.bx)
        self.s = [np.float32(b[1]) for b in self.bx]
        self.n = [3] * len(self.bx)
        self.prec = 32
        self.key = jax.random.key(11)

    def cast(self, x):
        if isinstance(x, (complex, np.complexfloating)):
            return (np.complex64 if self.prec == 32 else np.complex128)(x)
        return (np.float32 if self.prec == 32 else np.float64)(x)

    def predict(self, X, dtype, r, batches):
        """prediction and states; r: offset by the random numbers, known per
        (kind, key) as (factor, offset at the end)"""
        out = []
        s = [float(x) for x in self.s]
        n = list(self.n)
        for b in batches:
            y = jax.tree.map(lambda x: np.asarray(x[b]).astype(
                dtype).astype(np.float64), X)
            for k, (w, z, bx) in enumerate(zip(self.w, self.z, self.bx)):
                ww = float(w) + (abs(complex(z)) ** 2 if bx[2] else 0.)
                y = jax.tree.map(lambda x: ww * x + s[k], y)
                s[k] += .5
                n[k] += 1
            out.append(y)
        res = jax.tree.map(lambda *a: np.concatenate(a), *out)
        return res, s, n


def gain(ref):
    """what the random numbers are multiplied with on their way out"""
    ws = [float(w) + (abs(complex(z)) ** 2 if b[2] else 0.)
          for w, z, b in zip(ref.w, ref.z, ref.bx)]
    k = ref.kind
    if k in ("seq", "tree"):
        return [ws[1]]
    if k == "nested":
        return [ws[1], ws[1]]
    if k == "graph":
        return [ws[1]]
    if k == "loose":
        return [ws[0]]
    return [ws[1], 1.]


_noise = {}


def noise(kind, key):
    """the random numbers drawn from this key, each seen by itself through
    predictions of fresh models in which the gains vary"""
    kk = (kind, tuple(np.asarray(jax.random.key_data(key)).ravel()))
    if kk not in _noise:
        if kind not in _noise:
            m = KINDS[kind][0]()
            m.compile(2, KINDS[kind][1])
            m.set_precision(64)
            _noise[kind] = m
        m = _noise[kind]
        X = jax.tree.map(lambda q: jnp.zeros((1,) + q), KINDS[kind][1],
                         is_leaf=lib.is_shape)
        A, b = [], []
        for w in (1., 3.):
            ref = Ref(kind)
            ref.w = [np.float64(w + i) for i in range(len(ref.bx))]
            put(m, ref)
            y = np.asarray(lib.leaves(m(X, rng=key))[0]).ravel()[0]
            base = ref.predict(X, np.float64, None, [slice(0, 1)])[0]
            b.append(y - lib.leaves(base)[0].ravel()[0])
            A.append(gain(ref))
        A, b = np.array(A), np.array(b)
        _noise[kk] = np.linalg.lstsq(A, b, rcond=None)[0]
    return _noise[kk]


def put(m, ref):
    """parameters of the reference into the model"""
    for q, w, z, b in zip(boxes(m), ref.w, ref.z, ref.bx):
        p = dict(q.get_params(), w=jnp.asarray([w], q.get_params()[
            "w"].dtype))
        q.set_params(p)


def split(n, mbs, avoid):
    if mbs is None or mbs >= n:
        return [slice(0, n)]
    out = [slice(i, i + mbs) for i in range(0, n - n % mbs, mbs)]
    k = n - n % mbs
    if n % mbs:
        out += [slice(i, i + 1) for i in range(k, n)] if avoid else [
            slice(k, n)]
    return out


OPTS = {"": (None, False), "1": (1, False), "2": (2, False),
        "2a": (2, True)}
OPS = ["call", "call:1", "call:2", "call:2a", "call32", "ret", "upd",
       "upd:2", "rngint", "rngkey", "gi", "gp", "giT:2", "gpF:2a", "setrng",
       "setrngint", "prec32", "prec64", "precbad", "badshape", "badcast",
       "params", "state", "freeze", "copy"]
CORE = ["call", "call:2a", "upd", "rngint", "setrng", "prec32", "prec64",
        "precbad", "params", "state", "gi", "gp"]
TINY = ["call:2a", "upd", "setrng", "prec32", "prec64", "params", "gi"]


def snapshot(m):
    return (lib.host((m.get_params(), m.get_state(), m.get_rng())),
            [q.trainable for q in boxes(m)], m.trainable, m.is_ready(),
            m.input_shape, m.output_shape)


def snapdiff(a, b):
    d = lib.exact(a[0], b[0])
    if d is None and a[1:] != b[1:]:
        d = f"{a[1:]} vs {b[1:]}"
    return d


def agree(ctx, m, ref, what):
    """parameters, states and key are those of the reference, in the
    reference's precision"""
    bs = boxes(m)
    if ref.kind == "loose":
        bs = bs[:1]
    F = np.float32 if ref.prec == 32 else np.float64
    C = np.complex64 if ref.prec == 32 else np.complex128
    for i, (q, w, z, s, n, b) in enumerate(zip(
            bs, ref.w, ref.z, ref.s, ref.n, ref.bx)):
        p, st = q.get_params(), q.get_state()
        ctx.check(p["w"].dtype == F and p["e"].dtype == F
                  and st["s"].dtype == F,
                  "precision of real numbers", lambda: f"{what}: "
                  f"{p['w'].dtype} {st['s'].dtype} expected {F}")
        if b[2]:
            ctx.check(p["z"].dtype == C, "precision of complex numbers",
                      lambda: f"{what}: {p['z'].dtype} expected {C}")
            ctx.check(complex(p["z"][0]) == complex(z), "parameter changed",
                      lambda: f"{what}: {p['z']} expected {z}")
        ctx.check(st["n"].dtype == np.int32, "counter converted",
                  lambda: f"{what}: {st['n'].dtype}")
        ctx.check(float(p["w"][0]) == float(w), "parameter changed",
                  lambda: f"{what}: {p['w']} expected {w}")
        ctx.check(abs(float(st["s"][0]) - float(s)) < 1e-6
                  and int(st["n"][0]) == n,
                  "state", lambda: f"{what} box {i}: {st} expected "
                  f"{(s, n)}")
    ctx.check(np.array_equal(jax.random.key_data(m.get_rng()),
                             jax.random.key_data(ref.key)), "key changed",
              what)


def expected(ref, X, dtype, key, mbs, avoid, n):
    Y, s, k = ref.predict(X, dtype, None, split(n, mbs, avoid))
    g, r = gain(ref), noise(ref.kind, key)
    off = sum(a * b for a, b in zip(g, r))
    return jax.tree.map(lambda y: y + off, Y), s, k


def check_state(ctx, ns, m, ref, exp, what):
    """a returned state"""
    _, s, n = exp
    got = [q for q in jax.tree.leaves(ns, is_leaf=lambda t: isinstance(
        t, dict) and set(t) == {"s", "n"}) if isinstance(q, dict)]
    if ref.kind == "loose":
        got = got[:1]
    ctx.check(len(got) == len(s), "returned state", f"{what}: {ns}")
    for q, a, b in zip(got, s, n):
        ctx.check(abs(float(q["s"][0]) - a) < 1e-5 and int(q["n"][0]) == b,
                  "returned state",
                  lambda: f"{what}: {q} expected {(a, b)}")


def act(ctx, m, ref, o, i, what):
    shape = KINDS[ref.kind][1]
    n = 3
    c = itertools.count()
    X = jax.tree.map(lambda q: jnp.asarray(lib.grid(
        (n,) + q, .2 + .3 * next(c) + .1 * (i % 5))), shape,
        is_leaf=lib.is_shape)
    keep = jax.tree.map(lambda x: np.array(x), X)
    before = snapshot(m)
    name, _, b = o.partition(":")
    mbs, avoid = OPTS[b]
    ctx.step()
    pure = True
    npstate = np.random.get_state()[1].copy()
    if name in ("call", "call32", "ret", "upd", "rngint", "rngkey"):
        dtype = np.float32 if name == "call32" else np.float64
        kw = dict(max_batch_size=mbs, avoid_recompilation=avoid,
                  dtype=dtype)
        key = ref.key
        if name == "rngint":
            kw["rng"] = 70 + i % 3
            key = jax.random.key(70 + i % 3)
        if name == "rngkey":
            key = kw["rng"] = jax.random.key(70 + i % 3)
        exp = expected(ref, X, dtype, key, mbs, avoid, n)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = m(X, return_state=name in ("ret", "upd"),
                  update_state=name == "upd", **kw)
            if name in ("ret", "upd"):
                r, ns = r
                check_state(ctx, ns, m, ref, exp, what)
        tol = 1e-6 if dtype == np.float64 and ref.prec == 64 else 1e-4
        d = lib.same(r, exp[0], tol, tol)
        ctx.check(d is None, "prediction", lambda: f"{what}: {d}")
        want = dtype if ref.prec == 32 else np.float64
        ctx.check(all(y.dtype == want for y in lib.leaves(r)),
                  "precision of the prediction",
                  lambda: f"{what}: {[y.dtype for y in lib.leaves(r)]} "
                  f"expected {want}")
        if name == "upd":
            pure = False
            ref.s = [ref.cast(v) for v in exp[1]]
            ref.n = exp[2]
        else:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                again = m(X, return_state=name == "ret", **kw)
            if name == "ret":
                again = again[0]
            d = lib.exact(again, r)
            ctx.check(d is None, "repeating gives another result",
                      lambda: f"{what}: {d}")
        ctx.outcome("predicted")
    elif name[:2] in ("gi", "gp"):
        f = m.grad_input if name[:2] == "gi" else m.grad_params
        if ref.kind in ("seq", "nested") and name[:2] == "gp":
            mode = False                 # complex parameters
        else:
            mode = {"": None, "T": True, "F": False}[name[2:]]
        f(X, fwd=mode, max_batch_size=mbs, avoid_recompilation=avoid)
    elif name == "setrng":
        pure = False
        ref.key = jax.random.key(30 + i % 3)
        m.set_rng(ref.key)
    elif name == "setrngint":
        pure = False
        ref.key = jax.random.key(30 + i % 3)
        m.set_rng(30 + i % 3)
    elif name in ("prec32", "prec64"):
        pure = False
        ref.prec = int(name[4:])
        ref.w, ref.z, ref.s = ([ref.cast(v) for v in q] for q in (
            ref.w, ref.z, ref.s))
        r = m.astype(ref.prec) if i % 2 else m.set_precision(ref.prec)
        ctx.check(r is (m if i % 2 else None), "astype returns the model",
                  what)
    elif name == "precbad":
        for p in (16, "half", "float16", np.float16, np.int32, 0, "", 128):
            try:
                m.set_precision(p)
            except Exception:
                continue
            ctx.fail("unknown precision accepted", f"{what}: {p}")
    elif name == "badshape":
        bad = jax.tree.map(lambda x: jnp.zeros(x.shape + (1,)), X)
        for f in (m, m.grad_input, m.grad_params):
            try:
                f(bad)
            except Exception:
                continue
            ctx.fail("wrong shape accepted", what)
    elif name == "badcast":
        Z = jax.tree.map(lambda x: x + .5j, X)
        for f in (m, m.grad_input, m.grad_params):
            for dt in (np.float64, np.float32):
                try:
                    f(Z, dtype=dt)
                except Exception:
                    continue
                ctx.fail("imaginary parts discarded", f"{what}: {dt}")
    elif name == "params":
        pure = False
        ref.w = [ref.cast(.3 + .2 * ((i + k) % 4))
                 for k in range(len(ref.w))]
        put(m, ref)
    elif name == "state":
        pure = False
        v = .1 + .3 * (i % 4)
        ref.s = [ref.cast(v)] * len(ref.s)
        ref.n = [i + 7] * len(ref.n)
        m.set_state(jax.tree.map(
            lambda q: jnp.full_like(q, v) if q.dtype.kind == "f" else
            jnp.full_like(q, i + 7), m.get_state()))
    elif name == "freeze":
        pure = False
        for q in boxes(m)[i % 2:1 + i % 2]:
            (q.unfreeze if not q.trainable else q.freeze)()
    elif name == "copy":
        k = copy.deepcopy(m)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            k(X, update_state=True)
        k.set_precision(64 if ref.prec == 32 else 32)
        k.set_rng(99)
    after = snapshot(m)
    if pure:
        d = snapdiff(after, before)
        ctx.check(d is None, "operation changed the model",
                  lambda: f"{what}: {d}")
    ctx.check(np.array_equal(np.random.get_state()[1], npstate),
              "global random state used", what)
    d = lib.exact(X, keep)
    ctx.check(d is None, "argument changed", lambda: f"{what}: {d}")
    agree(ctx, m, ref, what)


def fresh(kind):
    m = KINDS[kind][0]()
    m.compile(2, KINDS[kind][1])
    return m


def run_history(case, ctx):
    if case.get("jit"):
        return run_hist(case, ctx)
    with jax.disable_jit():
        run_hist(case, ctx)


def run_hist(case, ctx):
    kind = case["kind"]
    for tail in itertools.product(case["ops"], repeat=case["len"]):
        hist = tuple(case["pre"]) + tail
        m, ref = fresh(kind), Ref(kind)
        for i, o in enumerate(hist):
            act(ctx, m, ref, o, i, f"{kind} {hist[:i + 1]}")
        act(ctx, m, ref, "call", len(hist), f"{kind} {hist} then call")
        ctx.state(kind, hist)
    ctx.trace()


# ----------------------------------------------------------------- precision
SINGLE = [np.float32, np.complex64, "float32", "complex64", "single", "f32",
          "c64", 32]
DOUBLE = [np.float64, np.complex128, "float64", "complex128", "double",
          "f64", "c128", 64]
SINGLE += [jnp.float32, jnp.complex64]
DOUBLE += [jnp.float64, jnp.complex128]


class Kinds(Dither):
    """parameters and states of given types"""
    __version__ = "0.0.0"

    def __init__(self, dts=()):
        self.p = [jnp.asarray(lib.grid((2,)).astype(complex) * (
            1 + (.5j if np.dtype(d).kind == "c" else 0)) if np.dtype(
                d).kind == "c" else lib.grid((2,), .7) * 3, d) for d in dts]
        self.s = {"t": [q * 2 for q in self.p]}

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return [p for p in self.p if p.dtype.kind in "fc"]

    def set_params(self, p, /):
        k = iter(p)
        self.p = [next(k) if q.dtype.kind in "fc" else q for q in self.p]

    def get_state(self):
        return self.s

    def set_state(self, s, /):
        self.s = s

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            return data, state
        return fn


def run_precision(case, ctx):
    """every spelling, every number type, modules and models"""
    dts = [np.float32, np.float64, np.complex64, np.complex128, np.int32,
           np.int64, np.uint8]
    for a, b in itertools.product(range(len(SINGLE)), range(len(DOUBLE))):
        for order in ((SINGLE[a], 32), (DOUBLE[b], 64)), (
                (DOUBLE[b], 64), (SINGLE[a], 32)):
            if case["what"] == "module":
                m = mod = Kinds(dts)
            else:
                mod = Kinds(dts)
                m = {"seq": lambda: S([mod, Lin()]),
                     "nested": lambda: S([[S([mod])]]),
                     "graph": lambda: G({"k": mod}, {
                         "input": "k", "k": "output"})}[case["what"]]()
                m.compile(1, (2,))
            vals = lib.host((mod.get_params(), mod.get_state()))
            for sp, bits in order:
                ctx.step()
                ctx.state(case["what"], str(sp), bits)
                (m.astype if a % 2 else m.set_precision)(sp)
                new = lib.host((mod.get_params(), mod.get_state()))
                vals = jax.tree.map(
                    lambda x: x if x.dtype.kind not in "fc" else x.astype(
                        {"f": {32: np.float32, 64: np.float64},
                         "c": {32: np.complex64, 64: np.complex128}}[
                             x.dtype.kind][bits]), vals)
                d = lib.exact(new, vals)
                ctx.check(d is None, "precision conversion",
                          lambda: f"{case['what']} {sp}: {d}")
    ctx.trace()


class See(Dither):
    """remembers the number types it was given"""
    __version__ = "0.0.0"
    seen = None

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            See.seen = [x.dtype for x in jax.tree.leaves(data)]
            return data, state
        return fn


def run_cast(case, ctx):
    """requested types: accepted values are those of a cast"""
    src = [np.float16, np.float32, np.float64, np.complex64, np.complex128,
           np.int32, np.int64, np.bool_]
    dst = [np.float32, np.float64, np.complex64, np.complex128]
    for a, b, tree in itertools.product(src, dst, (False, True)):
        m = S([See()], rng=0)
        m.compile(1, {"u": (2,), "v": [(2,)]} if tree else (2,))
        x = lib.grid((3, 2)) * 3
        if np.dtype(a).kind == "c":
            x = x + 1j * lib.grid((3, 2), .9)
        x = jnp.asarray(x).astype(a)
        X = {"u": x, "v": [jnp.asarray(lib.grid((3, 2), .5)).astype(
            np.float64)]} if tree else x
        refuse = np.dtype(a).kind == "c" and np.dtype(b).kind != "c"
        for f in ("call", "gi"):
            ctx.step()
            ctx.state(str(a), str(b), tree, f)
            what = f"{f} {np.dtype(a)} to {np.dtype(b)} tree={tree}"
            See.seen = None
            try:
                y = m(X, dtype=b) if f == "call" else m.grad_input(
                    X, dtype=b)
            except Exception as e:
                if np.dtype(a).kind in "iub" or refuse or (
                        f == "gi" and np.dtype(b).kind == "c"):
                    ctx.outcome("refused")
                    continue
                raise
            ctx.check(not refuse, "imaginary parts discarded", what)
            ctx.check(See.seen is not None and all(
                d == b for d in See.seen), "module sees another type",
                f"{what}: {See.seen}")
            if f == "call":
                d = lib.exact(y, jax.tree.map(
                    lambda v: np.asarray(v).astype(b), X))
                ctx.check(d is None, "cast", lambda: f"{what}: {d}")
            ctx.outcome("cast")
    ctx.trace()


# -------------------------------------------------------------------- keys
class Tag(Dither):
    """replaces the input by the random number drawn"""
    __version__ = "0.0.0"

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            r = jax.random.uniform(rng, (), jnp.float64)
            return jax.tree.map(lambda x: x * 0 + r, data), state + r
        return fn

    def __init__(self):
        self.s = jnp.zeros(())

    def get_hyperparameters(self):
        return {}

    def get_state(self):
        return self.s

    def set_state(self, s, /):
        self.s = s


def tags(kind, k):
    if kind == "list":
        return S([Tag() for _ in range(k)], rng=5)
    if kind == "dict":
        return S({f"m{i}": Tag() for i in range(k)}, rng=5)
    if kind == "nested":
        return S([S([Tag() for _ in range(k)]), Tag(), [Tag()]], rng=5)
    if kind == "graph":
        return G({f"m{i}": Tag() for i in range(k)}, dict(
            {"input": [f"m{i}" for i in range(k)]},
            **{f"m{i}": f"output.{i}" for i in range(k)}), rng=5)
    if kind == "chain":
        return G([Tag() for _ in range(k)], dict(
            {"input": "0"}, **{str(i): str(i + 1) for i in range(k - 1)},
            **{str(k - 1): "output"}), rng=5)
    if kind == "graphs":
        return G({"a": S([Tag() for _ in range(k)]), "b": G(
            {"q": Tag(), "p": Tag()}, {"input": ["q", "p"], "q": "output.0",
                                       "p": "output.1"}), "c": Tag()},
                 {"input": ["a", "b", "c"], "a": "output.0",
                  "b": "output.1", "c": "output.2"}, rng=5)


def run_keys(case, ctx):
    """every module draws its own numbers, determined by the key alone"""
    kind, k = case["kind"], case["n"]
    X = jnp.ones((2, 2))

    def draws(m, **kw):
        _, ns = m(X, return_state=True, **kw)
        return [float(v) for v in lib.leaves(ns)]
    m = tags(kind, k)
    m.compile(1, (2,))
    seen = {}
    for key in range(6):
        random.seed(key * 7)
        a = draws(m, rng=key)
        ctx.step()
        ctx.state(kind, k, key)
        ctx.check(len(set(a)) == len(a), "modules share random numbers",
                  f"{kind} {k}: {a}")
        ctx.check(not any(set(a) & set(v) for v in seen.values()),
                  "keys share random numbers", f"{kind} {k}")
        seen[key] = a
        random.seed(99)
        other = tags(kind, k)
        other.compile(77, (2,))
        for how in ("int", "key", "stored", "storedint", "batch"):
            if how == "int":
                b = draws(other, rng=key)
            elif how == "key":
                b = draws(other, rng=jax.random.key(key))
            elif how == "stored":
                other.set_rng(jax.random.key(key))
                b = draws(other)
            elif how == "storedint":
                other.set_rng(key)
                b = draws(other)
            else:
                b = draws(other, rng=key, max_batch_size=1)
                b = [v / 2 for v in b]
            ctx.check(np.allclose(a, b, rtol=1e-12), "result depends on "
                      "more than the key", f"{kind} {k} {how}: {a} vs {b}")
            ctx.step()
    ctx.trace()


def run_x32(case, ctx):
    """without double precision enabled, it is refused"""
    code = ("import jax, jax.numpy as jnp, warnings\n"
            "warnings.simplefilter('ignore')\n"
            "import sys; sys.path.insert(0, %r)\n"
            "import parametricmatrixmodels as pmm\n"
            "jax.config.update('jax_enable_x64', False)\n"
            "from parametricmatrixmodels import modules as M\n"
            "m = pmm.SequentialModel([M.LinearNN(2)], rng=0)\n"
            "m.compile(0, (3,))\n"
            "x = m(jnp.ones((2, 3)), dtype=jnp.float32)\n"
            "for q in (m, m.modules[0]):\n"
            "    for p in (64, 'double', jnp.float64, jnp.complex128):\n"
            "        try:\n"
            "            q.set_precision(p)\n"
            "        except ValueError:\n"
            "            continue\n"
            "        print('ACCEPTED', type(q).__name__, p)\n"
            "m.set_precision(32)\n"
            "y = m(jnp.ones((2, 3)), dtype=jnp.float32)\n"
            "assert (x == y).all() and y.dtype == jnp.float32\n"
            "print('END')\n") % lib.REPO
    env = dict(os.environ, JAX_ENABLE_X64="0", PYTHONPATH=lib.REPO)
    r = subprocess.run([sys.executable, "-c", code], env=env,
                       capture_output=True, text=True, timeout=200)
    ctx.step()
    ctx.state("x32")
    ctx.check("END" in r.stdout and "ACCEPTED" not in r.stdout,
              "double precision without support", r.stdout + r.stderr[-900:])
    ctx.trace()


def cases(tier):
    q = tier == "quick"
    out = [{"k": "x32"}, {"k": "cast"}]
    for w in ("module", "seq", "nested", "graph"):
        out.append({"k": "precision", "what": w})
    for kind in ("list", "dict", "nested", "graph", "chain", "graphs"):
        for k in (1, 2, 3, 4):
            out.append({"k": "keys", "kind": kind, "n": k})
    for kind in KINDS:
        ops = CORE if q and kind not in ("seq", "mixedg") else OPS
        for pre in ops:
            out.append({"k": "history", "kind": kind, "pre": [pre],
                        "len": 1, "ops": ops})
        if not q:
            for pre in itertools.product(CORE, repeat=2):
                out.append({"k": "history", "kind": kind, "pre": pre,
                            "len": 1, "ops": OPS})
    ops = TINY if q else CORE
    for pre in itertools.product(ops, repeat=2 if q else 3):
        out.append({"k": "history", "kind": "seq", "pre": pre, "len": 1,
                    "ops": ops})
    for kind in ("seq",) if q else KINDS:
        for pre in CORE if q else OPS:
            out.append({"k": "history", "kind": kind, "pre": [pre],
                        "len": 1, "ops": CORE if q else OPS, "jit": True})
    return out


def run(case, ctx):
    globals()["run_" + case["k"]](case, ctx)
