"""C16 - reported Jacobians are the derivatives of the predictions.

Oracles: central differences of the model's own predictions (every module and
model structure), and a closed form (histories), so that the judge does not
disturb what it judges.
"""
import itertools
import warnings

from . import c02, c05, c18, lib
from .lib import M, jax, jnp, np, pmm
from .toys import BaseModule, Lin, PLin

ID = "C16"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of modules, model structures, modes and "
             "batch options against central differences of the predictions, "
             "and explicit-state exploration of histories (all pairs and "
             "triples of operations) against a closed form")
RULE = ("a state is (model, operation, mode, batch option) or a history; a "
        "transition is one Jacobian request or other operation")
BOUNDS = {
    "quick": "every module configuration (about 300), forward and reverse; "
             "32 model structures x 3 modes x 2 batch options; all pairs of "
             "27 operations on a long-lived model, 27 x 6 on a fresh one, all "
             "triples of 8; 3 kinds of models",
    "thorough": "all triples of 27 operations on a fresh model; all 5 batch "
                "options for every module and structure; 4-windows of 8 "
                "operations",
}
ASSUMPTIONS = ["points away from kinks; eigenvectors are only defined up to "
               "phases and not differentiated",
               "the state entering a batch is a constant, also if an "
               "earlier batch made it depend on parameters",
               "modes JAX refuses for complex numbers are outside; the "
               "automatic choice must find the other one",
               "complex arguments: df/dRe - i df/dIm (convention of JAX)"]
H = 1e-5


def L(t):
    return [np.asarray(x) for x in jax.tree.leaves(t)]


def fd(f, t, whole=False):
    """df/dt by central differences; samples are shifted together, unless
    whole (parameters).  list over outputs of list over inputs"""
    lv, st = jax.tree.flatten(t)
    lv = [np.array(x) for x in lv]
    out = [[] for _ in L(f(t))]
    for k, x in enumerate(lv):
        sh = x.shape if whole else x.shape[1:]
        cols = []
        for ix in np.ndindex(*sh):
            def ev(d):
                y = x.copy()
                y[ix if whole else (slice(None),) + ix] += d
                return L(f(jax.tree.unflatten(st, [
                    jnp.asarray(y) if i == k else jnp.asarray(v)
                    for i, v in enumerate(lv)])))
            g = [(a - b) / (2 * H) for a, b in zip(ev(H), ev(-H))]
            if x.dtype.kind == "c":
                gi = [(a - b) / (2 * H) for a, b in zip(ev(1j * H),
                                                        ev(-1j * H))]
                g = [a - 1j * b for a, b in zip(g, gi)]
            cols.append(g)
        for o in range(len(out)):
            if cols:
                c = np.stack([q[o] for q in cols], axis=-1)
                c = c.reshape(c.shape[:-1] + sh)
            else:
                c = np.zeros(L(f(t))[o].shape + sh)
            out[o].append(c)
    return out


def along(f, p, k):
    """derivative of f at p in the k-th of a family of directions in general
    position: the direction, and the derivatives of the outputs"""
    lv, st = jax.tree.flatten(p)
    c = itertools.count(1)

    def gen(x):
        v = np.array([np.cos(1.3 * (k + 1) * next(c) ** 1.5) + .1 * k
                      for _ in range(x.size)]).reshape(x.shape)
        if np.asarray(x).dtype.kind == "c":
            v = v + 1j * np.array([np.cos(.7 * (k + 2) * next(c) ** 1.5)
                                   for _ in range(x.size)]).reshape(x.shape)
        return v
    v = [gen(x) for x in lv]

    def ev(h):
        return L(f(jax.tree.unflatten(st, [
            jnp.asarray(np.asarray(x) + h * d) for x, d in zip(lv, v)])))
    return v, [(a - b) / (2 * H) for a, b in zip(ev(H), ev(-H))]


def compare_along(ctx, J, want, out, wrt, what, tol=2e-5):
    st = jax.tree.structure(jax.tree.map(lambda _: wrt, out))
    ctx.check(lib.struct(J) == st, "structure of the Jacobian",
              lambda: f"{what}: {lib.struct(J)} expected {st}")
    js = L(J)
    ws = L(wrt)
    for n, (v, row) in enumerate(want):
        for o, (y, d) in enumerate(zip(L(out), row)):
            tot = np.zeros(y.shape)
            big = 1.
            for i, (w, e) in enumerate(zip(ws, v)):
                j = js[o * len(ws) + i]
                ctx.check(j.shape == y.shape + w.shape,
                          "shape of the Jacobian", lambda: f"{what}: "
                          f"{j.shape} expected {y.shape + w.shape}")
                if e.size:
                    t = np.tensordot(j, e, axes=e.ndim)
                    tot = tot + (t.real if w.dtype.kind == "c" else t)
                    big += np.max(np.abs(t), initial=0)
            ctx.check(np.allclose(tot, d, rtol=tol, atol=tol * big),
                      "not the derivative of the prediction",
                      lambda: f"{what} output {o} direction {n}:\n"
                      f"{tot.tolist()}\nexpected\n{d.tolist()}")


def double(m):
    """all parameters in double precision, for accurate differences"""
    m.set_params(jax.tree.map(
        lambda p: p.astype(jnp.complex128 if p.dtype.kind == "c"
                           else jnp.float64), m.get_params()))
    m.set_state(jax.tree.map(lambda p: p.astype(jnp.float64)
                             if p.dtype.kind == "f" else p, m.get_state()))


def compare(ctx, J, want, out, wrt, what, tol=2e-5):
    st = jax.tree.structure(jax.tree.map(lambda _: wrt, out))
    ctx.check(lib.struct(J) == st, "structure of the Jacobian",
              lambda: f"{what}: {lib.struct(J)} expected {st}")
    js = L(J)
    k = len(jax.tree.leaves(wrt))
    for o, row in enumerate(want):
        for i, w in enumerate(row):
            j = js[o * k + i]
            ctx.check(j.shape == w.shape, "shape of the Jacobian",
                      lambda: f"{what}: {j.shape} expected {w.shape}")
            sc = 1 + np.max(np.abs(w), initial=0)
            ctx.check(np.allclose(j, w, rtol=tol, atol=tol * sc),
                      "not the derivative of the prediction",
                      lambda: f"{what} output {o} input {i}:\n{j.tolist()}\n"
                      f"expected\n{w.tolist()}")


def cplx(t):
    return any(x.dtype.kind == "c" for x in L(t))


def sweep(ctx, m, X, what, batches, which=("input", "params"), dtype=None,
          modes=(None, True, False, None)):
    """all modes and batch options"""
    dtype = dtype or (np.complex128 if cplx(X) else np.float64)
    for mbs, avoid in batches:
        kw = dict(max_batch_size=mbs, avoid_recompilation=avoid,
                  dtype=dtype)
        out = m(X, **kw)
        if not all(y.dtype.kind in "fc" for y in L(out)):
            ctx.outcome("not continuous")
            return
        for wh in which:
            if wh == "input":
                wrt = X
                want = fd(lambda x: m(x, **kw), X)
                f = m.grad_input
            else:
                wrt = m.get_params()

                def g(p):
                    try:
                        m.set_params(p)
                    except ValueError:      # not a valid value: formally
                        return m._get_callable()(
                            p, X, False, m.get_state(), m.get_rng())[0]
                    return m(X, **kw)
                few = sum(x.size for x in L(wrt)) <= 6
                want = fd(g, wrt, True) if few else [
                    along(g, wrt, k) for k in range(3)]
                m.set_params(wrt)
                f = m.grad_params
            cw, co = cplx(wrt), cplx(out)
            if cw and co:
                ctx.outcome("neither mode applies")
                continue
            # the automatic choice comes first and last
            for mode in modes:
                if (mode is True and cw) or (mode is False and co):
                    try:
                        f(X, fwd=mode, **kw)
                    except Exception:
                        pass
                    ctx.outcome("mode not applicable")
                    continue
                J = f(X, fwd=mode, **kw)
                ctx.step()
                ctx.state(what, wh, mode, mbs, avoid)
                (compare if wh == "input" or few else compare_along)(
                    ctx, J, want, out, wrt, f"{what} d/d{wh} fwd={mode} "
                    f"max_batch_size={mbs} avoid_recompilation={avoid}")
    ctx.outcome("derivative")


# ------------------------------------------------------------- every module
def smooth(shape, n=3):
    """inputs away from the kinks of element-wise functions"""
    c = itertools.count()

    def one(q):
        x = np.array(lib.grid((n,) + q, .3 + .7 * next(c))) * .83 + .031
        if len(q) == 2 and q[0] == q[1]:
            x = x + np.swapaxes(x, 1, 2) + np.diag(np.arange(q[0]))
        # distance from multiples of one half
        r = x * 2 - np.round(x * 2)
        x = x + np.where(np.abs(r) < .05, .06, 0.)
        return jnp.asarray(x)
    return jax.tree.map(one, shape, is_leaf=lib.is_shape)


VECTORS = ("Eigenvectors", "Eigensystem", "EVec", "ESys", "EVS", "Evec",
           "Esys")


def run_module(case, ctx):
    with jax.disable_jit():
        for name in case["names"]:
            one_module({"src": case["src"], "name": name}, case, ctx)
    ctx.trace()


def has_vectors(m):
    return type(m).__name__ in ("Eigenvectors", "Eigensystems",
                                "Eigensystem")


def one_module(c, case, ctx):
    mod, shape = c05.module(c)
    if has_vectors(mod):
        ctx.outcome("gauge")
        return
    m = pmm.SequentialModel([mod], rng=1)
    m.compile(2, shape)
    double(m)
    X = smooth(shape)
    if c["src"] == "act":
        X = jax.tree.map(lambda x: jnp.asarray(act_points(c["name"])), X)
    y = L(m(X))
    if not all(np.isfinite(v).all() for v in y if v.dtype.kind in "fc"):
        ctx.outcome("not finite here")
        return
    try:
        sweep(ctx, m, X, f"{c['src']} {c['name']}", case["batches"],
              modes=case["modes"])
    except NotImplementedError:
        ctx.outcome("no derivative in JAX")


NARROW = {"ArcCos", "ArcSin", "ArcTanh", "Acos", "Asin", "Atanh", "ErfInv",
          "Erfinv", "Logit"}
LARGE = {"ArcCosh", "Acosh"}
POS = {"Log", "Log10", "Log2", "Sqrt", "Log1p", "GammaLn", "Gammaln"}


def act_points(name):
    n = name.split(":")[0]
    if n in NARROW:
        return np.array([[.11, .37, -.63], [.71, -.23, .53],
                         [-.41, .29, .67]])
    if n in LARGE:
        return np.array([[1.3, 2.2, 3.1], [1.7, 4.1, 2.7], [1.1, 5., 1.9]])
    if n in POS:
        return np.array([[.31, .22, 3.1], [1.7, 4.1, 2.7], [1.1, .6, 1.9]])
    return np.array([[-3.37, -1.43, -1.13], [-.71, -.23, .31],
                     [.63, 1.43, 2.77]])


# ------------------------------------------------------------ every structure
BATCH = [(None, False), (1, False), (2, False), (2, True), (9, True)]


class Shift(BaseModule):
    """x -> tanh(w x) s + c x^2 + r x; s is a state counting evaluations, r a
    random number"""
    __version__ = "0.0.0"

    def __init__(self, w=.7, c=.3, k=1.):
        self.h = dict(w=w, c=c, k=k)
        self.p = None
        self.s = jnp.asarray([k])

    @property
    def name(self):
        return "Shift"

    def is_ready(self):
        return self.p is not None

    def compile(self, rng, input_shape, /):
        if self.p is None:
            self.p = {"w": jnp.asarray([self.h["w"]]),
                      "c": jnp.asarray([self.h["c"]])}

    def get_output_shape(self, input_shape, /):
        return input_shape

    def get_hyperparameters(self):
        return dict(self.h)

    def set_hyperparameters(self, h, /):
        self.h.update(h)

    def get_params(self):
        return self.p

    def set_params(self, p, /):
        self.p = p

    def get_state(self):
        return self.s

    def set_state(self, s, /):
        self.s = s

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            r = jax.random.uniform(rng, (), jnp.float64)
            return jax.tree.map(
                lambda x: jnp.tanh(params["w"][0] * x) * state[0]
                + params["c"][0] * x ** 2 + r * x
                # predictions are made outside training
                + jnp.where(training, params["w"][0] * x ** 3, 0.),
                data), state + .5
        return fn


class CPar(PLin):
    """complex parameters, real output"""
    __version__ = "0.0.0"

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            w, c = params["w"][0], params["c"][0]
            return jax.tree.map(lambda x: jnp.abs((w + .3j) * x + c) ** 2,
                                data), state
        return fn


class COut(PLin):
    """real parameters, complex output"""
    __version__ = "0.0.0"

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            w, c = params["w"][0], params["c"][0]
            return jax.tree.map(lambda x: jnp.exp(1j * w * x) * c,
                                data), state
        return fn


class Fan(M.FuncBase):
    """array -> tree with more numbers"""
    __version__ = "0.0.0"

    def f(self, x):
        x = jax.tree.leaves(x)[0]
        return {"b": (jnp.sin(x), x[:, :1] * x), "a": [
            x[:, :, None] * x[:, None, :], x[:, 0] ** 2]}

    def get_hyperparameters(self):
        return {}


S = pmm.SequentialModel
TREE = {"a": (2,), "b": [(1, 2), ()]}
STRUCTS = {
    "shift": (lambda: S([Shift()], rng=1), (2,)),
    "shifts": (lambda: S({"u": Shift(.5), "v": [Shift(.9, -.2), Shift()]},
                         rng=1), (2,)),
    "shifttree": (lambda: S([Shift()], rng=1), TREE),
    "fan": (lambda: S([PLin(1.5, .2), Fan()], rng=1), (2,)),
    "fantree": (lambda: S([Shift(), M.TreeFlatten(), Fan()], rng=1),
                {"q": (2,)}),
    "cpar": (lambda: S([CPar(1.5, .2, real=False)], rng=1), (1,)),
    "cparfan": (lambda: S([CPar(1.5, .2, real=False), Fan()], rng=1), (1,)),
    "cout": (lambda: S([COut(1.5, .2)], rng=1), (3,)),
    "coutone": (lambda: S([COut(1.5, .2), M.LinearNN(1)], rng=1), (3,)),
    "empty": (lambda: S([Lin(2., 1.)], rng=1), (2,)),
    "const": (lambda: S([Shift(), M.Constant(jnp.asarray([1., 2.]))],
                        rng=1), (2,)),
    "graphstate": (lambda: pmm.NonSequentialModel(
        {"s": Shift(), "f": Fan(), "p": PLin()},
        {"input": ["s", "p"], "s": ["f", "output.s"], "f": "output.f",
         "p": "output.p"}, rng=1), (2,)),
    "eigone": (lambda: S([M.AffineEigenvaluePMM(3, 3)], rng=1), (1,)),
    "obs": (lambda: S([M.AffineObservablePMM(
        3, 2, num_secondaries=1, output_size=2)], rng=1), (1,)),
    "lowrank": (lambda: S([M.LowRankAffineHermitianMatrix(3, 2),
                           M.Eigenvalues(3)], rng=1), (1,)),
}


def structure(name):
    if name in STRUCTS:
        mk, shape = STRUCTS[name]
        return mk(), shape
    return c05.STRUCTS[name]()


def mixing(name):
    """predictions of one sample depend on the others of the batch"""
    return name in ("tuple", "inner", "graphlist", "seqingraph")


def run_struct(case, ctx):
    m, shape = structure(case["name"])
    m.compile(2, shape)
    double(m)
    X = smooth(shape, 5)
    mix = mixing(case["name"])
    sweep(ctx, m, X, case["name"], [tuple(b) for b in case["batches"]
                                    if not mix or b[0] in (None, 9)],
          ("params",) if mix else ("input", "params"),
          modes=(None, True, False) if case["batches"][0][0] is None
          else (None, False, True))
    ctx.trace()


def run_complex(case, ctx):
    """complex inputs"""
    for name, mods in (
            ("abs", [PLin(1.5, .2), M.FuncBase]), ("lin", [PLin(2., 1.)])):
        if name == "abs":
            mods = [CPar(1.5, .2, real=True), Lin(1., 0.)]
        m = S(mods, rng=1)
        m.compile(2, (2,))
        double(m)
        X = jnp.asarray(lib.cgrid((3, 2)))
        for b in BATCH:
            sweep(ctx, m, X, f"complex input {name}", [b])
    ctx.trace()


# ----------------------------------------------------------------- histories
def h_seq():
    return S([Shift(.6, .4)], rng=1)


def h_nested():
    return S({"x": [S([Shift(.6, .4)])]}, rng=1)


def h_graph():
    return pmm.NonSequentialModel(
        {"q": {"s": Shift(.6, .4)}}, {"input": "q.s", "q.s": "output"},
        rng=1)


HIST = {"seq": h_seq, "nested": h_nested, "graph": h_graph}
GRADS = ["i:T", "i:F", "i:N", "i:N:1", "i:T:2", "i:F:2a", "p:T", "p:F",
         "p:N", "p:N:1", "p:T:2", "p:F:2a"]
OTHER = ["call", "call:2", "call:2a", "callupd", "iupd", "pupd", "params",
         "state", "rng", "train", "single", "double", "recompile", "bad",
         "badmode"]
CORE = ["i:T", "i:F:2a", "i:N", "p:T:2", "p:F", "params", "state", "call:2"]


def flat1(t):
    return [x for x in jax.tree.leaves(t)]


_r = {}


def noise(kind, key):
    """the random number drawn from this key, seen through a prediction"""
    k = (kind, tuple(np.asarray(jax.random.key_data(key)).ravel()))
    if k not in _r:
        if kind not in _r:
            _r[kind] = HIST[kind]()
            _r[kind].compile(2, (2,))
        m = _r[kind]
        y = np.asarray(m(jnp.ones((1, 2)), rng=key))[0, 0]
        w, c = values(m)
        s = float(flat1(m.get_state())[0][0])
        _r[k] = y - np.tanh(w) * s - c
    return _r[k]


def values(m):
    c, w = [float(x[0]) for x in flat1(m.get_params())]
    return w, c


def closed(m, kind, X, batch, key, what):
    """derivatives of the predictions of the current model in closed form"""
    w, c = values(m)
    s = float(flat1(m.get_state())[0][0])
    r = noise(kind, key)
    n = X.shape[0]
    mbs, avoid = {"": (None, False), "1": (1, False), "2": (2, False),
                  "2a": (2, True)}[batch]
    sizes = [n] if mbs is None or mbs >= n else [mbs] * (n // mbs)
    if sum(sizes) < n:
        rem = n - sum(sizes)
        sizes += [1] * rem if avoid else [rem]
    ss = []
    for k in sizes:
        ss += [s] * k
        s += .5
    ss = np.array(ss)[:, None]
    x = np.asarray(X, np.float64)
    if what == "i":
        d = w * (1 - np.tanh(w * x) ** 2) * ss + 2 * c * x + r
        J = np.zeros(x.shape + x.shape[1:])
        for j in range(x.shape[1]):
            J[:, j, j] = d[:, j]
        return [[J]], s
    dw = x * (1 - np.tanh(w * x) ** 2) * ss
    return [[(x ** 2)[..., None], dw[..., None]]], s


MODE = {"T": True, "F": False, "N": None}


def act(ctx, m, kind, o, i, hist):
    """one operation; Jacobians are judged"""
    n = (3, 5)[i % 2]
    X = jnp.asarray(lib.grid((n, 2), .2 + .1 * (i % 7)))
    ctx.step()
    parts = o.split(":")
    if parts[0] in ("i", "p", "iupd", "pupd"):
        wh = parts[0][0]
        upd = parts[0].endswith("upd")
        mode = MODE[parts[1]] if len(parts) > 1 else None
        b = parts[2] if len(parts) > 2 else ""
        mbs, avoid = {"": (None, False), "1": (1, False), "2": (2, False),
                      "2a": (2, True)}[b]
        given = i % 3 == 1
        key = jax.random.key(40 + i % 5) if given else m.get_rng()
        want, s = closed(m, kind, X, b, key, wh)
        f = m.grad_input if wh == "i" else m.grad_params
        before = lib.host((m.get_params(), m.get_rng(), m.get_state()))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            J, ns = f(X, fwd=mode, max_batch_size=mbs, update_state=upd,
                      avoid_recompilation=avoid, return_state=True,
                      **(dict(rng=key) if given else {}))
        wrt = X if wh == "i" else m.get_params()
        compare(ctx, J, want, X, wrt, f"{kind} after {hist}: {o}", 1e-5)
        d = lib.same(ns, jax.tree.map(lambda q: jnp.full_like(q, s),
                                      m.get_state()), 1e-6, 1e-6)
        ctx.check(d is None, "state after a Jacobian",
                  lambda: f"{kind} after {hist}: {o}: {d}")
        after = lib.host((m.get_params(), m.get_rng(), m.get_state()))
        if upd:
            before = before[:2] + (lib.host(ns),)
        d = lib.same(after, before, 1e-9, 1e-9)
        ctx.check(d is None, "Jacobian changed the model",
                  lambda: f"{kind} after {hist}: {o}: {d}")
        ctx.outcome("derivative")
    elif parts[0] == "call":
        b = parts[1] if len(parts) > 1 else ""
        m(X, max_batch_size=2 if b else None, avoid_recompilation=b == "2a")
    elif o == "callupd":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m(X, update_state=True)
    elif o == "params":
        m.set_params(jax.tree.map(lambda p: p * 0 + (.2 + .17 * (i % 5)),
                                  m.get_params()))
    elif o == "state":
        m.set_state(jax.tree.map(lambda p: p * 0 + (.4 + .3 * (i % 5)),
                                 m.get_state()))
    elif o == "rng":
        m.set_rng(jax.random.key(100 + i % 5))
    elif o == "train":
        m.train(X, Y=X * .5, X_val=X, Y_val=X * .5, epochs=1, lr=.02,
                batch_size=3, verbose=False,
                batch_rng=jax.random.key(3))
    elif o == "single":
        m.set_precision(32)
    elif o == "double":
        m.set_precision(64)
    elif o == "recompile":
        m.compile(7, (2,))
    elif o == "bad":
        for f in (m, m.grad_input, m.grad_params):
            try:
                f(jnp.ones((2, 3)))
            except Exception:
                continue
            ctx.fail("wrong shape accepted", f"{kind} {hist}")
    elif o == "badmode":
        for f in (m.grad_input, m.grad_params):
            try:
                f(X, max_batch_size=2, rng="no key")
            except Exception:
                pass


def fresh(kind):
    m = HIST[kind]()
    m.compile(2, (2,))
    return m


def run_fresh(case, ctx):
    """compiled histories are those of run_walk"""
    with jax.disable_jit():
        run_fresh_(case, ctx)


def run_fresh_(case, ctx):
    for g in case["last"]:
        hist = tuple(case["pre"]) + (g,)
        m = fresh(case["model"])
        for i, o in enumerate(hist):
            act(ctx, m, case["model"], o, i, hist[:i])
        ctx.state(case["model"], "fresh", hist)
    ctx.trace()


def debruijn(k, n):
    """sequence in which every window of n symbols occurs"""
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out + out[:n - 1]


def run_walk(case, ctx):
    """one long-lived model"""
    ops = case["ops"]
    seq = debruijn(len(ops), case["window"])
    lo, hi = case["part"]
    a, b = len(seq) * lo // hi, len(seq) * (lo + 1) // hi
    m = fresh(case["model"])
    hist = []
    for i, k in enumerate(seq[max(0, a - case["window"] + 1):b]):
        act(ctx, m, case["model"], ops[k], i, hist[-case["window"]:])
        hist.append(ops[k])
        ctx.state(case["model"], "walk", tuple(hist[-case["window"]:]))
    ctx.trace()


# --------------------------------------------------------------------- cases
def cases(tier):
    q = tier == "quick"
    out = []
    names = c05.module_names()
    by = {}
    for s, n in names:
        by.setdefault(s, []).append(n)
    for s, ns in by.items():
        for i in range(0, len(ns), 6):
            out.append({"k": "module", "src": s, "names": ns[i:i + 6],
                        "batches": BATCH[:1] if q else BATCH,
                        "modes": [True, False] if q else [
                            None, True, False]})
    for name in list(STRUCTS) + list(c05.STRUCTS):
        sub = (0, 1 + len(out) // 2 % 3) if q else range(5)
        for i in sub:
            out.append({"k": "struct", "name": name,
                        "batches": BATCH[i:i + 1]})
    out.append({"k": "complex"})
    for kind in HIST:
        ops = GRADS + OTHER
        last = GRADS
        if q:
            last = ["i:N", "p:N", "i:T:2", "p:F:2a"] + (
                ["i:F", "p:T:2"] if kind == "seq" else [])
        for pre in ops:
            out.append({"k": "fresh", "model": kind, "pre": [pre],
                        "last": last})
        if not q:
            for pre in itertools.product(ops, repeat=2):
                out.append({"k": "fresh", "model": kind, "pre": pre,
                            "last": last})
        for i in range(8):
            if kind == "seq" or not q:
                out.append({"k": "walk", "model": kind, "ops": ops,
                            "window": 2, "part": [i, 8]})
            out.append({"k": "walk", "model": kind, "ops": CORE,
                        "window": (3 if kind == "seq" else 2) if q else 4,
                        "part": [i, 8]})
    return out


def run(case, ctx):
    globals()["run_" + case["k"]](case, ctx)
