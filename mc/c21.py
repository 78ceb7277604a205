"""C21 - interval widths follow the documented sensitivities.

Reference: the formulas of the class documentation written out with numpy on
plain arrays, with derivatives of the model's function taken one sample at a
time; the real wrapper is calibrated and asked for its heuristic and for
intervals.
"""
import itertools
import warnings

from . import lib
from .c10 import L, inputs, residuals, tree_of
from .lib import M, jax, jnp, np, pmm
from .toys import PLin
from parametricmatrixmodels.conformal import ConformalizedModel

ID = "C21"
LEVEL = "model_checking"
TECHNIQUE = ("bounded-exhaustive enumeration of wrapper configurations (all "
             "choices of sensitive parameters, sensitive inputs, inputs that "
             "count for the distance and continuous inputs, with and without "
             "training data and uncertainties) and of evaluation points; the "
             "real heuristic and intervals are compared with the documented "
             "formulas written out")
RULE = ("a state is (model, masks, calibration and training data, cutoff "
        "quantile, evaluation points); a transition is one calibration or "
        "one evaluation of the heuristic or of intervals")
BOUNDS = {
    "quick": "a model with 3 inputs, 2 parameters and 2 outputs: 8 x 16 "
             "choices of continuous, input- and distance-sensitive inputs, "
             "all 4 choices of parameters, 5 cutoff quantiles, uncertainties "
             "in {none, calibration, evaluation, both}, 4 further models; 10 "
             "evaluation points each",
    "thorough": "as quick with all 8 x 8 x 8 choices of inputs, and the "
                "choices of parameters, cutoffs and "
                "uncertainties combined with all choices of inputs, and "
                "limits on the batch size",
}
ASSUMPTIONS = ["categories met in evaluation occur in the training data",
               "where the median absolute deviation of a sensitivity "
               "vanishes for some but not all output components the "
               "fallback is not prescribed",
               "target uncertainties (a weighted deviation) are not covered"]
TOL = 1e-6
NP = np


class Cross(PLin):
    """outputs that mix three inputs, two of them nonlinearly"""
    __version__ = "0.0.0"
    PARAMS = {"w": (2,), "v": [(3,)]}

    def compile(self, rng, input_shape, /):
        if self.p is None:
            self.p = {"w": jnp.asarray([.7, -1.3]),
                      "v": [jnp.asarray([.4, 1.1, -.6])]}

    def get_output_shape(self, input_shape, /):
        return {"p": (2,), "q": (1, 2)}

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            a, b, c = data["a"], data["b"], data["c"][0]
            w, v = params["w"], params["v"][0]
            p = jnp.sin(w) * a + v[0] * b ** 2 + .3 * c
            q = jnp.stack([a[:, 0] * a[:, 1] * v[1] + w[0] * c[:, 0],
                           w[0] * w[1] * b[:, 0] ** 3
                           + v[2] * a[:, 0] * c[:, 1]], axis=-1)
            return {"p": p, "q": q[:, None, :]}, state
        return fn


S3 = {"a": (2,), "b": (1,), "c": [(2,)]}
MODELS = {
    "cross": (lambda: [Cross()], S3),
    "vec": (lambda: [PLin(2., .5)], (3,)),
    "mat": (lambda: [PLin(-1., .5)], (2, 3)),
    "eig": (lambda: [M.AffineEigenvaluePMM(2, 2)], (2,)),
    "nn": (lambda: [M.LinearNN(2, activation=M.Tanh())], (3,)),
}


def make(name):
    mk, shape = MODELS[name]
    m = pmm.SequentialModel(mk(), rng=0)
    m.compile(3, shape)
    m.set_precision(64)
    return m, shape


# ----------------------------------------------------------------- reference
_jacs = {}


def jac(m, X, wrt):
    """one sample at a time: per sample, leaves of the output -> leaves of
    what is differentiated by"""
    key = (id(m), wrt)
    if key not in _jacs:
        f, S = m._get_callable(), m.get_state()

        def single(p, x):
            y, _ = f(p, jax.tree.map(lambda v: v[None], x), False, S,
                     jax.random.key(0))
            return [v[0] for v in jax.tree.leaves(y)]
        _jacs[key] = m, jax.jit(jax.vmap(
            jax.jacrev(single, argnums=wrt == "x"), in_axes=(None, 0)))
    with jax.disable_jit(False):
        J = _jacs[key][1](m.get_params(), X)
    J = [[np.asarray(v) for v in jax.tree.leaves(j)] for j in J]
    n = L(X)[0].shape[0]
    return [[[v[i] for v in j] for j in J] for i in range(n)]


def squares(J, scale):
    """sum over components of |J * scale|^2; per sample, per output leaf"""
    out = []
    for i, row in enumerate(J):
        vals = []
        for leaf in row:
            t = 0.
            for v, s in zip(leaf, scale(i)):
                k = v.ndim - s.ndim
                t = t + (np.abs(v * s) ** 2).sum(
                    axis=tuple(range(k, v.ndim)))
            vals.append(t)
        out.append(vals)
    return [np.stack([r[j] for r in out]) for j in range(len(out[0]))]


def norm(S):
    """documented normalisation; None where it is not prescribed"""
    if np.isnan(S).any():
        return None
    d = np.median(np.abs(S - np.median(S, axis=0)), axis=0)
    if np.all(d >= 1e-9):
        return d
    if np.any(d >= 1e-12):
        return None
    for a, b in ((25, 75), (5, 95), (0, 100)):
        d = np.percentile(S, b, axis=0) - np.percentile(S, a, axis=0)
        if np.all(d >= 1e-9):
            return d
        if np.any(d >= 1e-12):
            return None
    return np.full_like(d, np.inf)


class Reference:
    """heuristic of one calibration"""

    def __init__(self, m, Xc, Xcu, Xt, par, inp, dist, cont, quantile):
        self.m, self.Xt = m, Xt
        self.par = [bool(b) for b in jax.tree.leaves(par)]
        self.cont = jax.tree.leaves(cont)
        self.inp = [a and b for a, b in zip(jax.tree.leaves(inp), self.cont)]
        self.dist = jax.tree.leaves(dist)
        self.terms = []
        if any(self.par):
            self.terms.append(self.theta)
        if Xt is not None and any(self.inp):
            self.terms.append(self.inputs)
        if Xt is not None and any(self.dist):
            pts = sorted(set(self.rows(Xt)))
            self.points = pts
            d = [min((self.apart(p, q) for q in pts if q != p),
                     default=np.inf) for p in pts]
            self.cut = np.quantile(d, quantile)
            self.terms.append(self.distance)
        self.norms = [[norm(s) for s in t(Xc, Xcu)] for t in self.terms]
        self.prescribed = all(x is not None for n in self.norms for x in n)

    def theta(self, X, Xu):
        P = L(self.m.get_params())
        sc = [np.abs(p) * b for p, b in zip(P, self.par)]
        n = sum(p.size for p, b in zip(P, self.par) if b)
        return [s / n for s in squares(jac(self.m, X, "p"), lambda i: sc)]

    def inputs(self, X, Xu):
        T = L(self.Xt)
        J = jac(self.m, X, "x")
        n = sum(t[0].size for t, b in zip(T, self.inp) if b)
        iqr = [b * (np.percentile(t, 75, axis=0) - np.percentile(t, 25, axis=0))
               for t, b in zip(T, self.inp)]
        S = squares(J, lambda i: iqr)
        if Xu is not None:
            U = L(Xu)
            S2 = squares(J, lambda i: [b * u[i] for u, b in zip(U, self.inp)])
            S = [a + b for a, b in zip(S, S2)]
        return [s / n for s in S]

    def rows(self, X):
        """samples as tuples: scaled numbers and categories"""
        T = L(self.Xt)
        out = []
        for i in range(L(X)[0].shape[0]):
            r = []
            for x, t, c, d in zip(L(X), T, self.cont, self.dist):
                if not d:
                    continue
                if c:
                    w = t.max(axis=0) - t.min(axis=0)
                    w = np.where(w == 0, 1., w)
                    r += [float(v) for v in (x[i] / w).ravel()]
                else:
                    r.append(("cat",) + tuple(x[i].ravel().tolist()))
            out.append(tuple(r))
        return out

    @staticmethod
    def apart(p, q):
        return sum(float(a != b) if isinstance(a, tuple) else abs(a - b)
                   for a, b in zip(p, q))

    def distance(self, X, Xu):
        n = sum((t[0].size if c else 1) for t, c, d in zip(
            L(self.Xt), self.cont, self.dist) if d)
        out = []
        for p in self.rows(X):
            ds = [self.apart(p, q) for q in self.points]
            if any(abs(d - self.cut) < 1e-9 for d in ds):
                out.append(np.nan)      # meets the cutoff: not judged
                continue
            near = [d for d in ds if d <= self.cut]
            out.append(max([min(ds)] + ([sum(near) / len(near)]
                                        if near else [])) / n)
        return [np.asarray(out)]

    def __call__(self, X, Xu, shapes):
        n = L(X)[0].shape[0]
        u = [np.zeros((n,) + s) for s in shapes]
        for t, N in zip(self.terms, self.norms):
            S = t(X, Xu)
            if t == self.distance:
                u = [v + (S[0] / N[0]).reshape((n,) + (1,) * (v.ndim - 1))
                     for v in u]
            else:
                u = [v + s / k for v, s, k in zip(u, S, N)]
        return u


# --------------------------------------------------------------------- data
RES = [.31, -.72, 1.9, -.05, .45]
CATS = [(1., -1.), (1., 1.), (-1., -1.), (-1., 1.)]


def data(shape, n, s, cat=True):
    """generic numbers; the last leaf of the three-input model takes few
    values so that it can be used as a category as well as a number"""
    X = inputs(shape, n, "generic", s)
    if isinstance(shape, dict) and cat:
        X = {"a": X["a"], "b": X["b"],
             "c": [jnp.asarray([CATS[int(7 * s + i * i) % 3]
                                for i in range(n)])]}
    return X


def codes(X):
    """few values everywhere"""
    return jax.tree.map(lambda x: jnp.round(x), X)


def points(X, Xc, Xt, cont):
    """evaluation points: calibrated ones, training points, others, far ones
    (with known categories)"""
    return jax.tree.map(lambda x, c, t, k: jnp.concatenate(
        [c[:2], t[:2], x, (x[:2] * 5 + 9 if k else t[2:4])]),
        X, Xc, Xt, cont)


def unc(X):
    return jax.tree.map(lambda x: .1 + .3 * jnp.abs(x) ** 2, X)


def one(ctx, name, m, shape, par, inp, dist, cont, train, ucal, uev, q,
        batch=None, forms=False, widths=False):
    out = [s for s in jax.tree.leaves(m.output_shape, is_leaf=lib.is_shape)]
    Xc, Xt, X = data(shape, 5, .3), data(shape, 7, .77), data(shape, 4, 1.31)
    # one training sample occurs twice
    Xt = jax.tree.map(lambda t: jnp.concatenate([t, t[2:3]]), Xt)
    cs = jax.tree.leaves(cont)
    if not all(cs):
        # categories of evaluation occur in training
        def few(x, t, c):
            return x if c else jnp.stack(
                [t[(3 * i) % t.shape[0]] for i in range(x.shape[0])])
        Xt = jax.tree.map(lambda t, c: t if c else jnp.sign(t), Xt, cont)
        Xc = jax.tree.map(few, Xc, Xt, cont)
        X = jax.tree.map(few, X, Xt, cont)
    what = (name, par, inp, dist, cont, train, ucal, uev, q, batch)
    c = ConformalizedModel(m, nn_dist_quantile=q)
    kw = {}
    if train:
        kw["X_train"] = Xt
    if ucal:
        kw["X_cal_unc"] = unc(Xc)
    if forms:                   # written as a single flag where possible
        def form(t):
            v = set(jax.tree.leaves(t))
            return v.pop() if len(v) == 1 else t
        par_, inp_, dist_ = form(par), form(inp), form(dist)
    else:
        par_, inp_, dist_ = par, inp, dist
    Y = residuals(m(Xc, dtype=np.float64), RES)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c.calibrate(Xc, Y, skip_sanity_checks=True, max_batch_size=batch,
                    parameter_sensitivity=par_, input_sensitivity=inp_,
                    distance_sensitivity=dist_, continuous_features=cont,
                    **kw)
    ctx.step()
    ref = Reference(m, Xc, unc(Xc) if ucal else None,
                    Xt if train else None, par, inp, dist, cont, q)
    if not ref.prescribed:
        ctx.outcome("not prescribed")
        return
    E = points(X, Xc, Xt, cont)
    xu = unc(E) if uev else None
    ctx.state(what)
    want = ref(E, xu, out)
    ok = [~np.isnan(w) for w in want]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = c.uncertainty_heuristic(E, X_unc=xu, max_batch_size=batch)
        ctx.step()
    ctx.check(lib.struct(got) == jax.tree.structure(
        m.output_shape, is_leaf=lib.is_shape),
              "structure", lambda: f"{what}: {lib.struct(got)}")
    for g, w, k in zip(L(got), want, ok):
        ctx.check(g.shape == w.shape and np.allclose(
            g[k], w[k], rtol=TOL, atol=TOL), "heuristic is not the documented "
            "sum of sensitivities", lambda: f"{what}: "
            f"{g.tolist()} expected {w.tolist()}")
    ctx.outcome("as documented" if all(k.all() for k in ok) else
                "as documented where the cutoff is not met")
    if not widths:
        return
    al = [.2, .5, .8]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _, I = c(E, X_unc=xu, alpha=al, max_batch_size=batch)
    ctx.step()
    ucal_ = ref(Xc, unc(Xc) if ucal else None, out)
    n = len(RES)
    off = [np.abs(y - f) for y, f in zip(L(Y), L(m(Xc, dtype=np.float64)))]
    for a, (lo, hi) in zip(al, I):
        k = int(np.ceil((n + 1) * (1 - a)))
        for lo_, hi_, w, u, res in zip(L(lo), L(hi), want, ucal_, off):
            h = (hi_ - lo_) / 2
            for j in np.ndindex(w.shape[1:]):
                wj, hj = w[(slice(None),) + j], h[(slice(None),) + j]
                ok = (wj > 1e-6) & np.isfinite(hj)
                r = hj[ok] / wj[ok]
                ctx.check(not ok.any() or np.ptp(r) <= 1e-5 * (
                    1 + np.abs(r).max()), "widths are not proportional to "
                    "the heuristic", lambda: f"{what} alpha={a} component "
                    f"{j}: ratios {r.tolist()}")
                uj = u[(slice(None),) + j]
                if not ok.any() or not (uj > 1e-6).all() or k > n:
                    continue
                s = np.sort(res[(slice(None),) + j] / uj)
                low, top = s[k - 1], s[min(k, n - 1)]
                ctx.check(low * (1 - 1e-5) <= r[0] <= top * (1 + 1e-5),
                          "the factor of the widths is not the quantile of "
                          "the calibration scores", lambda: f"{what} "
                          f"alpha={a} component {j}: {r[0]} not in "
                          f"[{low}, {top}]")
    ctx.outcome("widths proportional")


def masks(shape, bits):
    return tree_of(shape, bits)


def pmask(m, bits):
    return tree_of_params(m.get_params(), bits)


def tree_of_params(P, bits):
    v = itertools.cycle(bits)
    return jax.tree.map(lambda _: bool(next(v)), P)


BITS = list(itertools.product([True, False], repeat=3))


def run(case, ctx):
    name = case["model"]
    m, shape = make(name)
    for i, (par, inp, dist, cont, train, ucal, uev, q,
            batch) in enumerate(case["confs"]):
        one(ctx, name, m, shape, pmask(m, par), masks(shape, inp),
            masks(shape, dist), masks(shape, cont), train, ucal, uev, q,
            batch, forms=i % 2 == 0, widths=i % 4 == 0)
    ctx.trace()


def cases(tier):
    qk = tier == "quick"
    T, F = True, False
    P4 = list(itertools.product([T, F], repeat=2))
    out = []

    def add(name, confs, k):
        for i in range(0, len(confs), k):
            out.append({"model": name, "confs": confs[i:i + k]})
    # all choices of inputs
    confs = [((T, F), i, d, c, T, (x + z) % 2 == 0, (y + z) % 3 > 0, .45,
              None)
             for z, c in enumerate(BITS) for x, i in enumerate(BITS)
             for y, d in enumerate(BITS) if not qk or (x + y) % 4 == 3]
    add("cross", confs, 16 if qk else 32)
    # everything else
    other = []
    for par in P4:
        for tr in (T, F):
            for uc, ue in P4:
                for q in ([.45] if not tr else [0., .27, .45, .83, 1.]):
                    for b in (None, 2) if not qk or q == .27 else (None,):
                        for i, d, c in ([((T, T, F), (T, F, T), (T, T, F))]
                                        if qk else zip(BITS, BITS[3:]
                                                       + BITS[:3], BITS[::-1])):
                            other.append((par, i, d, c, tr, uc, ue, q, b))
    add("cross", other, 16)
    for name in ("vec", "mat", "eig", "nn"):
        confs = [(par, (i,), (d,), (c,), tr, u, u, q, None)
                 for par in ((T, T), (F, T)) for tr in (T, F)
                 for i, d, c in BITS for u in (T, F)
                 for q in ((.45,) if qk else (0., .27, .45, .83, 1.))]
        add(name, confs, 32)
    return out


def cost(case):
    return len(case["confs"])
