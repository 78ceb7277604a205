"""C12 - scalers invert exactly, stay finite and survive persistence."""
import io
import itertools
import os
from pathlib import Path

from . import core, lib
from .core import expect_error
from .lib import jax, jnp, np, pmm

P = pmm.preprocessing
ID = "C12"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all operation histories of the "
             "real scalers over complete sets of feature columns, against a "
             "reference scaler written per leaf in numpy")
RULE = ("a state is (scaler, options, structure, number type, data set of "
        "the latest fit); a transition is one public operation (fit, "
        "fit_transform, transform, inverse, refused use, save/load) compared "
        "with the reference")
BOUNDS = {
    "quick": "5 scalers x every option setting listed (38) x 8 structures x "
             "every feature column of 1..3 samples over {0,1,-2.5} plus "
             "large, tiny, near-constant and rounding columns; all operation "
             "sequences of length <= 3 over {fit A, fit B, fit_transform A, "
             "transform, inverse, reload in turn by 8 routes}; "
             "one-hot: all sequences of 1-4 categories (1-2 for tensors and "
             "trees) out of up to 8 of near and far values",
    "thorough": "as quick with columns of up to 4 samples, float32 and "
                "integer data for every setting, and all sequences of "
                "length <= 4",
}
ASSUMPTIONS = ["double precision: relative tolerance 1e-9 of the data's "
               "magnitude (single: 1e-4)",
               "target ranges have two different ends, quantiles lie in "
               "[0, 1]; one-hot encoding is invertible only for values seen "
               "in fitting (documented)"]

NS = {"quick": (1, 2, 3), "thorough": (1, 2, 3, 4)}
EXTRA = [
    [1e6, 1e6 + 1, 1e6 + 3, 1e6 - 2], [1e-8, -2e-8, 3e-8, 0.],
    [0.1, 0.1, 0.1, 0.1], [0.3, 0.1 + 0.2, 0.3, 0.3],
    [1e-200, 3e-200, 2e-200, 0.], [7., 7., 7., 7.],
    [1e150, -1e150, 0., 2e150], [1e-320, 0., 0., 5e-324],
    [5., 4., 3., 2.]]


def columns(n, kind):
    """every column of n samples over the alphabet, plus special ones"""
    if kind == "int":
        c = list(itertools.product((0, 3, -2), repeat=n))
        return np.array(c, dtype=np.int64).T
    c = [list(p) for p in itertools.product((0., 1., -2.5), repeat=n)]
    if kind == "f32":
        return np.array(c, dtype=np.float32).T
    return np.array(c + [e[:n] for e in EXTRA], dtype=np.float64).T


def build(structure, cols):
    """distribute all columns over a structure"""
    n, k = cols.shape
    j = jnp.asarray
    if structure == "bare":
        return j(cols)
    if structure == "cube":
        k6 = -(-k // 6) * 6
        c = np.concatenate([cols, cols[:, :k6 - k]], axis=1) \
            if k6 <= 2 * k else np.tile(cols, (1, 6))
        return j(c.reshape(n, -1, 3, 2))
    if structure == "single":
        return [j(cols)]
    a, b = cols[:, :k // 2], cols[:, k // 2:2 * (k // 2)]
    if structure == "pair":          # same shapes: easily stacked by mistake
        return [j(a), j(b)]
    if structure == "tuple":
        return (j(cols[:, :1]), j(cols[:, 1:]))
    if structure == "dict":
        return {"b": j(cols[:, :2]), "a": j(cols[:, 1:])}
    if structure == "nested":
        return {"x": [j(a), j(b[:, :, None])],
                "y": (j(cols[:, -1:]), {"z": j(cols)})}
    if structure == "prefix2":
        return {"u": {"p": j(a), "q": j(b)}, "v": j(cols)}
    raise AssertionError(structure)


STRUCTS = ["bare", "cube", "single", "pair", "tuple", "dict", "nested",
           "prefix2"]


# ------------------------------------------------------------------ reference
class Ref:
    """per-leaf reference scaler; options are given per leaf"""

    def __init__(self, kind, opts):
        self.kind, self.opts, self.fitted = kind, opts, None

    def fit(self, x):
        self.fitted = x
        return self

    def coef(self):
        """(shift, spread, offset, gain): y = (x-shift)/spread*gain+offset"""
        x = np.asarray(self.fitted).astype(
            np.float64 if np.asarray(self.fitted).dtype != np.float32
            else np.float32).astype(np.float64)
        const = x.max(0) == x.min(0)
        if self.kind == "std":
            mean = x.mean(0)
            dev = np.sqrt(((x - mean) ** 2).mean(0))
            return mean, np.where(const | (dev == 0), 1., dev), 0., 1.
        if self.kind == "minmax":
            lo, hi = self.opts
            if lo is None or hi is None:
                return 0., 1., 0., 1.
            lo, hi = np.asarray(lo, float), np.asarray(hi, float)
            return (x.min(0), np.where(const, 1., x.max(0) - x.min(0)), lo,
                    hi - lo)
        if self.kind == "robust":
            (lo, hi), cen, sca, eps = self.opts
            med = np.median(x, 0) if cen else 0.
            s = np.ones(x.shape[1:])
            if lo is not None and hi is not None and sca:
                lo = np.broadcast_to(np.asarray(lo, float), x.shape[1:])
                hi = np.broadcast_to(np.asarray(hi, float), x.shape[1:])
                for i in np.ndindex(*x.shape[1:]):
                    c = x[(slice(None),) + i]
                    d = np.quantile(c, hi[i]) - np.quantile(c, lo[i])
                    s[i] = d if abs(d) > eps else 1.
            return med, s, 0., 1.

    def transform(self, x):
        x = np.asarray(x)
        if self.kind is None:
            return x
        if self.kind == "onehot":
            f = np.asarray(self.fitted).reshape(len(self.fitted), -1)
            cats = sorted({tuple(r) for r in f.tolist()})
            return np.array([[float(tuple(r) == c) for c in cats]
                             for r in x.reshape(len(x), -1).tolist()])
        a, s, o, g = self.coef()
        with np.errstate(all="ignore"):
            return (x - a) / s * g + o

    def width(self):
        return len({tuple(r) for r in np.asarray(self.fitted).reshape(
            len(self.fitted), -1).tolist()})


# -------------------------------------------------- option settings (JSON)
MINMAX = [
    ("default", None), ("0..1", (0., 1.)), ("ints", (-1, 1)),
    ("2..5", [2., 5.]), ("reversed", (1., -3.)), ("array", "array"),
    ("features", "features"), ("leaves", "leaves"), ("leafnone", "leafnone"),
    ("nolow", (None, 1.)), ("nohigh", (0., None)), ("none", (None, None)),
    ("mixedlow", "mixedlow")]
ROBUST = [
    ("default", {}), ("full", {"q": (0., 1.)}), ("odd", {"q": (.1, .6)}),
    ("ints", {"q": (0, 1)}), ("list", {"q": [.25, .75]}),
    ("array", {"q": "array"}), ("features", {"q": "features"}),
    ("leaves", {"q": "leaves"}), ("leafnone", {"q": "leafnone"}),
    ("nolow", {"q": (None, .5)}), ("none", {"q": (None, None)}),
    ("nocenter", {"c": False}), ("noscale", {"s": False}),
    ("neither", {"c": False, "s": False}), ("ctree", {"c": "tree"}),
    ("stree", {"s": "tree"}), ("bothtree", {"c": "tree", "s": "eert"}),
    ("eps", {"eps": 2.6}), ("reversed", {"q": (.9, .2)})]
MIXED = ["none"] + [a + b for a in "NSMRO" for b in "NSMRO"]


def per_leaf(X, fn):
    """tree of fn(i, leaf)"""
    ls, td = jax.tree.flatten(X)
    return jax.tree.unflatten(td, [fn(i, x) for i, x in enumerate(ls)])


def feat(x, a, b):
    """per-feature numbers between a and b"""
    sh = x.shape[1:]
    n = int(np.prod(sh))
    return jnp.asarray(np.linspace(a, b, n + 2)[1:-1].reshape(sh))


def span(spec, X, lo, hi):
    """(argument for the scaler, per-leaf pairs)"""
    L = lib.leaves(X)
    if spec is None:
        return None, [(lo, hi)] * len(L)
    if spec == "array":
        return jnp.array([lo, hi]), [(lo, hi)] * len(L)
    if spec == "features":
        A = per_leaf(X, lambda i, x: feat(x, lo, (lo + hi) / 2))
        B = per_leaf(X, lambda i, x: feat(x, (lo + hi) / 2, hi))
    elif spec == "leaves":
        A = per_leaf(X, lambda i, x: lo + .05 * i * (hi - lo))
        B = per_leaf(X, lambda i, x: hi - .03 * i * (hi - lo))
    elif spec == "leafnone":
        A = per_leaf(X, lambda i, x: None if i % 2 == 0 else lo)
        B = per_leaf(X, lambda i, x: hi)
    elif spec == "mixedlow":      # a scalar below, a tree above
        A = lo
        B = per_leaf(X, lambda i, x: feat(x, (lo + hi) / 2, hi))
    else:
        return spec, [tuple(spec)] * len(L)
    td = jax.tree.structure(X)
    fl = [[t] * len(L) if np.isscalar(t) else td.flatten_up_to(t)
          for t in (A, B)]
    return (A, B), list(zip(*fl))


def flags(spec, X):
    L = lib.leaves(X)
    if isinstance(spec, bool):
        return spec, [spec] * len(L)
    v = [(i % 2 == 0) == (spec == "tree") for i in range(len(L))]
    return jax.tree.unflatten(jax.tree.structure(X), v), v


def make(case, X):
    """(real scaler, reference per leaf)"""
    kind, opt = case["scaler"], case["opt"]
    L = lib.leaves(X)
    if kind == "std":
        return P.StandardScaler(), [Ref("std", None) for _ in L]
    if kind == "onehot":
        return P.OneHot(), [Ref("onehot", None) for _ in L]
    if kind == "minmax":
        spec = dict(MINMAX)[opt]
        arg, pairs = span(spec, X, 0., 1.)
        sc = P.MinMaxScaler() if arg is None else P.MinMaxScaler(arg)
        return sc, [Ref("minmax", p) for p in pairs]
    if kind == "robust":
        d = dict(ROBUST)[opt]
        kw = {}
        pairs = [(.25, .75)] * len(L)
        if "q" in d:
            kw["quantile_range"], pairs = span(d["q"], X, 0., 1.)
        cen = sca = [True] * len(L)
        if "c" in d:
            kw["with_centering"], cen = flags(d["c"], X)
        if "s" in d:
            kw["with_scaling"], sca = flags(d["s"], X)
        if "eps" in d:
            kw["eps"] = d["eps"]
        return P.RobustScaler(**kw), [
            Ref("robust", (p, c, s, d.get("eps", 1e-12)))
            for p, c, s in zip(pairs, cen, sca)]
    # mixed
    if opt == "none":
        return P.MixedScaler(), [Ref(None, None) for _ in L]
    one = {"N": lambda: None, "S": P.StandardScaler,
           "M": lambda: P.MinMaxScaler((-1., 2.)),
           "R": lambda: P.RobustScaler((.1, .9)), "O": P.OneHot}
    ref = {"N": lambda: Ref(None, None), "S": lambda: Ref("std", None),
           "M": lambda: Ref("minmax", (-1., 2.)),
           "R": lambda: Ref("robust", ((.1, .9), True, True, 1e-12)),
           "O": lambda: Ref("onehot", None)}
    if case["structure"] == "prefix2":     # one scaler for a whole subtree
        fs = {"u": one[opt[0]](), "v": one[opt[1]]()}
        return P.MixedScaler(fs), [ref[opt[0]](), ref[opt[0]](),
                                   ref[opt[1]]()]
    if case["structure"] == "nested":      # a mixed scaler inside a mixed one
        fs = {"x": [one[opt[0]](), one[opt[1]]()],
              "y": P.MixedScaler((one[opt[1]](), {"z": one[opt[0]]()}))}
        return P.MixedScaler(fs), [ref[c]() for c in
                                   (opt[0], opt[1], opt[1], opt[0])]
    seq = [opt[i % 2] for i in range(len(L))]
    fs = jax.tree.unflatten(jax.tree.structure(X), [one[c]() for c in seq])
    return P.MixedScaler(fs), [ref[c]() for c in seq]


# ----------------------------------------------------------------- the cases
OPS = ["FA", "FB", "GA", "T", "I", "L"]
ROUTES = ["dict", "str", "strnpz", "path", "pathnpz", "io", "zstr", "zio"]


def histories(depth):
    out = []
    for k in range(1, depth + 1):
        out += ["".join(h) for h in itertools.product(OPS, repeat=k)]
    return out


def seqs(depth):
    return [list(h) for k in range(1, depth + 1)
            for h in itertools.product(OPS, repeat=k)]


def fits(kind, opt, s):
    nleaf = {"bare": 1, "cube": 1, "single": 1}.get(s, 2)
    if opt == "leafnone" and s == "single":
        return False        # nothing but None: the annotation refuses it
    if kind == "mixed":
        return opt == "none" or nleaf == 2 or opt[0] == opt[1]
    return True


def cases(tier):
    kinds = [("std", ["default"]), ("onehot", ["default"]),
             ("minmax", [m[0] for m in MINMAX]),
             ("robust", [r[0] for r in ROBUST]), ("mixed", MIXED)]
    out = []
    for kind, opts in kinds:
        for opt in opts:
            for s in STRUCTS:
                if not fits(kind, opt, s):
                    continue
                if tier == "quick" and kind == "mixed" and s not in (
                        "bare", "pair", "nested", "prefix2"):
                    continue
                for dt in ("f64", "f32", "int"):
                    if dt != "f64" and (tier == "quick" and (
                            s != "bare" or kind == "mixed")):
                        continue
                    if dt == "int" and kind in ("onehot", "mixed"):
                        continue
                    out.append({"k": "values", "scaler": kind, "opt": opt,
                                "structure": s, "dtype": dt,
                                "ns": list(NS[tier])})
    for kind, opts in kinds:
        some = {"std": ["default"], "onehot": ["default"],
                "minmax": ["default", "features", "leafnone", "leaves"],
                "robust": ["default", "features", "bothtree", "leafnone"],
                "mixed": ["none", "SM", "RO", "NO", "MN"]}[kind]
        for opt in some if tier == "quick" else opts:
            for s in (("bare", "pair", "nested") if tier == "quick"
                      else STRUCTS):
                if fits(kind, opt, s):
                    out.append({"k": "history", "scaler": kind, "opt": opt,
                                "structure": s, "dtype": "f64",
                                "depth": 3 if tier == "quick" else 4})
    for rows in ("one", "vec", "mat", "pair"):
        for n in (1, 2, 3, 4):
            if n < 3 or rows == "one" or tier != "quick":
                out.append({"k": "onehot", "n": n, "rows": rows,
                            "structure": rows, "dtype": "f64",
                            "scaler": "onehot"})
    return out


# categories: far apart, close together, tiny, of either sign
CATS = [0., 1., -2.5, 1. + 1e-9, 1e5, 1e5 + 1e-3, 1e-12, -1.]


def run_onehot(case, ctx):
    """all sequences of categories, encoded together with every known and
    unknown category"""
    n, kind = case["n"], case["rows"]
    alpha = CATS if n < 4 else CATS[:2] + CATS[3:5]
    probe = CATS + [7.]

    def rows(seq):
        a = np.asarray(seq)[:, None]
        if kind == "vec":       # rows that share some of their features
            a = np.concatenate([a, np.ones_like(a), -a], axis=1)
        elif kind == "mat":
            a = np.stack([np.concatenate([a, a * 0], axis=1),
                          np.concatenate([a * 0 + 3, a], axis=1)], axis=2)
        return a
    for seq in itertools.product(alpha, repeat=n):
        if kind == "pair":
            fit = [rows(seq), rows(seq[::-1][:1] * n)]
            new = [rows(probe), rows(probe[::-1])]
        else:
            fit, new = rows(seq), rows(probe)
        j = lambda t: jax.tree.map(jnp.asarray, t)             # noqa
        refs = [Ref("onehot", None).fit(x) for x in lib.leaves(fit)]
        sc = P.OneHot()
        sc.fit(j(fit))
        ctx.state(kind, seq)
        for k, X in enumerate((fit, new)):
            what = f"onehot {kind} fitted on {seq}, " + ("same", "all")[k]
            got = tr_check(ctx, sc, refs, j(X), what, 1e-12)
            inv_check(ctx, sc, refs, got, j(X), what + " inverse", 1e-12)
        if seq[0] == alpha[0]:
            s2 = P.OneHot.deserialize(sc.serialize())
            tr_check(ctx, s2, refs, j(new), what + " reloaded", 1e-12)
    ctx.trace()


def cost(case):
    return 6 if case["k"] == "history" else 1


def affinity(case):
    """same shapes, same compiled computations"""
    if case["k"] == "history":
        return case["k"], case["structure"], case["scaler"]
    return (case["k"], case["structure"], case["dtype"],
            case["scaler"] == "mixed")


# ------------------------------------------------------------------- judging
def compare(ctx, got, want, X, what, tol, mag):
    """got: real tree, want: per-leaf list; mag: per-leaf magnitude of the
    original data per column"""
    gl = lib.leaves(got)
    ctx.check(len(gl) == len(want), f"{what}: number of arrays",
              f"{len(gl)} != {len(want)}")
    for i, (g, w) in enumerate(zip(gl, want)):
        g = np.asarray(g)
        ctx.check(g.shape == w.shape, f"{what}: shape",
                  f"array {i}: {g.shape} != {w.shape}")
        ctx.check(np.isfinite(g).all(), f"{what}: not finite",
                  lambda: f"array {i}: {bad_col(g, w)}")
        m = mag[i] if mag is not None else 0.
        lim = tol * (np.abs(w) + m) + 1e-300
        ok = np.abs(g.astype(float) - w) <= lim
        ctx.check(ok.all(), what,
                  lambda: f"array {i}: got {g[~ok].ravel()[:5]}, want "
                          f"{w[~ok].ravel()[:5]}")


def bad_col(g, w):
    i = np.argwhere(~np.isfinite(g))[0]
    return f"at {tuple(i)}: {g[tuple(i)]}, want {w[tuple(i)]}"


def mags(refs, tol):
    """how much rounding the transformed values may carry, per column: the
    data's magnitude relative to the spread"""
    out = []
    for r in refs:
        if r.kind in (None, "onehot"):
            out.append(0.)
            continue
        a, s, o, g = r.coef()
        x = np.abs(np.asarray(r.fitted).astype(float)).max(0)
        eps = 1.2e-7 if np.asarray(r.fitted).dtype == np.float32 else 2.3e-16
        # rounding of x-a relative to s, scaled so that tol*out bounds it
        with np.errstate(all="ignore"):
            amp = 32 * eps / tol * (x + 1e-300) / np.abs(s)
        out.append((amp + 1) * np.abs(g) + np.abs(np.asarray(o, float)))
    return out


def skip_cols(refs):
    """columns whose spread is itself rounding noise are judged only on
    finiteness and inversion"""
    out = []
    for r in refs:
        if r.kind in (None, "onehot"):
            out.append(None)
            continue
        a, s, o, g = r.coef()
        x = np.asarray(r.fitted).astype(float)
        ref = np.abs(x).max(0)
        eps = 1.2e-7 if np.asarray(r.fitted).dtype == np.float32 else 2.3e-16
        dev = x.max(0) - x.min(0)
        noisy = ((dev != 0) & (dev < 64 * eps * ref)) | (
            (dev != 0) & (dev < 1e-150))
        out.append(np.broadcast_to(noisy, x.shape[1:]))
    return out


def tr_check(ctx, sc, refs, X, what, tol):
    got = sc.transform(X)
    ctx.step()
    want = [r.transform(x) for r, x in zip(refs, lib.leaves(X))]
    sk = skip_cols(refs)
    gl = lib.leaves(got)
    ctx.check(len(gl) == len(want), f"{what}: number of arrays", "")
    masked_g, masked_w = [], []
    for g, w, k in zip(gl, want, sk):
        g = np.asarray(g)
        ctx.check(g.shape == w.shape, f"{what}: shape",
                  f"{g.shape} != {w.shape}")
        ctx.check(np.isfinite(g).all(), f"{what}: not finite",
                  lambda: bad_col(g, w))
        if k is not None and k.any():
            g = np.where(k, 0., g)
            w = np.where(k, 0., w)
        masked_g.append(g)
        masked_w.append(w)
    compare(ctx, masked_g, masked_w, X, what, tol, mags(refs, tol))
    ctx.check(jax.tree.structure(got) == jax.tree.structure(X),
              f"{what}: structure", f"{jax.tree.structure(got)}")
    return got


def inv_check(ctx, sc, refs, got, X, what, tol):
    """inverse of what was produced gives the data back"""
    back = sc.inverse_transform(got)
    ctx.step()
    want, mag = [], []
    for r, x in zip(refs, lib.leaves(X)):
        x = np.asarray(x).astype(float)
        if r.kind == "onehot":
            known = np.asarray(r.transform(x)).sum(1) > 0
            x = np.where(known.reshape((-1,) + (1,) * (x.ndim - 1)), x, 0.)
            mag.append(0.)
        elif r.kind is None:
            mag.append(0.)
        else:
            a, s, o, g = r.coef()
            f = np.abs(np.asarray(r.fitted).astype(float)).max(0)
            # an offset target range costs rounding of size offset/gain
            ratio = 1 + np.abs(np.asarray(o, float)) / np.abs(
                np.asarray(g, float))
            m = (f + np.abs(x).max(0)) * ratio
            sp = np.broadcast_to(s, x.shape[1:])
            # rounding of a (x-a)/s that had to be denormal
            mag.append(m + np.where(np.abs(sp) < 1e-290, 1e-290, 0.))
        want.append(x)
    compare(ctx, back, want, X, what, tol, mag)
    ctx.check(jax.tree.structure(back) == jax.tree.structure(X),
              f"{what}: structure", f"{jax.tree.structure(back)}")


def snapshot(X):
    return jax.tree.structure(X), [np.array(x) for x in lib.leaves(X)]


def intact(ctx, X, snap, what):
    td, ls = snap
    ctx.check(jax.tree.structure(X) == td and all(
        np.array_equal(np.asarray(a), b, equal_nan=True)
        for a, b in zip(lib.leaves(X), ls)), "argument modified", what)


def reload(sc, route, d):
    cls = type(sc)
    if route == "dict":
        return cls.deserialize(sc.serialize())
    if route in ("io", "zio"):
        b = io.BytesIO()
        (sc.save if route == "io" else sc.save_compressed)(b)
        b.seek(0)
        return cls.load(b)
    p = os.path.join(d, "s" + route)
    if route in ("strnpz", "pathnpz"):
        p += ".npz"
    if route.startswith("path"):
        p = Path(p)
    (sc.save_compressed if route == "zstr" else sc.save)(p)
    return (cls.from_file if route == "strnpz" else cls.load)(p)


def tolerance(case):
    return 1e-4 if case["dtype"] == "f32" else 1e-9


# ------------------------------------------------------------------- running
def run_values(case, ctx):
    tol = tolerance(case)
    for n in case["ns"]:
        X = build(case["structure"], columns(n, case["dtype"]))
        sc, refs = make(case, X)
        snap = snapshot(X)
        r = sc.fit(X)
        ctx.step()
        ctx.check(isinstance(r, type(sc)), "fit returns the scaler", r)
        for ref, x in zip(refs, lib.leaves(X)):
            ref.fit(x)
        ctx.state(*[case[k] for k in ("scaler", "opt", "structure",
                                      "dtype")], n)
        got = tr_check(ctx, sc, refs, X, "transform", tol)
        inv_check(ctx, sc, refs, got, X, "inverse of transform", tol)
        got2 = make(case, X)[0].fit_transform(X)
        ctx.step()
        ctx.check(lib.same(got2, got) is None, "fit_transform",
                  lambda: lib.same(got2, got))
        # data not seen in fitting, other number of samples
        for m in case["ns"]:
            c = columns(m, case["dtype"])
            need = columns(n, case["dtype"]).shape[1]
            c = np.tile(c, (1, -(-need // c.shape[1])))[:, :need][:, ::-1]
            if case["dtype"] == "f64":
                c = np.where(np.abs(c) > 1e100, 4.5, c)
            Z = build(case["structure"], c)
            tiny_safe = unseen_ok(refs, Z)
            if tiny_safe:
                got = tr_check(ctx, sc, refs, Z, "transform of unseen data",
                               tol)
                inv_check(ctx, sc, refs, got, Z,
                          "inverse of unseen data", tol)
        intact(ctx, X, snap, "fit/transform/inverse")
        # the documented statistics, stated directly
        stats(ctx, sc, refs, X, case, tol)
        with lib.scratch() as d:
            for route in (ROUTES if n == case["ns"][-1] else ["io"]):
                new = reload(sc, route, d)
                ctx.step()
                a, b = sc.transform(X), new.transform(X)
                ctx.check(jax.tree.structure(a) == jax.tree.structure(b)
                          and lib.exact(a, b) is None,
                          "reloaded scaler transforms differently",
                          lambda: f"{route}: {lib.exact(a, b)}")
                a2, b2 = sc.inverse_transform(a), new.inverse_transform(a)
                ctx.check(lib.exact(a2, b2) is None,
                          "reloaded scaler inverts differently",
                          lambda: f"{route}: {lib.exact(a2, b2)}")
                # and it can be fitted again like the original
                other = build(case["structure"],
                              columns(n, case["dtype"])[::-1] * 2)
                if route in ("dict", "io"):
                    new.fit(other)
                    refs2 = [Ref(q.kind, q.opts).fit(x) for q, x in
                             zip(refs, lib.leaves(other))]
                    tr_check(ctx, new, refs2, other,
                             f"refit after {route}", tol)
                    t = sc.transform(X)
                    ctx.check(lib.exact(a, t) is None,
                              "reloaded scaler shares state", route)
        ctx.trace()


def unseen_ok(refs, Z):
    """the scaled value must be representable at all"""
    for r, z in zip(refs, lib.leaves(Z)):
        if r.kind in (None, "onehot"):
            continue
        a, s, o, g = r.coef()
        with np.errstate(all="ignore"):
            v = (np.asarray(z).astype(float) - a) / s
        if not np.isfinite(v).all() or np.abs(v).max() > 1e30:
            return False
        # subtracting a much larger shift loses the value
        if (np.abs(np.asarray(a)) > 1e100).any():
            return False
    return True


def stats(ctx, sc, refs, X, case, tol):
    """the promises in the documentation, in their own words"""
    got = lib.leaves(sc.transform(X))
    for r, x, g in zip(refs, lib.leaves(X), got):
        x = np.asarray(x).astype(float)
        g = np.asarray(g).astype(float)
        const = x.max(0) == x.min(0)
        noisy = skip_cols([r])[0]
        use = ~const if noisy is None else ~const & ~noisy
        t = 1e-3 if case["dtype"] == "f32" else 1e-6
        if r.kind == "std":
            ctx.check((np.abs(g.mean(0))[use] < t).all()
                      and (np.abs(g.std(0) - 1)[use] < t).all(),
                      "zero mean and unit variance",
                      lambda: f"{g.mean(0)} {g.std(0)}")
            ctx.check((np.abs(g)[:, const] < t).all(),
                      "constant feature is centred", "")
        if r.kind == "minmax" and None not in r.opts:
            lo, hi = (np.broadcast_to(np.asarray(v, float), x.shape[1:])
                      for v in r.opts)
            a = g[np.argmin(x, 0), *np.indices(x.shape[1:])]
            b = g[np.argmax(x, 0), *np.indices(x.shape[1:])]
            ctx.check((np.abs(a - lo)[use] < t).all()
                      and (np.abs(b - hi)[use] < t).all(),
                      "ends of the target range", lambda: f"{a} {b}")
        if r.kind == "onehot":
            ctx.check((g.sum(1) == 1).all() and set(
                np.unique(g)) <= {0., 1.}, "one-hot rows", "")
        if r.kind == "robust" and r.opts[1]:
            ctx.check((np.abs(np.median(g, 0))[use] < t).all(),
                      "centred on the median", lambda: np.median(g, 0))


def run_history(case, ctx):
    tol = tolerance(case)
    A = build(case["structure"], columns(2, "f64")[:, :6])
    B = build(case["structure"], columns(3, "f64")[:, 3:9] * 1.5 + 1)
    data = {"A": A, "B": B}
    snaps = {k: snapshot(v) for k, v in data.items()}
    route = itertools.cycle(ROUTES)
    with lib.scratch() as d:
        for seq in seqs(case["depth"]):
            sc, refs = make(case, A)
            last = None
            for op in seq:
                ctx.step()
                if op in ("FA", "FB", "GA"):
                    last = op[1]
                    X = data[last]
                    (sc.fit if op[0] == "F" else sc.fit_transform)(X)
                    refs = [Ref(r.kind, r.opts).fit(x)
                            for r, x in zip(refs, lib.leaves(X))]
                elif op == "L":
                    sc = reload(sc, next(route), d)
                elif last is None and all(r.kind is None for r in refs):
                    got = sc.transform(A) if op == "T" else \
                        sc.inverse_transform(A)
                    ctx.check(lib.exact(got, A) is None, "no scaling", "")
                elif last is None:
                    expect_error(ctx, lambda: (
                        sc.transform if op == "T" else
                        sc.inverse_transform)(A), "use before fitting",
                        f"{case} {seq}")
                elif op == "T":
                    for X in (A, B):
                        tr_check(ctx, sc, refs, X, "transform in history",
                                 tol)
                else:
                    got = sc.transform(data[last])
                    inv_check(ctx, sc, refs, got, data[last],
                              "inverse in history", tol)
            # whatever happened, the latest fit decides
            if last is not None:
                got = tr_check(ctx, sc, refs, data[last],
                               f"after {seq}", tol)
                inv_check(ctx, sc, refs, got, data[last],
                          f"inverse after {seq}", tol)
            ctx.state(*[case[k] for k in ("scaler", "opt", "structure")],
                      "history", last)
            ctx.trace()
    for k in data:
        intact(ctx, data[k], snaps[k], "history")


def run(case, ctx):
    {"values": run_values, "history": run_history, "onehot": run_onehot}[
        case["k"]](case, ctx)
