"""C02 - declared output shapes are the shapes actually produced.

Every module option x every input structure of a finite family is compiled in
a real model and compared with an independent shape oracle; every (compiled
shape, offered shape) pair is tried for rejection; every admissible pair of
modules is composed.
"""
import itertools
import math

from . import lib
from .lib import M, is_shape, jax, jnp, np, pmm
from .toys import Lin

ID = "C02"
LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of the finite product of module options, "
             "input structures and compositions, executed on the real code "
             "against an independent shape oracle")
RULE = ("a state is one (module or model, input structure); each is compiled "
        "and run for every batch size; transitions are declared-shape, "
        "compile and evaluate steps")
BOUNDS = {
    "quick": "about 110 module options x 22 input structures + 90 element-wise "
             "classes x 5 structures x batch sizes 1..3; all module pairs over 4 "
             "structures; all (compiled, offered) structure pairs x call, "
             "Jacobians",
    "thorough": "all module pairs and triples over 9 structures",
}
ASSUMPTIONS = ["dimensions 1..4, trees of depth <=3"]

SHAPES = [
    (1,), (2,), (3,), (2, 2), (3, 3), (2, 3), (3, 2), (1, 1), (2, 1, 2),
    [(2,)], {"a": (3,)}, {"k": [(2, 2)]}, [(2,), (3,)], ((2,), (2,)),
    {"a": (3, 3), "b": (2, 2)}, {"b": (2, 2), "a": (2, 2)},
    [(2, 2), {"x": (3, 3), "w": (2, 2)}], {"a": [(2,), (2, 3)], "b": (1,)},
    [(2, 3), (3, 2)], [(2, 3), (3,)], {"y": (2, 3), "x": (3, 4)},
    ((2, 3), [(3, 2), (2, 1)]),
]
BASE = [(2,), (3, 3), (2, 3), {"a": (3,)}, [(2,), (2,)],
        {"b": (2, 2), "a": (2, 2)}, [(2, 3), (3, 2)], ((2, 2), [(2, 1)]),
        {"a": [(2,), (2, 3)], "b": (1,)}]
QBASE = [(3, 3), {"b": (2, 2), "a": (2, 2)}, [(2, 3), (3, 2)],
         {"a": [(2,), (2, 3)], "b": (1,)}]

ASHAPES = [(3,), (2, 1, 2), {"k": [(2, 2)]}, [(2,), (3,)],
           [(2, 2), {"x": (3, 3), "w": (2, 2)}]]

isl = is_shape


def tmap(f, s):
    return jax.tree.map(f, s, is_leaf=isl)


def lv(s):
    return jax.tree.leaves(s, is_leaf=isl)


def single(s, ndim=None):
    ls = lv(s)
    return len(ls) == 1 and (ndim is None or len(ls[0]) == ndim)


def prod(s):
    return int(math.prod(s))


def get(s, path):
    for k in path.split("."):
        s = s[int(k)] if isinstance(s, (list, tuple)) and not isl(s) \
            else s[k]
    return s


def o_same(s):
    return s


def o_single1(out):
    return lambda s: tmap(lambda _: out, s) if single(s, 1) else None


def o_sq(f, k):
    def o(s):
        if all(len(x) == 2 and x[0] == x[1] and (k is None or x[0] >= k)
               for x in lv(s)):
            return f(s)
        return None
    return o


def o_reshape(t):
    def one(a, b):
        if b is None:
            return a
        if -1 in b:
            known = prod([x for x in b if x != -1])
            if known == 0 or prod(a) % known:
                raise ValueError
            return tuple(prod(a) // known if x == -1 else x for x in b)
        if prod(a) != prod(b):
            raise ValueError
        return b

    def o(s):
        if isl(s) != isl(t):
            return None
        try:
            if isl(s):
                return one(s, t)
            if isinstance(s, dict) != isinstance(t, dict) or \
                    type(s) is not type(t):
                return None
            if isinstance(s, dict):
                if s.keys() != t.keys():
                    return None
                r = {k: o_reshape(t[k])(s[k]) if t[k] is not None else s[k]
                     for k in s}
                return None if any(v is None for v in r.values()) else r
            if len(s) != len(t):
                return None
            if any(b is None and not isl(a) for a, b in zip(s, t)):
                return None
            r = [o_reshape(b)(a) if b is not None else a
                 for a, b in zip(s, t)]
            return None if any(v is None for v in r) else type(s)(r)
        except ValueError:
            return None
    return o


def o_concat(axis, paths=None):
    def o(s):
        if isl(s):
            ls = [s]
            if paths:
                return None
        try:
            ls = [get(s, p) for p in paths] if paths else lv(s)
        except (KeyError, IndexError, ValueError, TypeError):
            return None
        if not all(isl(x) for x in ls):
            return None
        if axis is None:
            return (sum(prod(x) for x in ls),)
        nd = len(ls[0])
        if any(len(x) != nd for x in ls) or not -nd <= axis < nd:
            return None
        a = axis % nd
        for x in ls:
            if x[:a] + x[a + 1:] != ls[0][:a] + ls[0][a + 1:]:
                return None
        return ls[0][:a] + (sum(x[a] for x in ls),) + ls[0][a + 1:]
    return o


def o_treekey(kp):
    def one(s, p):
        return get(s, p)

    def o(s):
        try:
            r = jax.tree.map(lambda p: one(s, p), kp)
        except (KeyError, IndexError, ValueError, TypeError):
            return None
        return r
    return o


def o_matmul_train(n):
    """Trainable first operand (n, d): chain times all leaves."""
    def o(s):
        ls = lv(s)
        if any(len(x) not in (1, 2) for x in ls):
            return None
        if sum(len(x) == 1 for x in ls) > 1:
            return None
        if any(len(x) == 1 for x in ls[:-1]):
            return None
        for a, b in zip(ls, ls[1:]):
            if a[1] != b[0]:
                return None
        return (n,) if len(ls[-1]) == 1 else (n, ls[-1][1])
    return o


def o_matmul_none(s):
    ls = lv(s)
    if any(len(x) not in (1, 2) for x in ls) or any(len(x) == 1
                                                    for x in ls[:-1]):
        return None
    if len(ls[0]) == 1:
        return None
    for a, b in zip(ls, ls[1:]):
        if a[1] != b[0]:
            return None
    return (ls[0][0],) + ((ls[-1][1],) if len(ls[-1]) == 2 else ())


def o_einsum(terms, out, dims=None):
    """Input terms (flattened leaf order) and output indices."""
    def o(s):
        ls = lv(s)
        if len(ls) != len(terms):
            return None
        d = dict(dims or {})
        for t, x in zip(terms, ls):
            if len(t) != len(x):
                return None
            for c, n in zip(t, x):
                if d.setdefault(c, n) != n:
                    return None
        return tuple(d[c] for c in out)
    return o


def bias_given(b):
    def o(s):
        bs = tuple(b.shape)
        if bs == (1,) and False:
            return s
        return s if all(x == bs for x in lv(s)) or bs == (1,) else None
    return o


A = np.ones
SPECS = {}


def spec(name, mk, oracle, skip=None):
    SPECS[name] = (mk, oracle, skip)


for n, b, sm in itertools.product((1, 2, 3), (True, False), (None, 0.5)):
    spec(f"AHM{n}{b}{sm}",
         lambda n=n, b=b, sm=sm: M.AffineHermitianMatrix(n, sm, bias_term=b),
         o_single1((n, n)))
for n, r, b in ((1, 1, True), (3, 1, True), (3, 2, False), (2, 2, True)):
    spec(f"LR{n}{r}{b}",
         lambda n=n, r=r, b=b: M.LowRankAffineHermitianMatrix(
             n, r, bias_term=b), o_single1((n, n)))
for t, b, r in (((2,), True, True), ((2, 3), True, False),
                ((1, 2, 2), False, True), ((3, 2), False, False)):
    spec(f"AT{t}{b}{r}",
         lambda t=t, b=b, r=r: M.AffineTensor(t, bias_term=b, real=r),
         o_single1(t))
for n, k, w in ((2, 1, "SA"), (3, 2, "LM"), (3, 3, "EA"), (2, 2, "IM")):
    spec(f"AE{n}{k}{w}",
         lambda n=n, k=k, w=w: M.AffineEigenvaluePMM(n, k, w),
         o_single1((k,)))
spec("AEtoomany", lambda: M.AffineEigenvaluePMM(2, 3), lambda s: None)
for n, k, q, e, b, c in ((2, 1, 1, True, True, True), (3, 2, 2, False, False,
                         False), (2, 2, 3, False, True, True),
                         (3, 3, 1, True, False, False)):
    spec(f"AO{n}{k}{q}{e}",
         lambda n=n, k=k, q=q, e=e, b=b, c=c: M.AffineObservablePMM(
             n, k, num_secondaries=2, output_size=q, bias_term=b, centered=c,
             use_expectation_values=e), o_single1((q,)))
for sc, re in itertools.product((True, False), (True, False)):
    spec(f"Bias{sc}{re}", lambda sc=sc, re=re: M.Bias(scalar=sc, real=re),
         o_same)
for sh in ((2,), (2, 2)):
    spec(f"Bias{sh}", lambda sh=sh: M.Bias(jnp.ones(sh)), bias_given(A(sh)))
spec("Biastree", lambda: M.Bias({"a": jnp.ones((3, 3)), "b": jnp.ones(
    (2, 2))}), lambda s: s if s == {"a": (3, 3), "b": (2, 2)} else None)
for si, re in itertools.product((True, False), (True, False)):
    spec(f"PReLU{si}{re}",
         lambda si=si, re=re: M.PReLU(single_parameter=si, real=re), o_same)
spec("Comment", lambda: M.Comment("c"), o_same)
spec("Lin", lambda: Lin(2.0, 1.0), o_same)
spec("Flatten", lambda: M.Flatten(), lambda s: tmap(lambda x: (prod(x),), s))
for i, t in enumerate([(2, 2), (-1,), (1, -1), (4,), [(1, 2)],
                       {"a": (9,), "b": None}, [(2, 1), (-1, 1)],
                       [None, {"x": (-1,), "w": (4,)}], ((-1, 1), None),
                       {"a": [None, (3, -1)], "b": (1, 1)}]):
    spec(f"Reshape{i}", lambda t=t: M.Reshape(t), o_reshape(t))
spec("ReshapeNone", lambda: M.Reshape(None), o_same)
spec("Const1", lambda: M.Constant(jnp.ones((2, 3))), lambda s: (2, 3))
spec("Const2", lambda: M.Constant({"p": jnp.ones((2,)),
                                   "q": [jnp.ones((1, 2))]}),
     lambda s: {"p": (2,), "q": [(1, 2)]})
spec("Const3", lambda: M.Constant(trainable=True, shape=(3,)),
     lambda s: (3,))
spec("Const4", lambda: M.Constant(trainable=True, shape=[(3,), (2, 2)],
                                  real=[True, False]),
     lambda s: [(3,), (2, 2)])
for ax in (None, 0, 1, -1, -2):
    spec(f"Cat{ax}", lambda ax=ax: M.ConcatenateLeaves(ax), o_concat(ax))
spec("CatP", lambda: M.ConcatenateLeaves(None, ["b", "a"]),
     o_concat(None, ["b", "a"]))
spec("CatP1", lambda: M.ConcatenateLeaves(0, ["1", "0"]),
     o_concat(0, ["1", "0"]))
for k, w in itertools.product((1, 2, None), ("SA", "IM")):
    spec(f"Eval{k}{w}", lambda k=k, w=w: M.Eigenvalues(k, w), o_sq(
        lambda s, k=k: tmap(lambda x: (k or x[0],), s), k))
    spec(f"Evec{k}{w}", lambda k=k, w=w: M.Eigenvectors(k, w), o_sq(
        lambda s, k=k: tmap(lambda x: (x[0], k or x[0]), s), k))
    spec(f"Esys{k}{w}", lambda k=k, w=w: M.Eigensystem(k, w), o_sq(
        lambda s, k=k: {"eigenvalues": tmap(lambda x: (k or x[0],), s),
                        "eigenvectors": tmap(lambda x: (x[0], k or x[0]), s)},
        k))
for q, no, c in ((1, 1, True), (2, 3, False)):
    spec(f"EVS{q}", lambda q=q, no=no, c=c: M.ExpectationValueSum(
        no, q, centered=c),
        lambda s, q=q: tmap(lambda _: (q,), s) if single(s, 2) else None)
    spec(f"TAS{q}", lambda q=q, no=no, c=c: M.TransitionAmplitudeSum(
        no, q, centered=c),
        lambda s, q=q: tmap(lambda _: (q,), s) if single(s, 2) else None)
for o_, b, a in ((1, True, False), (3, False, True), (2, True, True)):
    spec(f"NN{o_}", lambda o_=o_, b=b, a=a: M.LinearNN(
        o_, bias=b, activation=M.Tanh() if a else None),
        lambda s, o_=o_: (o_,) if single(s) else None)
spec("TreeFlatten", lambda: M.TreeFlatten(), lambda s: lv(s))
for i, kp in enumerate(["a", ["b", "a"], {"p": "1", "q": "0"}, ("a.0", "b"),
                        "1.x", ["a", "a"]]):
    spec(f"Key{i}", lambda kp=kp: M.TreeKey(kp), o_treekey(kp))
spec("MatMulT", lambda: M.MatMul(output_shape=4, trainable=True),
     o_matmul_train(4))
spec("MatMulT2", lambda: M.MatMul(output_shape=(2, None), trainable=True),
     lambda s: o_matmul_train(2)(s) if o_matmul_train(2)(s) is not None and
     len(o_matmul_train(2)(s)) == 2 else None)
spec("MatMul0", lambda: M.MatMul(), o_matmul_none)
spec("MatMulF", lambda: M.MatMul(jnp.ones((4, 2))),
     lambda s: o_matmul_train(4)(s) if lv(s)[0][0] == 2 else None)
for es, terms, out in (("ij->ji", ["ij"], "ji"), ("ij->i", ["ij"], "i"),
                       ("ij,jk->ik", ["ij", "jk"], "ik"),
                       ("ij,jk->kij", ["ij", "jk"], "kij"),
                       ("ii->i", ["ii"], "i"), ("i,i->i", ["i", "i"], "i"),
                       ("ij,jk", ["ij", "jk"], "ik")):
    spec("Ein" + es, lambda es=es: M.Einsum(es), o_einsum(terms, out))
spec("EinT", lambda: M.Einsum("zi,ij->zj", dim_map={"z": 4}, trainable=True),
     o_einsum(["ij"], "zj", {"z": 4}))
spec("EinT2", lambda: M.Einsum("zi,jz,ij->z", dim_map={"z": 4},
                               trainable=True),
     o_einsum(["ij"], "z", {"z": 4}))
spec("EinF", lambda: M.Einsum("ab,bc->ac", jnp.ones((4, 2))),
     o_einsum(["bc"], "ac", {"a": 4, "b": 2}))
spec("EinTree", lambda: M.Einsum(({"y": "ij", "x": "jk"}, "ki")),
     lambda s: (4, 2) if s == {"y": (2, 3), "x": (3, 4)} else None)

# element-wise classes: shape must be preserved; those needing arguments
ACT_ARGS = {"Clip": dict(min=-1.0, max=1.0), "Softmax": {}, "LogSoftmax": {},
            "Standardize": {}, "Round": {},
            "Power": None, "Pow": None, "FloatPower": None, "ArcTan2": None,
            "FloorDivide": None, "LDExp": None, "NextAfter": None,
            "Piecewise": None, "Invert": None, "Packbits": None,
            "Unpackbits": None, "OneHot": None, "I0": {}, "FrExp": None,
            # reductions: not element-wise, judged separately
            "GLU": None, "AMax": None, "AMin": None, "LogSumExp": None}
SHAPE_CHANGING = {"GLU": ((), {}, lambda x: x[:-1] + (x[-1] // 2,)
                          if x[-1] % 2 == 0 else None),
                  "AMax": ((), {"axis": -1}, lambda x: x[:-1]),
                  "AMin": ((), {"axis": -1}, lambda x: x[:-1]),
                  "LogSumExp": ((), {"axis": -1}, lambda x: x[:-1]),
                  "OneHot": ((2,), {}, lambda x: x + (2,))}
BINARY = ["Power", "Pow", "FloatPower", "ArcTan2", "FloorDivide"]


def act_names():
    from parametricmatrixmodels.modules import ActivationBase
    return sorted(n for n in dir(M) if isinstance(getattr(M, n), type)
                  and issubclass(getattr(M, n), ActivationBase)
                  and getattr(M, n) is not ActivationBase
                  and n not in SHAPE_CHANGING)


def data(s, b):
    """Hermitian where square, so eigen-modules are well defined."""
    k = [0]

    def one(x):
        k[0] += 1
        v = np.asarray(lib.grid((b,) + x, 0.3 + 0.41 * k[0])) * 0.3
        if len(x) == 2 and x[0] == x[1]:
            v = v + np.swapaxes(v, 1, 2)
        return jnp.asarray(v)
    return tmap(one, s)


def key_skip(name, s):
    """Combinations the documentation leaves open."""
    # Einsum given as a bare string against a structure with the same number
    # of leaves is fine; scalar results are not valid model outputs
    return False


def one(ctx, name, mk, oracle, s, batches=None):
    if batches is None:
        batches = (1, 3) if isl(s) else (2,)
    want = oracle(s)
    ctx.state(name, str(s))
    if want is None or any(x == () for x in lv(want)):
        # outside the documented inputs: an error, or else whatever is
        # produced must be what was declared
        m = pmm.SequentialModel([mk()])
        ctx.step()
        try:
            m.compile(lib.key(0), s)
            d = m.get_output_shape(s)
            r = m(data(s, 2))
        except Exception:
            ctx.outcome("rejected")
            return None
        if lib.shapes(r) != d:
            ctx.fail("produced shape differs from the declared one",
                     f"{name} on {s}: produced {lib.shapes(r, 0)}, "
                     f"declared {d}")
        ctx.outcome("accepted outside the documented inputs")
        return None
    mod = mk()
    m = pmm.SequentialModel([mod])
    ctx.step(2)
    try:
        m.compile(lib.key(0), s)
    except Exception as e:
        ctx.fail("admissible input rejected", f"{name} on {s}: {e}")
    for what, d in (("module", mod.get_output_shape(s)),
                    ("model", m.get_output_shape(s)),
                    ("fresh module", None), ("attribute", m.output_shape)):
        if what == "fresh module":
            try:
                d = mk().get_output_shape(s)
            except Exception as e:
                if name.startswith(("NN", "AE", "AO")):
                    continue
                ctx.fail("no declared shape before compiling",
                         f"{name} on {s}: {e}")
        if jax.tree.structure(d, is_leaf=isl) != \
                jax.tree.structure(want, is_leaf=isl) or \
                [tuple(x) for x in lv(d)] != lv(want):
            ctx.fail("declared shape is wrong",
                     f"{what} {name} on {s} declares {d}, expected {want}")
    for b in batches:
        out = m(data(s, b), dtype=np.float64)
        ctx.step()
        got = lib.shapes(out)
        if jax.tree.structure(got, is_leaf=isl) != \
                jax.tree.structure(want, is_leaf=isl) or lv(got) != lv(want):
            ctx.fail("produced shape differs from the declared one",
                     f"{name} on {s}: produced {got}, declared {want}")
        if any(x.shape[0] != b for x in jax.tree.leaves(out)):
            ctx.fail("batch dimension not preserved",
                     f"{name} on {s} batch {b}: {lib.shapes(out, 0)}")
    ctx.trace()
    ctx.outcome("ok")
    return want


def asked(ctx, name, mk, oracle):
    """Asking for the output of other shapes leaves a compiled module as it
    is."""
    adm = [s for s in SHAPES if oracle(s) is not None
           and not any(x == () for x in lv(oracle(s)))]
    for s in adm[:1] + adm[-1:] if len(adm) > 1 else adm:
        mod = mk()
        m = pmm.SequentialModel([mod])
        m.compile(lib.key(0), s)
        X = data(s, 2)
        y = lib.host(m(X, dtype=np.float64))
        for order in (SHAPES, SHAPES[::-1]):
            for s2 in order:
                ctx.step()
                try:
                    mod.get_output_shape(s2)
                except Exception:
                    ctx.outcome("rejected")
            asked1(ctx, name, mod, m, X, y, s, oracle)


def asked1(ctx, name, mod, m, X, y, s, oracle):
    ctx.state(name, str(s), "asked")
    try:
        w = pmm.SequentialModel()
        w.deserialize(m.serialize())
        z = lib.host(w(X, dtype=np.float64))
        y2 = lib.host(m(X, dtype=np.float64, max_batch_size=1))
        d = mod.get_output_shape(s)
    except Exception as e:
        ctx.fail("asking for the output of other shapes broke the module",
                 f"{name} compiled for {s}: {e}")
    bad = lib.same(z, y, 1e-6, 1e-6) or lib.same(y2, y, 1e-6, 1e-6)
    if bad or [tuple(x) for x in lv(d)] != lv(oracle(s)):
        ctx.fail("asking for the output of other shapes changed the "
                 "module", f"{name} compiled for {s}: {d}: {bad}")


PAIRS = ["AHM3TrueNone", "AT(2, 3)TrueFalse", "AE32LM", "BiasFalseTrue",
         "Flatten", "Reshape1", "Reshape6", "Const2", "CatNone", "Cat-1",
         "Cat0", "CatP", "EvalNoneSA", "Evec1IM", "Esys2SA", "EVS1", "NN3",
         "TreeFlatten", "Key0", "Key1", "MatMulT", "MatMul0",
         "Einij,jk->ik", "EinT", "PReLUFalseTrue", "EinTree"]


def cases(tier):
    out = [{"t": "single", "name": n} for n in SPECS]
    acts = act_names()
    for i in range(0, len(acts), 6):
        out.append({"t": "acts", "names": acts[i:i + 6], "tier": tier})
    out.append({"t": "shapechanging"})
    for i, s in enumerate(BASE):
        if tier == "quick" and s not in QBASE:
            continue
        for a in PAIRS:
            out.append({"t": "pair", "s": i, "a": a,
                        "three": tier == "thorough"})
    for i in range(len(SHAPES)):
        out.append({"t": "reject", "s": i})
    out.append({"t": "models"})
    out.append({"t": "recompile"})
    return out


def chain_oracle(fs):
    def o(s):
        for f in fs:
            if s is None or any(x == () for x in lv(s)):
                return None
            s = f(s)
        return s
    return o


def compose(ctx, names, s, nests=("flat", "nested")):
    """The composition of admissible modules."""
    fs = [SPECS[n][1] for n in names]
    want = chain_oracle(fs)(s)
    if want is None or any(x == () for x in lv(want)):
        return
    mods = [SPECS[n][0]() for n in names]
    ctx.state(tuple(names), str(s))
    for nest in nests:
        ms = mods if nest == "flat" else [pmm.SequentialModel(
            [SPECS[n][0]() for n in names])]
        m = pmm.SequentialModel(ms)
        m.compile(lib.key(0), s)
        d = m.get_output_shape(s)
        if lv(d) != lv(want) or jax.tree.structure(d, is_leaf=isl) != \
                jax.tree.structure(want, is_leaf=isl):
            ctx.fail("declared shape of a composition is wrong",
                     f"{names} on {s} declares {d}, expected {want}")
        out = m(data(s, 2), dtype=np.float64)
        got = lib.shapes(out)
        if lv(got) != lv(want) or jax.tree.structure(got, is_leaf=isl) != \
                jax.tree.structure(want, is_leaf=isl) or any(
                    x.shape[0] != 2 for x in jax.tree.leaves(out)):
            ctx.fail("produced shape of a composition is wrong",
                     f"{names} on {s}: {got}, expected {want}")
        ctx.step(3)
    ctx.trace()


def run(case, ctx):
    if case.get("name", "").endswith("0.5"):   # empty scans need jit
        return _run(case, ctx)
    with jax.disable_jit():
        _run(case, ctx)


def _run(case, ctx):
    t = case["t"]
    if t == "single":
        mk, oracle, _ = SPECS[case["name"]]
        for s in SHAPES:
            one(ctx, case["name"], mk, oracle, s)
        asked(ctx, case["name"], mk, oracle)
    elif t == "acts":
        for n in case["names"]:
            cls = getattr(M, n)
            if n in ("Invert", "Packbits", "Unpackbits", "FrExp", "LDExp",
                     "NextAfter", "Piecewise", "Signbit"):
                continue     # not defined on real or complex data alone
            args = (2.0,) if n in BINARY else ()
            kw = ACT_ARGS.get(n) or {}
            for s in SHAPES:
                if case["tier"] == "quick" and s not in ASHAPES:
                    continue
                one(ctx, n, lambda: cls(*args, **kw), o_same, s, (2,))
    elif t == "shapechanging":
        bad = []
        for n, (a, kw, f) in SHAPE_CHANGING.items():
            s = (3, 4)
            mod = getattr(M, n)(*a, **kw)
            m = pmm.SequentialModel([mod])
            m.compile(lib.key(0), s)
            X = jnp.ones((2, 3, 4)) if n != "OneHot" else jnp.ones((2, 3, 4))
            try:
                out = m(X)
            except Exception:
                ctx.outcome("class not usable on floats")
                continue
            if tuple(m.output_shape) != out.shape[1:]:
                ctx.finding(f"act-shape-{n}",
                            "produced shape differs from the declared one",
                            f"{n} on {s}: {out.shape[1:]} vs "
                            f"{m.output_shape}")
                bad.append(n)
            ctx.step(2)
        ctx.check(set(bad) <= set(SHAPE_CHANGING), "unexpected")
    elif t == "pair":
        s = BASE[case["s"]]
        s1 = SPECS[case["a"]][1](s)
        if s1 is None or any(x == () for x in lv(s1)):
            return
        for b in PAIRS:
            compose(ctx, [case["a"], b], s,
                    ("flat", "nested") if case["three"] or s == QBASE[0]
                    else ("flat",))
            if case["three"]:
                for c in PAIRS:
                    compose(ctx, [case["a"], b, c], s)
    elif t == "reject":
        s = SHAPES[case["s"]]
        m = pmm.SequentialModel([M.Bias(), Lin(2.0, 1.0)])
        m.compile(lib.key(0), s)
        X = data(s, 2)
        for ev in (m, m.grad_input, m.grad_params):
            ev(X)
            for j, s2 in enumerate(SHAPES):
                ctx.state("reject", str(s), str(s2))
                ctx.step()
                if s2 == s and type(s2) is type(s):
                    continue
                try:
                    r = ev(data(s2, 2))
                except Exception:
                    ctx.outcome("rejected")
                    continue
                ctx.fail("input of another shape was accepted",
                         f"compiled for {s}, given {s2}, got "
                         f"{lib.shapes(r, 0)}")
        core_err = [X_ for X_ in ()]
        del core_err
        ctx.trace()
    elif t == "recompile":
        # a compiled (nested) model is offered another shape
        for s1, s2 in itertools.permutations([(2,), (3,), (2, 3), [(2,)],
                                              {"a": (3,)}, [(2, 2), (1,)]],
                                             2):
            for wrap in ("plain", "seq", "graph"):
                inner = pmm.SequentialModel([Lin(2.0, 1.0), M.Flatten(),
                                             M.ConcatenateLeaves()])
                inner.compile(lib.key(0), s1)
                want = (sum(prod(x) for x in lv(s2)),)
                if wrap == "plain":
                    m = inner
                elif wrap == "seq":
                    m = pmm.SequentialModel([inner, Lin(1.0, 2.0)])
                else:
                    m = pmm.NonSequentialModel(
                        {"i": inner, "l": Lin(1.0, 2.0)},
                        {"input": "i", "i": "l", "l": "output"})
                if wrap != "plain":
                    # what is announced for s2 before compiling for s2
                    d = m.get_output_shape(s2)
                    if d != want:
                        ctx.fail("declared shape is wrong",
                                 f"nested model compiled for {s1} announces "
                                 f"{d} for {s2}, expected {want}")
                m.compile(lib.key(0), s2)
                out = m(data(s2, 2))
                if m.get_output_shape(s2) != want or \
                        out.shape != (2,) + want:
                    ctx.fail("shape after recompiling is wrong",
                             f"{wrap}: {s1} then {s2}: declared "
                             f"{m.get_output_shape(s2)}, produced "
                             f"{out.shape}")
                ctx.state("recompile", str(s1), str(s2), wrap)
                ctx.step(4)
    elif t == "models":
        # graph models declare and produce assembled structures
        for outs, want in (({"o": "a", "r": "b"}, None),):
            pass
        g = pmm.NonSequentialModel(
            {"a": M.Flatten(), "b": M.Reshape((2, 2)), "c": M.Eigenvalues(2)},
            {"input": ["a", "b"], "b": "c", "a": "output.u",
             "c": "output.v.w"})
        g.compile(lib.key(0), (4,))
        want = {"u": (4,), "v": {"w": (2,)}}
        X = jnp.asarray(np.array([[1., 2, 2, 3], [0, 1, 1, 5], [2, 0, 0, 2]]))
        for b in (1, 2, 3):
            out = g(X[:b])
            if g.get_output_shape((4,)) != want or lib.shapes(out) != want:
                ctx.fail("graph model shape", f"{g.get_output_shape((4,))} "
                         f"{lib.shapes(out)}")
            if any(x.shape[0] != b for x in jax.tree.leaves(out)):
                ctx.fail("batch dimension not preserved", "graph model")
            ctx.step()
        ctx.state("graph")
