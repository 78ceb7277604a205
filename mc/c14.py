"""C14 - matrix-model modules compute their documented formulas."""
import itertools

from . import core, lib
from .c13 import expected
from .lib import M, jax, jnp, np, pmm

ID = "C14"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of module options, parameter patterns "
             "and input grids on the real modules against the documented "
             "formulas written out in numpy")
RULE = ("a state is (module, options, parameter pattern, container); every "
        "point of the input grid is a sample of one evaluated batch")
BOUNDS = {
    "quick": "matrix sizes 1..3, 1..2 features, every option combination, "
             "4 parameter patterns (initial, Hermitian, single entries, not "
             "Hermitian), inputs {-1,0,0.5,2}^p, bare and single-leaf trees",
    "thorough": "matrix sizes 1..4, 1..3 features, ranks up to the size, "
                "every selection rule and count, 5 parameter patterns",
}
ASSUMPTIONS = ["double precision parameters, relative tolerance 1e-7 "
               "(initial single-precision parameters: 1e-4)"]


def cgrid(shape, start=0.3):
    return np.asarray(lib.cgrid(shape, start))


def hermit(a):
    return (a + np.conj(np.swapaxes(a, -1, -2))) / 2


def pattern(name, shape, start=0.3):
    """parameter values; the last two axes are the matrix"""
    if name == "herm":
        return hermit(cgrid(shape, start))
    if name == "skewed":              # not Hermitian
        return cgrid(shape, start)
    if name == "units":               # one distinct entry per matrix
        a = np.zeros(shape, complex)
        flat = a.reshape((-1,) + shape[-2:])
        n = shape[-1]
        for i in range(flat.shape[0]):
            flat[i, i % n, (i + 1) % n] += 1.0 + 0.5j * (i + 1)
        return hermit(a)
    if name == "zero":
        return np.zeros(shape, complex)
    raise KeyError(name)


def grid_inputs(p):
    return np.array(list(itertools.product([-1., 0., 0.5, 2.], repeat=p)))


WRAP = {"bare": (lambda x: x, lambda t: t),
        "dict": (lambda x: {"k": x}, lambda t: t["k"]),
        "list": (lambda x: [x], lambda t: t[0])}


SMOOTH = [None, 0.75, -0.5, 1e-2, 0.0]


def cases(tier):
    q = tier == "quick"
    out = []
    pats = ["init", "herm", "units", "skewed"] + ([] if q else ["zero"])
    ns = [1, 2, 3] if q else [1, 2, 3, 4]
    ps = [1, 2] if q else [1, 2, 3]
    for n, p, bias, s in itertools.product(ns, ps, [True, False], SMOOTH):
        if q and s not in SMOOTH[:2] and n != 2:
            continue
        for cont in (["bare", "dict"] if q and s in SMOOTH[:2] else ["bare"]
                     if q else list(WRAP)):
            if q and cont == "dict" and n != 2:
                continue
            base = {"n": n, "p": p, "bias": bias, "s": s, "cont": cont,
                    "pats": pats}
            out.append(dict(base, t="herm"))
            for r in range(1, n + 1):
                if q and n == 3 and r == 2 and p == 2:
                    continue
                out.append(dict(base, t="low", r=r))
    for shape in [(), (2,), (2, 3), (1, 2, 2)]:
        for p, bias, real in itertools.product(ps, [True, False],
                                               [True, False]):
            for cont in ["bare"] if q else list(WRAP):
                out.append({"t": "tensor", "shape": list(shape), "p": p,
                            "bias": bias, "real": real, "cont": cont})
    for t in ("expect", "trans"):
        for n, r, qo, l, c in itertools.product([1, 2, 3], [1, 2], [1, 2],
                                                [1, 2], [True, False]):
            if r > n:
                continue
            for cont in (["bare"] if q and n != 2 else ["bare", "dict"]):
                out.append({"t": t, "n": n, "r": r, "q": qo, "l": l, "c": c,
                            "cont": cont, "pats": pats})
    rules = ["SA", "LM", "EA", "IM"] if q else \
        ["SA", "LA", "SM", "LM", "EA", "EM", "IA", "IM"]
    for n, p, bias, s in itertools.product([2, 3] if q else [1, 2, 3, 4],
                                           [1, 2], [True, False], SMOOTH):
        for w in rules:
            if s not in SMOOTH[:2] and (w not in ("SA", "LM") or n != 2):
                continue
            for k in ([1, 2] if q else range(1, n + 1)):
                out.append({"t": "aepmm", "n": n, "p": p, "bias": bias,
                            "s": s, "which": w, "k": k,
                            "given": bool((n + p + k) % 2)})
    for w, s, ab, l, qo, c, b, ev in itertools.product(
            [None, "SA"] if q else [None, "SA", "LA", "EM", "IA"],
            [None, -0.5], [True, False],
            [1, 2], [1, 2], [True, False], [True, False], [True, False]):
        if q and l == 2 and qo == 2:
            continue
        out.append({"t": "aopmm", "which": w, "s": s, "ab": ab, "l": l,
                    "q": qo, "c": c, "b": b, "ev": ev,
                    "given": ["none", "MDb", "Mb", "D"][
                        (l + qo + 2 * ab + ev) % 4]})
    for kind in INIT:
        out.append({"t": "init", "kind": kind})
    for bad in BAD:
        out.append({"t": "bad", "bad": bad})
    return out


# ---- reference formulas --------------------------------------------------
def comm(Ms):
    C = np.zeros(Ms.shape[1:], complex)
    for i in range(len(Ms)):
        for j in range(i):
            C = C + Ms[i] @ Ms[j] - Ms[j] @ Ms[i]
    return 1j * C


def affine(Ms, X, bias, s):
    Ms = hermit(np.asarray(Ms).astype(complex))
    out = []
    for x in X:
        if bias:
            A = Ms[0] + sum(x[i] * Ms[i + 1] for i in range(len(x)))
        else:
            A = sum(x[i] * Ms[i] for i in range(len(x)))
        if s:
            A = A + s * comm(Ms)
        out.append(A)
    return np.array(out)


def lowrank(ls, us):
    ls, us = np.asarray(ls).astype(complex), np.asarray(us).astype(complex)
    P, n, r = us.shape
    Ms = np.zeros((P, n, n), complex)
    for i in range(P):
        for k in range(r):
            Ms[i] += ls[i, k] * np.outer(us[i, :, k], us[i, :, k].conj())
    return Ms


def observable(Ds, V, centered, squared):
    Ds = hermit(np.asarray(Ds).astype(complex))
    out = []
    for v in V:
        z = []
        for row in Ds:
            t = 0.0
            for D in row:
                if squared:
                    t += sum(abs(v[:, i].conj() @ D @ v[:, j]) ** 2
                             for i in range(v.shape[1])
                             for j in range(v.shape[1]))
                else:
                    t += sum((v[:, i].conj() @ D @ v[:, i]).real
                             for i in range(v.shape[1]))
                if centered:
                    t -= 0.5 * np.max(np.abs(np.linalg.eigvalsh(D))) ** 2
            z.append(t)
        out.append(z)
    return np.array(out)


def close(ctx, got, want, label, tol, herm=False, real=False):
    g = np.asarray(got)
    if g.shape != want.shape:
        ctx.fail("wrong shape", f"{label}: {g.shape} vs {want.shape}")
    if real and np.iscomplexobj(g):
        ctx.fail("energies or observables are not real",
                 f"{label}: {g.dtype}")
    if herm and np.max(np.abs(g - np.conj(np.swapaxes(g, -1, -2)))) > tol:
        ctx.fail("matrix not Hermitian", f"{label}:\n{g[0]}")
    if not np.allclose(g, want, rtol=tol, atol=tol):
        i = int(np.argmax(np.abs(g - want).reshape(len(g), -1).max(1)))
        ctx.fail("result differs from the documented formula",
                 f"{label}: sample {i}:\n{g[i]}\nvs\n{want[i]}")


def apply_raw(mod, params, data):
    """the module's own function, with arbitrary parameters"""
    out, _ = jax.jit(mod._get_callable(), static_argnums=(2,))(
        params, data, False, mod.get_state(), lib.key(1))
    return out


def drive(ctx, case, mod, shape, X, pats, params_of, formula, label,
          herm=False, real=False, dtype=np.float64):
    """run the module inside a model for every parameter pattern"""
    wrap, unwrap = WRAP[case["cont"]]
    m = pmm.SequentialModel([mod])
    m.compile(lib.key(5), wrap(shape))
    data = wrap(jnp.asarray(X))
    for pat in pats:
        lab = f"{label} parameters {pat} {case['cont']}"
        if pat == "init":
            par = m.get_params()[0]
            out, tol = m(data, dtype=dtype), 1e-4
        else:
            par = jax.tree.map(jnp.asarray, params_of(pat))
            tol = 1e-7
            if pat == "skewed":
                out = apply_raw(mod, par, data)
            else:
                m.set_params([par])
                out = m(data, dtype=dtype)
        close(ctx, unwrap(out), formula(par, X), lab, tol, herm, real)
        ctx.step(len(X))
        ctx.state(label, pat, case["cont"])
        ctx.trace()
    return m


def run(case, ctx):
    {"herm": r_herm, "low": r_low, "tensor": r_tensor, "expect": r_obs,
     "trans": r_obs, "aepmm": r_aepmm, "aopmm": r_aopmm, "init": r_init,
     "bad": r_bad}[case["t"]](case, ctx)


def floats(ctx, m, want, label):
    for o, what in ((m, "model"), (m[0], "module")):
        g = o.get_num_trainable_floats()
        if g != want:
            ctx.fail("number of trainable numbers does not match",
                     f"{label}: {what} reports {g}, holds {want}")


def r_herm(case, ctx):
    n, p, bias, s = case["n"], case["p"], case["bias"], case["s"]
    P = p + bias
    m = drive(ctx, case, M.AffineHermitianMatrix(
        n, smoothing=s, bias_term=bias), (p,), grid_inputs(p), case["pats"],
        lambda pat: pattern(pat, (P, n, n)),
        lambda par, X: affine(par, X, bias, s),
        f"AffineHermitianMatrix n={n} p={p} bias={bias} smoothing={s}",
        herm=True)
    floats(ctx, m, P * n * n, str(case))
    # matrices given at construction
    Ms = pattern("herm", (P, n, n), 0.6)
    g = pmm.SequentialModel([M.AffineHermitianMatrix(
        smoothing=s, bias_term=bias, Ms=jnp.asarray(Ms))])
    wrap, unwrap = WRAP[case["cont"]]
    g.compile(lib.key(1), wrap((p,)))
    X = grid_inputs(p)
    close(ctx, unwrap(g(wrap(jnp.asarray(X)))), affine(Ms, X, bias, s),
          f"given matrices {case}", 1e-7, herm=True)
    ctx.step(len(X))


def r_low(case, ctx):
    n, p, bias, s, r = (case[k] for k in ("n", "p", "bias", "s", "r"))
    P = p + bias

    def params_of(pat):
        us = cgrid((P, n, r), 0.4)
        ls = np.asarray(lib.grid((P, r), 0.9))
        if pat == "units":
            us = np.zeros((P, n, r), complex)
            for i in range(P):
                for k in range(r):
                    us[i, (i + k) % n, k] = 1 + 0.5j * (k + 1)
        if pat == "skewed":            # complex weights
            ls = ls + 1j * np.asarray(lib.grid((P, r), 0.1))
        if pat == "zero":
            ls = 0 * ls
        return (ls, us)
    m = drive(ctx, case, M.LowRankAffineHermitianMatrix(
        n, r, smoothing=s, bias_term=bias), (p,), grid_inputs(p),
        case["pats"], params_of,
        lambda par, X: affine(lowrank(*par), X, bias, s),
        f"LowRank n={n} r={r} p={p} bias={bias} smoothing={s}", herm=True)
    floats(ctx, m, P * r + 2 * P * n * r, str(case))


def r_tensor(case, ctx):
    shape, p, bias, real = (tuple(case["shape"]), case["p"], case["bias"],
                            case["real"])
    P = p + bias
    if shape == ():
        return
    X = grid_inputs(p)

    def formula(par, X):
        Ms = np.asarray(par)
        return np.array([(Ms[0] if bias else 0) + sum(
            x[i] * Ms[i + bias] for i in range(p)) for x in X])
    val = (lambda pat: np.asarray(lib.grid((P,) + shape, 0.2))) if real else \
        (lambda pat: cgrid((P,) + shape, 0.2))
    lab = f"AffineTensor {shape} p={p} bias={bias} real={real}"
    m = drive(ctx, case, M.AffineTensor(shape, bias_term=bias, real=real),
              (p,), X, ["init", "herm"], val, formula, lab, real=real)
    floats(ctx, m, (1 if real else 2) * P * int(np.prod(shape)), lab)
    Ms = val("given") + 0.25
    g = pmm.SequentialModel([M.AffineTensor(Ms=jnp.asarray(Ms),
                                            bias_term=bias, real=real)])
    wrap, unwrap = WRAP[case["cont"]]
    g.compile(lib.key(1), wrap((p,)))
    close(ctx, unwrap(g(wrap(jnp.asarray(X)))), formula(Ms, X),
          f"given tensors {case}", 1e-7)
    ctx.step(len(X))


def states(n, r):
    """orthonormal, plain unit, zero and unnormalised complex vectors"""
    out = []
    for k in range(4):
        a = cgrid((n, n), 0.3 + 0.4 * k) + 1.5 * np.eye(n)
        out.append(np.linalg.qr(a)[0][:, :r])
    out.append(np.eye(n)[:, ::-1][:, :r].astype(complex))
    out.append(np.zeros((n, r), complex))
    out.append(cgrid((n, r), 0.8))
    return np.array(out)


def r_obs(case, ctx):
    n, r, q, l, c = (case[k] for k in ("n", "r", "q", "l", "c"))
    sq = case["t"] == "trans"
    cls = M.TransitionAmplitudeSum if sq else M.ExpectationValueSum
    V = states(n, r)
    lab = f"{cls.__name__} n={n} r={r} q={q} l={l} centered={c}"
    m = drive(ctx, case, cls(l, q, centered=c), (n, r), V, case["pats"],
              lambda pat: pattern(pat, (q, l, n, n), 0.5),
              lambda par, V: observable(par, V, c, sq), lab, real=True,
              dtype=np.complex128)
    floats(ctx, m, q * l * n * n, lab)
    Ds = pattern("herm", (q, l, n, n), 0.9)
    g = pmm.SequentialModel([cls(Ds=jnp.asarray(Ds), centered=c)])
    wrap, unwrap = WRAP[case["cont"]]
    g.compile(lib.key(1), wrap((n, r)))
    close(ctx, unwrap(g(wrap(jnp.asarray(V)), dtype=np.complex128)),
          observable(Ds, V, c, sq), f"given {lab}", 1e-7, real=True)
    ctx.step(len(V))


def r_aepmm(case, ctx):
    n, p, bias, s, w, k = (case[a] for a in
                           ("n", "p", "bias", "s", "which", "k"))
    P = p + bias
    X = grid_inputs(p) + 0.13
    Ms = pattern("herm", (P, n, n), 0.37)
    given = case["given"]
    m = M.AffineEigenvaluePMM(n, k, w, smoothing=s, bias_term=bias,
                              Ms=jnp.asarray(Ms) if given else None)
    m.compile(lib.key(3), (p,))
    rounds = [("given" if given else "initial",
               Ms if given else None)]
    other = pattern("herm", (P, n, n), 0.71)
    rounds.append(("set", other))
    for what, par in rounds:
        if what == "set":
            cur = m.get_params()
            m.set_params(jax.tree.map(
                lambda a: jnp.asarray(par) if a.shape == par.shape else a,
                cur))
        elif par is None:
            par = np.asarray(lib.leaves(m.get_params())[0])
        A = affine(par, X, bias, s)
        want = np.array([expected(np.linalg.eigvalsh(a).tolist(), w, k)
                         for a in A])
        close(ctx, m(jnp.asarray(X)), want, f"{case} {what}",
              1e-7 if what != "initial" else 1e-4, real=True)
        ctx.step(len(X))
        ctx.state("aepmm", str(case), what)
        ctx.trace()
    if m.get_num_trainable_floats() != P * n * n:
        ctx.fail("number of trainable numbers does not match",
                 f"{case}: {m.get_num_trainable_floats()}")


def pick(A, w, k):
    e, v = np.linalg.eigh(A)
    want = expected(e.tolist(), w, k)
    return np.stack([v[:, int(np.argmin(abs(e - x)))] for x in want], 1)


def r_aopmm(case, ctx):
    n, p, k = 3, 2, 2
    w, s, ab, l, q, c, b, ev = (case[a] for a in
                                ("which", "s", "ab", "l", "q", "c", "b",
                                 "ev"))
    rule = w or ("LM" if not s else "SA")
    P = p + ab
    X = grid_inputs(p) + 0.17
    g = case["given"]
    Ms = pattern("herm", (P, n, n), 0.37) if "M" in g else None
    Ds = pattern("herm", (q, l, n, n), 0.59) if "D" in g else None
    bb = np.array([1.5, -2.25])[:q] if "b" in g and b else None
    j = (lambda a: None if a is None else jnp.asarray(a))
    m = M.AffineObservablePMM(
        n, k, which=w, smoothing=s, affine_bias_matrix=ab,
        num_secondaries=l, output_size=q, centered=c, bias_term=b,
        use_expectation_values=ev, Ms=j(Ms), Ds=j(Ds), b=j(bb))
    m.compile(lib.key(3), (p,))

    def split():
        par = {}
        for leaf in lib.leaves(m.get_params()):
            par[leaf.ndim] = np.asarray(leaf)
        return par
    for rnd in ("start", "set"):
        if rnd == "set":
            new = {3: pattern("herm", (P, n, n), 0.83),
                   4: pattern("herm", (q, l, n, n), 0.21),
                   1: np.array([0.75, 4.0])[:q]}
            m.set_params(jax.tree.map(lambda a: jnp.asarray(new[a.ndim]),
                                      m.get_params()))
            cM, cD, cb = new[3], new[4], new[1] if b else None
        else:
            par = split()
            if set(par) != ({1, 3, 4} if b else {3, 4}):
                ctx.fail("unexpected parameters", f"{case}: "
                         f"{[v.shape for v in par.values()]}")
            cM = Ms if Ms is not None else par[3]
            cD = Ds if Ds is not None else par[4]
            cb = (bb if bb is not None else par[1]) if b else None
        A = affine(cM, X, ab, s)
        V = np.array([pick(a, rule, k) for a in A])
        want = observable(cD, V, c, not ev)
        if cb is not None:
            want = want + cb
        close(ctx, m(jnp.asarray(X)), want, f"{case} {rnd}",
              1e-6 if rnd == "set" or g == "MDb" else 2e-4, real=True)
        ctx.step(len(X))
        ctx.state("aopmm", str(case), rnd)
        ctx.trace()


INIT = {
    "herm": (lambda mag: M.AffineHermitianMatrix(2, init_magnitude=mag),
             (3,), [((4, 2, 2), "complex64")]),
    "herm no bias": (lambda mag: M.AffineHermitianMatrix(
        2, init_magnitude=mag, bias_term=False), (3,),
        [((3, 2, 2), "complex64")]),
    "low": (lambda mag: M.LowRankAffineHermitianMatrix(
        3, 2, init_magnitude=mag), (2,),
        [((3, 2), "float32"), ((3, 3, 2), "complex64")]),
    "tensor": (lambda mag: M.AffineTensor((2, 3), init_magnitude=mag), (2,),
               [((3, 2, 3), "float32")]),
    "ctensor": (lambda mag: M.AffineTensor((2, 3), init_magnitude=mag,
                                           real=False), (2,),
                [((3, 2, 3), "complex64")]),
    "expect": (lambda mag: M.ExpectationValueSum(2, 3, init_magnitude=mag),
               (2, 1), [((3, 2, 2, 2), "complex64")]),
    "trans": (lambda mag: M.TransitionAmplitudeSum(
        2, 3, init_magnitude=mag), (2, 1), [((3, 2, 2, 2), "complex64")]),
}


def r_init(case, ctx):
    f, shape, decl = INIT[case["kind"]]

    def par(mag, seed, touched=False):
        m = pmm.SequentialModel([f(mag)])
        if touched:
            np.random.rand(3)
            jax.random.normal(lib.key(99), (2,))
        m.compile(seed, shape)
        return [np.asarray(x) for x in lib.leaves(m.get_params())]
    a = par(0.25, 4)
    got = [(x.shape, str(x.dtype)) for x in a]
    if got != decl:
        ctx.fail("initial parameters have another shape or number type",
                 f"{case}: {got} vs {decl}")
    if lib.exact(a, par(0.25, 4, True)):
        ctx.fail("initialisation does not only depend on the seed", str(case))
    b = par(0.25, 5)
    for x, y in zip(a, b):
        if np.array_equal(x, y):
            ctx.fail("initialisation ignores the seed", str(case))
        if not np.all(np.isfinite(x)) or np.all(x == 0):
            ctx.fail("initial parameters degenerate", f"{case}: {x}")
        if np.iscomplexobj(x) and np.all(x.imag == 0):
            ctx.fail("complex parameters initialised real", str(case))
        if x.ndim > 2 and case["kind"] not in ("low", "tensor", "ctensor"):
            if not np.allclose(x, np.conj(np.swapaxes(x, -1, -2))):
                ctx.fail("initial matrices not Hermitian", str(case))
    c = par(0.5, 4)
    for x, y in zip(a, c):
        if not np.allclose(2 * x, y, rtol=1e-5):
            ctx.fail("initial magnitude not respected", str(case))
    ctx.state("init", case["kind"])
    ctx.step(4)


def _m(mod, shape):
    m = pmm.SequentialModel([mod])
    m.compile(lib.key(0), shape)
    return m.output_shape


def H(*shape):
    return jnp.asarray(pattern("herm", shape))


BAD = {
    "given matrices for other features":
        lambda: _m(M.AffineHermitianMatrix(Ms=H(2, 2, 2)), (3,)),
    "given matrices not Hermitian":
        lambda: _m(M.AffineHermitianMatrix(
            Ms=jnp.asarray(pattern("skewed", (2, 2, 2)))), (1,)),
    "given observables not Hermitian":
        lambda: _m(M.ExpectationValueSum(
            Ds=jnp.asarray(pattern("skewed", (1, 1, 2, 2)))), (2, 1)),
    "rank above size":
        lambda: _m(M.LowRankAffineHermitianMatrix(2, 3), (1,)),
    "two leaves":
        lambda: _m(M.AffineHermitianMatrix(2), {"a": (1,), "b": (1,)}),
    "matrix input":
        lambda: _m(M.AffineHermitianMatrix(2), (2, 2)),
    "tensor matrix input": lambda: _m(M.AffineTensor((2,)), (2, 2)),
    "tensor given for other features":
        lambda: _m(M.AffineTensor(Ms=jnp.ones((2, 2))), (3,)),
    "observables of other size":
        lambda: _m(M.TransitionAmplitudeSum(Ds=H(1, 1, 2, 2)), (3, 1)),
    "observables without output size":
        lambda: _m(M.TransitionAmplitudeSum(2), (3, 1)),
    "vector states": lambda: _m(M.ExpectationValueSum(1, 1), (3,)),
    "matrix size zero": lambda: _m(M.AffineHermitianMatrix(0), (2,)),
    "non-Hermitian parameters set": lambda: _set(),
    "more eigenvalues than rows":
        lambda: M.AffineEigenvaluePMM(2, 3).compile(lib.key(0), (1,)),
}


def _set():
    m = pmm.SequentialModel([M.AffineHermitianMatrix(2)])
    m.compile(lib.key(0), (1,))
    m.set_params([jnp.asarray(pattern("skewed", (2, 2, 2)))])
    return m(jnp.ones((1, 1)))


def r_bad(case, ctx):
    ctx.state("bad", case["bad"])
    if case["bad"] == "non-Hermitian parameters set":
        # either refused or used through its Hermitian part
        try:
            out = np.asarray(_set())
        except Exception:
            return
        want = affine(pattern("skewed", (2, 2, 2)), np.ones((1, 1)), True, 0)
        close(ctx, out, want, case["bad"], 1e-6, herm=True)
        return
    core.expect_error(ctx, BAD[case["bad"]], "impossible request accepted",
                      case["bad"])
    ctx.step()
