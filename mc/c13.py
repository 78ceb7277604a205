"""C13 - eigenvalue selection returns the requested eigenpairs of the input."""
import itertools

from . import core, lib
from .lib import M, jnp, np, pmm

ID = "C13"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of spectra, selection rules, counts and "
             "containers on the real modules against a sorted-list reference")
RULE = ("a state is (module, rule, count, size, number type, container, "
        "spectrum); every multiset of eigenvalues over the alphabet is a "
        "sample of one evaluated batch")
BOUNDS = {
    "quick": "all multisets over {-2,-1,0,1,3} up to size 4 (size 5: the "
             "eigensystem module and Eigenvalues), 8 rules, every count "
             "and None, real and complex eigenbases, bare and tree inputs",
    "thorough": "all multisets over {-2,-1,0,1,2,3} up to size 6, every "
                "module, rule, count, number type, 3 bases, 4 containers",
}
ASSUMPTIONS = ["double precision, absolute tolerance 1e-7; among eigenvalues "
               "of equal magnitude either order is accepted"]

RULES = ["SA", "LA", "SM", "LM", "EA", "EM", "IA", "IM"]
MODS = {"values": "Eigenvalues", "vectors": "Eigenvectors",
        "system": "Eigensystem"}


def alphabet(tier):
    return [-2., -1., 0., 1., 3.] if tier == "quick" else \
        [-2., -1., 0., 1., 2., 3.]


def basis(n, kind):
    if kind == "diag":
        return np.eye(n)[:, np.argsort([(3 * i + 1) % (n + 1)
                                        for i in range(n)])]
    a = np.asarray(lib.grid((n, n), 0.7, 0.41), dtype=complex)
    if kind == "complex":
        a = a + 1j * np.asarray(lib.grid((n, n), 0.2, 0.59))
    a = a + 2 * np.eye(n)
    q, r = np.linalg.qr(a)
    q = q * (np.diag(r) / np.abs(np.diag(r)))
    return q if kind == "complex" else q.real


def spectra(n, tier):
    return [list(s) for s in
            itertools.combinations_with_replacement(alphabet(tier), n)]


def batch(n, kind, tier):
    """every spectrum once, listed in an order unrelated to the values"""
    Q = basis(n, kind)
    sp = spectra(n, tier)
    sp = sp[::2] + sp[1::2][::-1]
    mats = []
    for j, s in enumerate(sp):
        v = np.roll(np.asarray(s), j)
        mats.append((Q * v) @ Q.conj().T)
    A = np.array(mats)
    return sp, jnp.asarray((A + np.conj(np.swapaxes(A, 1, 2))) / 2)


def cases(tier):
    out = []
    nmax = 5 if tier == "quick" else 6
    kinds = ["real", "complex"] if tier == "quick" else \
        ["diag", "real", "complex"]
    for n in range(1, nmax + 1):
        for mod in MODS:
            for w in RULES:
                for k in list(range(1, n + 1)) + [None]:
                    for kd in kinds:
                        if tier == "quick" and n == 5 and (
                                mod == "vectors" or kd != "complex"):
                            continue
                        out.append({"t": "bare", "n": n, "mod": mod,
                                    "which": w, "k": k, "basis": kd,
                                    "al": tier})
    for mod in MODS:
        for w in RULES:
            for k in (1, 2, None):
                for cont in (["dict"] if tier == "quick" else
                             ["dict", "list", "tuple", "deep"]):
                    out.append({"t": "tree", "mod": mod, "which": w, "k": k,
                                "cont": cont})
    for mod in MODS:
        for bad in ("k too large", "k zero", "k negative", "rule",
                    "not square", "vector", "tree with one small matrix",
                    "rule lower case"):
            out.append({"t": "bad", "mod": mod, "bad": bad})
    return out


def expected(s, w, k):
    n = len(s)
    k = n if k is None else k
    o = sorted(s) if w[1] == "A" else sorted(s, key=lambda e: (abs(e), e))
    if w[0] == "S":
        return o[:k]
    if w[0] == "L":
        return o[n - k:]
    if w[0] == "E":
        h = k // 2
        return o[:h] + o[n - (k - h):]
    h = k // 2
    c = n // 2
    return o[c - h:c + (k - h)]


TOL = 1e-7


def judge_values(ctx, s, w, k, got, label):
    want = expected(s, w, k)
    g = np.asarray(got)
    if g.shape != (len(want),):
        ctx.fail("wrong number of eigenvalues", f"{label}: {g}")
    if np.iscomplexobj(g):
        if np.max(np.abs(g.imag)) > TOL:
            ctx.fail("eigenvalues not real", f"{label}: {g}")
        g = g.real
    if w[1] == "A":
        ok = np.allclose(g, want, atol=TOL, rtol=0)
    else:
        ok = np.allclose(np.abs(g), np.abs(want), atol=TOL, rtol=0)
        # values themselves belong to the spectrum, with multiplicity
        left = list(s)
        for e in g:
            j = int(np.argmin([abs(e - x) for x in left])) if left else -1
            if j < 0 or abs(left[j] - e) > TOL:
                ok = False
                break
            left.pop(j)
    if not ok:
        ctx.fail("wrong eigenvalues selected",
                 f"{label}: spectrum {sorted(s)} rule {w} count {k}: "
                 f"got {g.tolist()}, expected {want}")


def judge_vectors(ctx, A, s, w, k, V, E, label):
    V = np.asarray(V)
    n = len(s)
    kk = n if k is None else k
    if V.shape != (n, kk):
        ctx.fail("wrong eigenvector shape", f"{label}: {V.shape}")
    if not np.allclose(V.conj().T @ V, np.eye(kk), atol=1e-6):
        ctx.fail("eigenvectors not orthonormal", f"{label}: spectrum {s} "
                 f"rule {w} count {k}:\n{V}")
    q = np.real(np.sum(V.conj() * (A @ V), axis=0))
    if not np.allclose(A @ V, V * q, atol=1e-6):
        ctx.fail("not eigenvectors of the input", f"{label}: spectrum {s} "
                 f"rule {w} count {k}")
    if E is not None and not np.allclose(q, np.asarray(E).real, atol=1e-6):
        ctx.fail("eigenvectors in another order than the eigenvalues",
                 f"{label}: spectrum {s} rule {w} count {k}: {q} vs {E}")
    judge_values(ctx, s, w, k, np.where(np.abs(q - np.round(q)) < 1e-6,
                                        np.round(q), q), label)


def judge(ctx, mod, A, sp, w, k, out, label):
    A = np.asarray(A)
    out = {a: np.asarray(b) for a, b in out.items()}
    for i, s in enumerate(sp):
        lab = f"{label} sample {i}"
        E = out["eigenvalues"][i] if "eigenvalues" in out else None
        V = out["eigenvectors"][i] if "eigenvectors" in out else None
        if E is not None:
            judge_values(ctx, s, w, k, E, lab)
        if V is not None:
            judge_vectors(ctx, A[i], s, w, k, V, E, lab)
        ctx.state(label, tuple(s))
    ctx.step(len(sp))


def make(mod, k, w):
    return getattr(M, MODS[mod])(k, w)


def parts(mod, out):
    if mod == "values":
        return {"eigenvalues": out}
    if mod == "vectors":
        return {"eigenvectors": out}
    return out



def run(case, ctx):
    mod, w, k = case["mod"], case.get("which"), case.get("k")
    if case["t"] == "bare":
        sp, A = batch(case["n"], case["basis"], case["al"])
        m = pmm.SequentialModel([make(mod, k, w)])
        m.compile(lib.key(0), (case["n"],) * 2)
        out = m(A, dtype=A.dtype)
        judge(ctx, mod, A, sp, w, k, parts(mod, out),
              f"{mod} {w} {k} n={case['n']} {case['basis']}")
        ctx.trace()
        ctx.outcome(f"{mod} {w}")
        return
    if case["t"] == "tree":
        sa, A = batch(2, "complex", "quick")
        sb, B = batch(3, "real", "quick")
        N = min(len(sa), len(sb))
        A, B = A[:N], B[:N].astype(complex)
        sa, sb = sa[:N], sb[:N]
        put = {"dict": lambda a, b: {"z": a, "a": b},
               "list": lambda a, b: [a, b], "tuple": lambda a, b: (a, b),
               "deep": lambda a, b: {"q": [a], "p": (b,)}}[case["cont"]]
        get = {"dict": lambda t: (t["z"], t["a"]),
               "list": lambda t: (t[0], t[1]),
               "tuple": lambda t: (t[0], t[1]),
               "deep": lambda t: (t["q"][0], t["p"][0])}[case["cont"]]
        m = pmm.SequentialModel([make(mod, k, w)])
        m.compile(lib.key(0), put((2, 2), (3, 3)))
        out = m(put(A, B), dtype=np.complex128)
        if mod == "system":
            pa = {key: get(out[key])[0] for key in
                  ("eigenvalues", "eigenvectors")}
            pb = {key: get(out[key])[1] for key in
                  ("eigenvalues", "eigenvectors")}
        else:
            pa, pb = (parts(mod, o) for o in get(out))
        lab = f"{mod} {w} {k} tree {case['cont']}"
        judge(ctx, mod, A, sa, w, k, pa, lab + " first")
        judge(ctx, mod, B, sb, w, k, pb, lab + " second")
        ctx.trace()
        return
    bad = case["bad"]
    ctx.state(mod, bad)
    if bad == "rule lower case":
        sp, A = batch(3, "real", "quick")
        for w in RULES:
            m = pmm.SequentialModel([make(mod, 2, w.lower())])
            m.compile(lib.key(0), (3, 3))
            judge(ctx, mod, A, sp, w, 2, parts(mod, m(A)),
                  f"{mod} {w.lower()}")
        return
    k, w, shape = {
        "k too large": (4, "SA", (3, 3)), "k zero": (0, "SA", (3, 3)),
        "k negative": (-1, "SA", (3, 3)), "rule": (1, "XA", (3, 3)),
        "not square": (1, "SA", (2, 3)), "vector": (1, "SA", (3,)),
        "tree with one small matrix": (3, "LA", {"a": (3, 3), "b": (2, 2)}),
    }[bad]

    def attempt():
        m = pmm.SequentialModel([make(mod, k, w)])
        m.compile(lib.key(0), shape)
        return m.output_shape
    core.expect_error(ctx, attempt, "impossible request accepted",
                      f"{mod}: {bad}")
    ctx.step()
