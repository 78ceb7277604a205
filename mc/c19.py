"""C19 - contraction and rearrangement modules move every number correctly."""
import itertools

from . import core, lib
from .core import expect_error
from .lib import M, jax, jnp, np, pmm

ID = "C19"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of index patterns, operand orders, "
             "structures and parameter modes on the real modules against "
             "per-sample written-out sums")
RULE = ("a state is (module, pattern, structure, parameter mode, request); a "
        "transition is one compilation+evaluation or one refused request")
BOUNDS = {
    "quick": "every canonical index pattern of 1 operand with 1..3 and 2 "
             "operands with 0..2 indices each over {i,j,k} with every "
             "output; every 4th pattern of 2 operands with 3 indices and of "
             "3 operands with 1..2 indices, 3 outputs each; inferred "
             "outputs under relabelings, "
             "every split into leading parameters and data, every single "
             "wrong dimension; matrix chains of 1..3 inputs with parameter "
             "at every position, every order and 4 structures; reshape/"
             "concatenate/key/bias/constant over all shapes up to size 6",
    "thorough": "every pattern of up to 3 operands with every output, "
                "4-operand patterns, chains of 4, shapes of size 12",
}
ASSUMPTIONS = ["double precision; reference sums by numpy per sample",
               "wrong requests may be refused at compilation or at "
               "evaluation"]
N = 2
DIM = {"i": 2, "j": 3, "k": 4, "l": 2}


# ------------------------------------------------------------ einsum patterns
def canonical(strs):
    """relabel by first occurrence"""
    m = {}
    out = []
    for s in strs:
        out.append("".join(m.setdefault(c, "ijkl"[len(m)]) for c in s))
    return tuple(out)


def patterns(nops, maxlen, letters="ijk", minlen=1):
    one = ["".join(p) for k in range(minlen, maxlen + 1)
           for p in itertools.product(letters, repeat=k)]
    seen = []
    have = set()
    for p in itertools.product(one, repeat=nops):
        c = canonical(p)
        if c not in have:
            have.add(c)
            seen.append(c)
    return seen


def outputs(pat, every):
    used = sorted(set("".join(pat)))
    outs = [""] + ["".join(p) for k in range(1, len(used) + 1)
                   for p in itertools.permutations(used, k)]
    if every:
        return outs
    h = sum(ord(c) * (i + 1) for i, c in enumerate(",".join(pat)))
    return sorted({outs[h % len(outs)], outs[(h // 7) % len(outs)],
                   "".join(reversed(used))})


def arr(shape, s, dtype=np.float64):
    a = lib.grid(shape, .3 + .17 * s, .41 + .05 * s)
    if np.dtype(dtype).kind == "c":
        a = a + 1j * lib.grid(shape, .8 + .13 * s, .29)
    return a


CONT = {
    1: [("bare", lambda a: a[0]), ("list", lambda a: [a[0]]),
        ("dict", lambda a: {"q": a[0]})],
    2: [("list", list), ("tuple", tuple),
        ("dict", lambda a: {"a": a[0], "b": a[1]}),
        ("deep", lambda a: {"a": [a[0]], "b": {"x": a[1]}})],
    3: [("list", list), ("tuple", tuple),
        ("dict", lambda a: {"a": a[0], "b": a[1], "c": a[2]}),
        ("deep", lambda a: [a[0], (a[1], {"z": a[2]})])],
    4: [("list", list), ("deep", lambda a: {"a": [a[0], a[1]],
                                            "b": (a[2], a[3])})],
}


def cases(tier):
    th = tier == "thorough"
    out = []

    def blocks(kind, lst, size, **kw):
        for i in range(0, len(lst), size):
            out.append({"t": kind, "p": lst[i:i + size], **kw})
    blocks("ein", patterns(1, 3), 4, every=True)
    blocks("ein", patterns(2, 2), 4, every=True)
    blocks("ein", [p for p in patterns(2, 3) if max(map(len, p)) == 3][
        ::1 if th else 4], 12, every=th)
    blocks("ein", patterns(3, 2)[::1 if th else 4], 12, every=th)
    # operands that are one number per sample
    blocks("ein", [p for p in patterns(1, 1, minlen=0)
                   + patterns(2, 2, minlen=0) + patterns(3, 1, minlen=0)
                   if "" in p], 8, every=True)
    if th:
        blocks("ein", patterns(4, 2), 40, every=False)
    blocks("infer", patterns(1, 3), 8)
    blocks("infer", patterns(2, 2), 8)
    blocks("infer", [p for p in patterns(3, 2)
                     if th or len(set("".join(p))) == 3][::1 if th else 9],
           12)
    blocks("wrong", patterns(1, 3), 8)
    blocks("wrong", patterns(2, 2), 8)
    blocks("wrong", patterns(3, 2)[::1 if th else 6], 20)
    out.append({"t": "labels"})
    out.append({"t": "forms"})
    for n in (1, 2, 3) + ((4,) if th else ()):
        for vec in (False, True):
            for pos in [None] + list(range(n + 1)):
                for mode in ("fixed", "trainable") if pos is not None else (
                        "none",):
                    out.append({"t": "matmul", "n": n, "vec": vec,
                                "pos": pos, "mode": mode})
    for n in (1, 2, 3):
        out.append({"t": "mmshape", "n": n})
        out.append({"t": "mmwrong", "n": n})
    for size in (1, 2, 4, 6, 12) if th else (1, 2, 6):
        out.append({"t": "reshape", "size": size})
    out.append({"t": "reshapetree"})
    for ax in (None, 0, 1, -1, -2):
        out.append({"t": "concat", "ax": ax})
    out.append({"t": "concatbad"})
    out.append({"t": "treekey"})
    out.append({"t": "treeflatten"})
    for sc in (False, True):
        for real in (True, False):
            out.append({"t": "bias", "scalar": sc, "real": real})
    for real in (True, False):
        out.append({"t": "const", "real": real})
    for b in (True, False):
        for act in (None, "ReLU", "Tanh"):
            out.append({"t": "linear", "bias": b, "act": act})
    return out




def run(case, ctx):
    globals()["run_" + case["t"]](case, ctx)
    ctx.trace()
    ctx.outcome(case["t"])


def shape_of(data):
    return lib.shapes(data)


def ev(mod, data):
    out, st = mod(data, training=False, state=mod.get_state(),
                  rng=lib.key(0))
    return out


def attempt(mod, data, shape=None):
    """compile and evaluate; returns the output or raises"""
    mod.compile(lib.key(1), shape_of(data) if shape is None else shape)
    return ev(mod, data)


def ref_einsum(strs, outstr, params, data):
    res = []
    for b in range(N):
        ops = [np.asarray(p) for p in params] + [np.asarray(d)[b]
                                                 for d in data]
        res.append(np.einsum(",".join(strs) + "->" + outstr, *ops))
    return np.stack(res)


def operands(pat, P, dtype=np.float64, dim=DIM):
    par = [arr(tuple(dim[c] for c in s), i, dtype)
           for i, s in enumerate(pat[:P])]
    dat = [arr((N,) + tuple(dim[c] for c in s), 5 + i, dtype)
           for i, s in enumerate(pat[P:])]
    return par, dat


def pack(par):
    return None if not par else par[0] if len(par) == 1 else tuple(par)


def close(ctx, got, want, what, tol=1e-9):
    d = lib.same(got, want, tol, tol)
    ctx.check(d is None, "result differs from the written-out sum",
              f"{what}: {d}")


def run_ein(case, ctx):
    for pat in case["p"]:
        pat = tuple(pat)
        n = len(pat)
        for oi, o in enumerate(outputs(pat, case["every"])):
            for P in range(n):
                cplx = (oi + P) % 3 == 2
                dt = np.complex128 if cplx else np.float64
                par, dat = operands(pat, P, dt)
                cn, put = CONT[n - P][(oi + P) % len(CONT[n - P])]
                s = ",".join(pat) + "->" + o
                want = ref_einsum(pat, o, par, dat)
                if P == 0:
                    mods = [M.Einsum(s)]
                elif (oi % 2) == 0:
                    mods = [M.Einsum(s, params=pack(par))]
                else:
                    tm = M.Einsum(s, trainable=True, real=not cplx,
                                  dim_map={c: DIM[c] for c in
                                           set("".join(pat))})
                    mods = [tm]
                data = put(dat)
                for mod in mods:
                    mod.compile(lib.key(1), shape_of(data))
                    if P and oi % 2:
                        got = [x.shape for x in lib.leaves(mod.get_params())]
                        ctx.check(got == [p.shape for p in par],
                                  "trainable operand of wrong shape",
                                  f"{s} P={P}: {got}")
                        mod.set_params(pack(par))
                    close(ctx, ev(mod, data), want, f"{s} P={P} {cn}")
                    ctx.step()
                ctx.state("ein", s, P, cn, cplx)


RELABEL = [dict(zip("ijk", p)) for p in itertools.permutations("xyz")] + [
    dict(zip("ijk", "aBc")), dict(zip("ijk", "Cba"))]


def run_infer(case, ctx):
    """inferred output: the indices that occur once, in alphabetical order"""
    for pat in case["p"]:
        pat = tuple(pat)
        n = len(pat)
        for m in RELABEL if len(pat) < 3 else RELABEL[1::3]:
            q = tuple("".join(m[c] for c in s) for s in pat)
            dim = {m[c]: DIM[c] for c in "ijk"}
            allc = "".join(q)
            o = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
            for P in range(n):
                par, dat = operands(q, P, dim=dim)
                want = ref_einsum(q, o, par, dat)
                conts = CONT[n - P]
                cn, put = conts[(P + len(o)) % len(conts)]
                data = put(dat)
                forms = [("str", ",".join(q))]
                if cn != "bare":
                    tree = put(list(q[P:]))
                    lead = ",".join(q[:P])
                    if P == 0:
                        forms.append(("tree", tree))
                        if cn != "tuple":
                            forms.append(("tree+out", (tree, o)))
                    else:
                        forms.append(("lead+tree", (lead, tree)))
                        forms.append(("all", (lead, tree, o)))
                for fn, f in forms:
                    mod = M.Einsum(f, params=pack(par))
                    close(ctx, attempt(mod, data), want,
                          f"{f} {fn} P={P} {cn}")
                    ctx.check(tuple(mod.get_output_shape(shape_of(data)))
                              == want.shape[1:], "announced shape", f"{f}")
                    ctx.step()
                ctx.state("infer", q, P, cn)


def refused(ctx, mk, data, what):
    ctx.step()
    expect_error(ctx, lambda: attempt(mk(), data),
                 "request that does not fit was answered", what)


def run_wrong(case, ctx):
    """change every dimension of every operand that shares its index"""
    for pat in case["p"]:
        pat = tuple(pat)
        n = len(pat)
        o = "".join(sorted(set("".join(pat))))
        s = ",".join(pat) + "->" + o
        for P in range(n):
            for a in range(n):
                for c in range(len(pat[a])):
                    ch = pat[a][c]
                    if "".join(pat).count(ch) < 2:
                        continue
                    for new in (DIM[ch] + 1, 1):
                        par, dat = operands(pat, P)
                        shp = [DIM[x] for x in pat[a]]
                        shp[c] = new
                        if a < P:
                            par[a] = arr(tuple(shp), a)
                        else:
                            dat[a - P] = arr((N,) + tuple(shp), a)
                        put = CONT[n - P][0][1]
                        refused(ctx, lambda: M.Einsum(s, params=pack(par)),
                                put(dat), f"{s} P={P} operand {a} dim {c} "
                                f"{new}")
            # too many and too few dimensions
            for a in range(n):
                for extra in (1, -1):
                    par, dat = operands(pat, P)
                    shp = [DIM[x] for x in pat[a]]
                    shp = shp + [2] if extra == 1 else shp[:-1]
                    if a < P:
                        par[a] = arr(tuple(shp), a)
                    else:
                        dat[a - P] = arr((N,) + tuple(shp), a)
                    refused(ctx, lambda: M.Einsum(s, params=pack(par)),
                            CONT[n - P][0][1](dat), f"{s} P={P} ndim "
                            f"{extra} of operand {a}")
            # missing or superfluous operands
            par, dat = operands(pat, P)
            put = CONT[n - P][0][1]
            if P:
                refused(ctx, lambda: M.Einsum(s), put(dat), f"{s} no params")
                refused(ctx, lambda: M.Einsum(
                    s, params=tuple(par) + (par[0],)), put(dat),
                    f"{s} one param too many")
            if n - P < 3:
                refused(ctx, lambda: M.Einsum(s, params=pack(par)),
                        CONT[n - P + 1][0][1](dat + [dat[-1]]),
                        f"{s} one input too many")
            # unknown output index
            refused(ctx, lambda: M.Einsum(",".join(pat) + "->z",
                                          params=pack(par)), put(dat),
                    f"{s} unknown output index")
        ctx.state("wrong", pat)


def run_labels(case, ctx):
    """the batch index never collides with the letters used"""
    A, B = arr((N, 2, 3), 1), arr((N, 3, 4), 2)
    want = np.einsum("bij,bjk->bik", A, B)
    letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    for x, y, z in itertools.permutations("abcABZ", 3):
        close(ctx, attempt(M.Einsum(f"{x}{y},{y}{z}->{x}{z}"), [A, B]), want,
              f"letters {x}{y}{z}")
        ctx.step()
        ctx.state("labels", x, y, z)
    # many different letters in use
    for k in (5, 25, 26, 27, 50):
        s = letters[:k]
        ones = arr((N,) + (1,) * (k - 1) + (3,), 1)
        if k > 32:
            continue
        got = attempt(M.Einsum(f"{s}->{s[-1]}"), ones)
        close(ctx, got, np.asarray(ones).reshape(N, 3), f"{k} letters")
        ctx.step()
    for bad in ("i1->i", "i.->i", "...i->i", "i-j->i", "i,j->i->j", "i ,j"):
        refused(ctx, lambda: M.Einsum(bad), arr((N, 3), 1), bad)
    refused(ctx, lambda: M.Einsum(), arr((N, 3), 1), "no string")
    # size given by dim_map contradicts the data
    refused(ctx, lambda: M.Einsum("i->i", dim_map={"i": 4}), arr((N, 3), 1),
            "dim_map")
    # size of a trainable operand is not known
    refused(ctx, lambda: M.Einsum("ij,j->i", trainable=True),
            arr((N, 3), 1), "unknown size")
    m = M.Einsum("ij,j->i", trainable=True, dim_map={"i": 5})
    ctx.check(attempt(m, arr((N, 3), 1)).shape == (N, 5), "dim_map size")


def run_forms(case, ctx):
    """the equivalent forms of the documentation"""
    a, b, c = arr((N, 2), 1), arr((N, 3), 2), arr((N, 4), 3)
    data = [a, (b, c)]
    want = np.einsum("nk,ni,nj->nijk", a, b, c)
    for f in ("c,a,b->abc", "c,a,b", ["k", ("i", "j")],
              (["k", ("i", "j")], "ijk"), (["a", ("b", "c")], "bca")):
        close(ctx, attempt(M.Einsum(f), data), want, f"{f}")
        ctx.step()
        ctx.state("forms", str(f))
    W = arr((3, 4), 4)
    want = np.einsum("ij,nk,ni,nj->nk", W, a, b, c)
    for f in ("ab,c,a,b->c", "ab,c,a,b", ("ij", ["k", ("i", "j")]),
              ("ij", ["k", ("i", "j")], "k")):
        close(ctx, attempt(M.Einsum(f, params=W), data), want, f"{f}")
        ctx.step()
        ctx.state("forms", str(f))
    V = arr((2, 5), 6)
    want = np.einsum("ij,kd,nk,ni,nj->nd", W, V, a, b, c)
    for f in ("ab,cd,c,a,b->d", "ab,cd,c,a,b", ("ab,cd", ["c", ("a", "b")]),
              ("ab,cd", ["c", ("a", "b")], "d")):
        for par in ((W, V), [W, V]):
            close(ctx, attempt(M.Einsum(f, params=par), data), want, f"{f}")
            ctx.step()
            ctx.state("forms", str(f))
    # set later
    m = M.Einsum()
    m.set_hyperparameters({"einsum_str": "ab,c,a,b->c", "params": W})
    close(ctx, attempt(m, data), np.einsum("ij,nk,ni,nj->nk", W, a, b, c),
          "set later")
    # structure of the string tree must be that of the data
    for f in (["k", "i", "j"], {"a": "k", "b": ("i", "j")},
              (["k", ["i", "j"]], "ijk"), [("k", "i"), "j"]):
        refused(ctx, lambda: M.Einsum(f), data, f"{f}")
    # dictionaries are matched by key, not by order of insertion
    d = {"b": arr((N, 2), 1), "a": arr((N, 3), 2)}
    for f in ({"a": "y", "b": "x"}, {"b": "x", "a": "y"}):
        close(ctx, attempt(M.Einsum((f, "xy")), d),
              np.einsum("nx,ny->nxy", d["b"], d["a"]), f"{f}")
        ctx.step()
    # single-precision and mixed number types
    for da in ("float32", "float64", "complex64", "complex128"):
        for db in ("float32", "float64", "complex64", "complex128"):
            x, y = a.astype(da), b.astype(db)
            got = attempt(M.Einsum("i,j->ij"), [x, y])
            ctx.check(got.dtype == np.result_type(da, db), "result type",
                      f"{da} {db} {got.dtype}")
            close(ctx, got, np.einsum("ni,nj->nij", x, y), "mixed", 1e-5)
            ctx.step()
    # after copying the hyperparameters
    ctx.state("forms", "more")


# --------------------------------------------------------------- matrices
def chain(n, vec, pos, dims=(3, 4, 2, 5, 3)):
    """shapes of the n+1 (or n) factors in order of multiplication"""
    k = n + (pos is not None)
    shp = [(dims[i], dims[i + 1]) for i in range(k)]
    if vec:
        shp[-1] = shp[-1][:1]
    return shp


MMTREE = {
    1: [("bare", lambda a: a[0], [""]),
        ("dict", lambda a: {"q": a[0]}, ["q"])],
    2: [("list", list, ["0", "1"]),
        ("dict", lambda a: {"b": a[0], "a": a[1]}, ["b", "a"]),
        ("deep", lambda a: {"y": [a[0]], "x": {"k": a[1]}},
         ["y.0", "x.k"])],
    3: [("tuple", tuple, ["0", "1", "2"]),
        ("dict", lambda a: {"c": a[0], "a": a[1], "b": a[2]},
         ["c", "a", "b"]),
        ("deep", lambda a: [{"z": a[0]}, (a[1], a[2])],
         ["0.z", "1.0", "1.1"])],
    4: [("list", list, ["0", "1", "2", "3"]),
        ("deep", lambda a: {"b": (a[0], {"k": [a[1]]}), "a": [a[2], a[3]]},
         ["b.0", "b.1.k.0", "a.0", "a.1"])],
}


def product(fs):
    res = []
    for b in range(N):
        acc = None
        for f, isdata in fs:
            x = np.asarray(f)[b] if isdata else np.asarray(f)
            acc = x if acc is None else acc @ x
        res.append(acc)
    return np.stack(res)


def run_matmul(case, ctx):
    n, vec, pos = case["n"], case["vec"], case["pos"]
    shp = chain(n, vec, pos)
    for cn, put, paths in MMTREE[n]:
        for perm in itertools.permutations(range(n)):
            for sep in (".", "/"):
                # factor order in the product; perm[i] = slot of factor i
                fs, j = [], 0
                slots = [None] * n
                order = []
                par = None
                for i, s in enumerate(shp):
                    if i == pos:
                        par = arr(s, 9)
                        fs.append((par, False))
                        order.append(sep + sep)
                    else:
                        x = arr((N,) + s, i)
                        slots[perm[j]] = x
                        order.append(paths[perm[j]].replace(".", sep))
                        fs.append((x, True))
                        j += 1
                data = put(slots)
                want = product(fs)
                leaf_ids = [id(x) for x in lib.leaves(data)]
                natural = [id(x) for x, d in fs if d] == leaf_ids and \
                    pos in (None, 0)
                pos_args = []
                if cn != "bare":
                    pos_args.append(order)
                if natural:
                    pos_args.append(None)
                for po in pos_args:
                    what = f"{cn} order {po} sep {sep} {case}"
                    kw = {"path_order": po, "separator": sep}
                    if case["mode"] == "fixed":
                        mod = M.MatMul(params=par, **kw)
                    elif case["mode"] == "trainable":
                        o = want.shape[1:]
                        mod = M.MatMul(trainable=True, output_shape=o
                                       if len(o) == 2 else o[0], **kw)
                    else:
                        mod = M.MatMul(**kw)
                    mod.compile(lib.key(0), shape_of(data))
                    if case["mode"] == "trainable":
                        p = mod.get_params()
                        ctx.check(p.shape == par.shape,
                                  "trainable matrix of wrong shape",
                                  f"{what}: {p.shape} {par.shape}")
                        mod.set_params(par)
                    close(ctx, ev(mod, data), want, what)
                    ctx.check(tuple(mod.get_output_shape(shape_of(data)))
                              == want.shape[1:], "announced shape", what)
                    ctx.step()
                    ctx.state("matmul", cn, perm, sep, str(po), str(case))


def run_mmshape(case, ctx):
    """every form of output_shape, parameter at every position"""
    n = case["n"]
    for vec in (False, True):
        for pos in range(n + 1):
            shp = chain(n, vec, pos)
            if vec and pos == n and n == 0:
                continue
            out = (shp[0][0],) + (() if vec else (shp[-1][1],))
            dat = [arr((N,) + s, i) for i, s in enumerate(shp) if i != pos]
            order = [str(i) for i in range(n)]
            order.insert(pos, "..")
            first, last = pos == 0, pos == n
            forms = []
            if len(out) == 1:
                forms += [(out[0], True), (out, True),
                          (None, not first)]
                forms += [(out[0] + 1, first), ((out[0] + 1,), first),
                          ((out[0], 2), None)]
            else:
                forms += [(out, True), ((None, out[1]), not first),
                          ((out[0], None), not last),
                          (None, None if last else not first),
                          ((out[0], out[1] + 1), last),
                          ((out[0] + 1, out[1]), first)]
            for f, ok in forms:
                mod = M.MatMul(trainable=True, output_shape=f,
                               path_order=order)
                what = f"chain {shp} parameter at {pos} output_shape {f}"
                ctx.step()
                ctx.state("mmshape", str(shp), pos, str(f))
                if ok is None:
                    continue
                if not ok:
                    expect_error(ctx, lambda: attempt(mod, dat),
                                 "request that does not fit was answered",
                                 what)
                    continue
                got = attempt(mod, dat)
                p = mod.get_params()
                fs = [(d, True) for d in dat]
                fs.insert(pos, (p, False))
                close(ctx, got, product(fs), what, 1e-5)
                if f is not None:
                    ff = (f,) if isinstance(f, int) else f
                    ctx.check(len(got.shape) - 1 == len(ff) and all(
                        a is None or a == b for a, b in zip(
                            ff, got.shape[1:])), "not the requested shape",
                        f"{what}: {got.shape}")


def run_mmwrong(case, ctx):
    n = case["n"]
    order = [str(i) for i in range(n)]
    for pos in [None] + list(range(n + 1)):
        shp = chain(n, False, pos)
        for i in range(len(shp)):
            for c in (0, 1):
                # outer dimensions are free
                if (i == 0 and c == 0) or (i == len(shp) - 1 and c == 1):
                    continue
                for new in (shp[i][c] + 1, 1):
                    s2 = [list(s) for s in shp]
                    s2[i][c] = new
                    dat = [arr((N,) + tuple(s), 1) for k, s in enumerate(s2)
                           if k != pos]
                    po = list(order)
                    kw = {}
                    if pos is not None:
                        po.insert(pos, "..")
                        kw["params"] = arr(tuple(s2[pos]), 2)
                    refused(ctx, lambda: M.MatMul(path_order=po, **kw), dat,
                            f"{s2} parameter {pos}")
                    ctx.state("mmwrong", str(s2), pos)
    if n >= 2:
        dat = [arr((N, 3, 3), i) for i in range(n)]
        vdat = [arr((N, 3), 0)] + dat[1:]
        for d, po in ((dat, order[:-1]), (dat, order + ["0"]),
                      (dat, order + [".."]), (dat, ["x"] + order[1:]),
                      (vdat, order), ([arr((N, 3), 0)] * n, order),
                      ([arr((N, 2, 3, 3), 0)] + dat[1:], order)):
            refused(ctx, lambda: M.MatMul(path_order=po), d, f"{po}")


# ---------------------------------------------------------- rearrangement
def factorizations(size, maxd=3):
    if maxd == 0:
        return [()] if size == 1 else []
    out = [()] if size == 1 else []
    for f in range(1, size + 1):
        if size % f == 0:
            out += [(f,) + r for r in factorizations(size // f, maxd - 1)]
    return sorted(set(out))


def run_reshape(case, ctx):
    size = case["size"]
    fs = factorizations(size)
    for src in fs:
        x = arr((N,) + src, 1)
        # flatten
        if src != ():
            m = pmm.SequentialModel([M.Flatten()])
            m.compile(lib.key(0), src)
            got = m(x, dtype=np.float64)
            ctx.check(lib.exact(got, np.asarray(x).reshape(N, size)) is None,
                      "flatten", f"{src}")
            ctx.step()
        for dst in fs:
            if dst == () or src == ():
                continue
            forms = [dst] + [dst[:k] + (-1,) + dst[k + 1:]
                             for k in range(len(dst))]
            for f in forms:
                mod = M.Reshape(f)
                got = attempt(mod, x)
                want = np.asarray(x).reshape((N,) + dst)
                ctx.step()
                ctx.state("reshape", src, f)
                ctx.check(lib.exact(got, want) is None, "reshape",
                          f"{src} -> {f}: {lib.show(got)}")
                ctx.check(tuple(mod.get_output_shape(src)) == dst,
                          "announced shape", f"{src} {f}")
            for wrong in (dst + (2,), tuple(d + 1 for d in dst),
                          (-1, -1) + dst):
                refused(ctx, lambda: M.Reshape(wrong), x, f"{src}->{wrong}")


def run_reshapetree(case, ctx):
    a, b = arr((N, 2, 6), 1), arr((N, 4), 2)
    for wrap in (lambda u, v: [u, v], lambda u, v: (u, v),
                 lambda u, v: {"z": u, "a": v},
                 lambda u, v: {"z": [u], "a": (v, )}):
        data = wrap(a, b)
        for su in ((12,), (3, 4), (-1, 2), None, (2, 6), (2, 3, 2)):
            for sv in ((4,), (2, 2), (-1,), None, (1, 2, -1)):
                if su is None and sv is None:
                    continue
                mod = M.Reshape(wrap(su, sv))
                got = attempt(mod, data)
                want = wrap(
                    np.asarray(a).reshape((N,) + su) if su else a,
                    np.asarray(b).reshape((N,) + sv) if sv else b)
                ctx.step()
                ctx.state("reshapetree", str(wrap(su, sv)))
                ctx.check(lib.exact(got, want) is None, "reshape of a tree",
                          f"{wrap(su, sv)}")
            refused(ctx, lambda: M.Reshape(wrap(su, (3,))), data,
                    f"{wrap(su, (3,))}")
        refused(ctx, lambda: M.Reshape((-1,)), data, "bare shape for a tree")
        m = pmm.SequentialModel([M.Flatten()])
        m.compile(lib.key(0), lib.shapes(data))
        ctx.check(lib.exact(m(data, dtype=np.float64), wrap(
            np.asarray(a).reshape(N, 12), b)) is None, "flatten tree", "")
        m = pmm.SequentialModel([M.Reshape()])
        m.compile(lib.key(0), lib.shapes(data))
        ctx.check(lib.exact(m(data, dtype=np.float64), data) is None,
                  "reshape without a shape", "")


def run_concat(case, ctx):
    ax = case["ax"]
    base = [(2, 3), (2, 3, 2), (3,), (2, 2)]
    for b in base:
        if ax is not None:
            if not -len(b) <= ax < len(b):
                continue
        for ns in itertools.product((1, 2, 4), repeat=3):
            shps = []
            for n in ns:
                s = list(b)
                s[0 if ax is None else ax] = n
                shps.append(tuple(s))
            xs = [arr((N,) + s, i) for i, s in enumerate(shps)]
            for cn, put, paths in MMTREE[3]:
                data = put(xs)
                for perm in [None] + list(itertools.permutations(range(3))) \
                        + [(0,), (2, 1), (1, 1, 0)]:
                    if ns != (1, 2, 4) and (perm is not None
                                            or cn == "deep"):
                        continue
                    seps = (".", "/") if perm else (".",)
                    for sep in seps:
                        po = None if perm is None else [
                            paths[i].replace(".", sep) for i in perm]
                        if po is not None and len(po) == 2:
                            po = tuple(po)
                        sel = lib.leaves(data) if perm is None else [
                            xs[i] for i in perm]
                        if ax is None:
                            want = np.concatenate(
                                [np.asarray(x).reshape(N, -1) for x in sel],
                                -1)
                        else:
                            want = np.concatenate(
                                [np.asarray(x) for x in sel],
                                ax + 1 if ax >= 0 else ax)
                        mod = M.ConcatenateLeaves(axis=ax, path_order=po,
                                                  separator=sep)
                        got = attempt(mod, data)
                        ctx.step()
                        ctx.state("concat", ax, b, ns, cn, str(po))
                        ctx.check(lib.exact(got, want) is None,
                                  "concatenation", f"{shps} axis {ax} order "
                                  f"{po}: {lib.show(got)}")
                        ctx.check(tuple(mod.get_output_shape(
                            lib.shapes(data))) == want.shape[1:],
                            "announced shape", f"{shps} {ax} {po}")


def run_concatbad(case, ctx):
    x, y, z = arr((N, 2, 3), 0), arr((N, 2, 4), 1), arr((N, 3), 2)
    for data, kw in (([x, y], {"axis": 0}), ([x, z], {"axis": 1}),
                     ([x, z], {"axis": 0}), ([x, z], {"axis": -1}),
                     ([x, x], {"axis": 2}), ([x, x], {"axis": -3}),
                     ([x, x], {"axis": -4}), ([z, z], {"axis": 1}),
                     ([z, z], {"axis": -2}),
                     ([x, x], {"path_order": ["0", "2"]}),
                     ([x, x], {"path_order": ["0", "a"]}),
                     ({"a": [x, x]}, {"path_order": ["a"]}),
                     ([x, x], {"path_order": ["0.1"]})):
        refused(ctx, lambda: M.ConcatenateLeaves(**kw), data,
                f"{lib.shapes(data)} {kw}")
        ctx.state("concatbad", str(lib.shapes(data)), str(kw))


def run_treekey(case, ctx):
    x, y, z, w = (arr((N, k + 1), k) for k in range(4))
    trees = [
        ({"a": [x, {"b": y}], "c": (z, w)},
         {"a": [x, {"b": y}], "c": (z, w), "a/0": x, "a/1": {"b": y},
          "a/1/b": y, "c/0": z, "c/1": w}),
        ([x, (y, {"0": z}), w],
         {"0": x, "1": (y, {"0": z}), "1/0": y, "1/1": {"0": z},
          "1/1/0": z, "2": w}),
    ]
    for data, table in trees:
        keys = sorted(table)
        for sep in (".", "/", "::"):
            def kp(k):
                return k.replace("/", sep)
            forms = []
            for k in keys:
                forms.append((kp(k), table[k]))
                forms.append(([kp(k)], [table[k]]))
            for k1 in keys:
                for k2 in keys:
                    forms.append(({"q": kp(k1), "p": kp(k2)},
                                  {"q": table[k1], "p": table[k2]}))
                    forms.append(((kp(k1), [kp(k2)]),
                                  (table[k1], [table[k2]])))
            for f, want in forms:
                mod = M.TreeKey(f, separator=sep)
                got = attempt(mod, data)
                ctx.step()
                ctx.state("treekey", str(f))
                ctx.check(lib.exact(got, want) is None, "wrong part selected",
                          f"{f}: {lib.show(got)}")
                ctx.check(lib.struct(mod.get_output_shape(lib.shapes(data)))
                          == lib.struct(lib.shapes(want)), "announced shape",
                          f"{f}")
            for bad in ("zz", "9", "a" + sep + "7", "1" + sep + "x",
                        ["0" if isinstance(data, list) else "a", "nope"]):
                refused(ctx, lambda: M.TreeKey(bad, separator=sep), data,
                        f"{bad}")
        got = attempt(M.TreeKey(), data)
        ctx.check(lib.exact(got, data) is None, "no path", "")


def run_treeflatten(case, ctx):
    x, y, z = (arr((N, k + 1), k) for k in range(3))
    for data, want in ((x, [x]), ([x, y], [x, y]), ((y, x), [y, x]),
                       ({"b": x, "a": y}, [y, x]),
                       ({"b": [x, (y,)], "a": z}, [z, x, y]),
                       ([[[x]], {"z": y, "k": z}], [x, z, y])):
        m = pmm.SequentialModel([M.TreeFlatten()])
        m.compile(lib.key(0), lib.shapes(data))
        got = m(data, dtype=np.float64)
        ctx.step()
        ctx.state("treeflatten", str(lib.shapes(data)))
        ctx.check(lib.exact(got, want) is None, "tree flattening",
                  lib.show(got))


BSHAPES = [(3,), (2, 2), (1,), [(2,), (2, 3)], {"b": (2,), "a": (3,)},
           ((2,), {"z": [(1, 2)], "a": (2,)}), {"b": (2,), "a": (2,)}]


def run_bias(case, ctx):
    dt = np.float64 if case["real"] else np.complex128
    for shape in BSHAPES:
        c = itertools.count()
        X = jax.tree.map(lambda s: arr((N,) + s, next(c), dt), shape,
                         is_leaf=lib.is_shape)
        B = jax.tree.map(lambda s: arr(s, 3 + next(c), dt), shape,
                         is_leaf=lib.is_shape)
        runs = []
        kw = dict(real=case["real"], scalar=case["scalar"])
        if case["scalar"]:
            v = 1.25 if case["real"] else 1.25 - .5j
            runs.append((M.Bias(v, **kw), jax.tree.map(lambda x: x + v, X)))
            m = M.Bias(**kw)
            m.compile(lib.key(0), shape)
            ctx.check(m.get_params().shape == (1,), "scalar bias", "")
            m.set_params(jnp.asarray([v], dt))
            runs.append((m, jax.tree.map(lambda x: x + v, X)))
        else:
            want = jax.tree.map(lambda x, b: x + b, X, B)
            runs.append((M.Bias(B, **kw), want))
            m = M.Bias(**kw)
            m.compile(lib.key(0), shape)
            ctx.check(lib.struct(m.get_params()) == lib.struct(B) and [
                p.shape for p in lib.leaves(m.get_params())] == [
                    b.shape for b in lib.leaves(B)], "bias shapes",
                f"{shape}")
            m.set_params(B)
            runs.append((m, want))
            one = arr((1,), 2, dt)
            runs.append((M.Bias(one, **kw),
                         jax.tree.map(lambda x: x + one, X)))
            lf = {b.shape for b in lib.leaves(B)}
            if len(lf) == 1:
                b0 = lib.leaves(B)[0]
                runs.append((M.Bias(b0, **kw),
                             jax.tree.map(lambda x: x + b0, X)))
            # wrong shapes
            L, st = jax.tree.flatten(B)
            for i in range(len(L)):
                bad = list(L)
                bad[i] = arr(L[i].shape + (2,), 1, dt)
                refused(ctx, lambda: M.Bias(jax.tree.unflatten(st, bad),
                                            **kw), X, f"{shape} leaf {i}")
        for m, want in runs:
            got = attempt(m, X, shape)
            ctx.step()
            ctx.check(lib.same(got, want) is None, "bias",
                      f"{shape} {case}: {lib.same(got, want)}")
        ctx.state("bias", str(shape), str(case))


def run_const(case, ctx):
    dt = np.float64 if case["real"] else np.complex128
    X = {"a": arr((N, 3), 1), "b": arr((N, 2), 2)}
    for shape in BSHAPES + [()]:
        c = itertools.count()
        C = jax.tree.map(lambda s: arr(s, next(c), dt), shape,
                         is_leaf=lib.is_shape)
        want = jax.tree.map(lambda x: np.stack([np.asarray(x)] * N), C)
        mods = [M.Constant(C), M.Constant(C, trainable=True)]
        m = M.Constant(shape=shape, trainable=True, real=case["real"])
        m.compile(lib.key(0), lib.shapes(X))
        ctx.check([p.shape for p in lib.leaves(m.get_params())] == [
            x.shape for x in lib.leaves(C)], "constant shapes", f"{shape}")
        ctx.check(all(jnp.iscomplexobj(p) != case["real"]
                      for p in lib.leaves(m.get_params())), "number type",
                  f"{shape}")
        m.set_params(C)
        mods.append(m)
        for mod in mods:
            for data in (X, X["a"]):
                mod.compile(lib.key(0), lib.shapes(data))
                got = ev(mod, data)
                ctx.step()
                ctx.check(lib.same(got, want) is None, "constant",
                          f"{shape}: {lib.same(got, want)}")
        ctx.state("const", str(shape), str(case))
    v = 2.5 if case["real"] else 2.5j
    got = attempt(M.Constant(v), X)
    ctx.check(lib.same(got, np.full((N,), v)) is None, "scalar constant",
              lib.show(got))
    refused(ctx, lambda: M.Constant(), X, "no constant")


def run_linear(case, ctx):
    acts = {None: lambda x: x, "ReLU": lambda x: np.maximum(x, 0),
            "Tanh": np.tanh}
    for shape in ((3,), (2, 2), (1,), (2, 1, 3), {"q": (3,)}, [(2, 2)]):
        for out in (1, 2, 4):
            c = itertools.count(3)
            m = M.LinearNN(out_features=out, bias=case["bias"],
                           activation=getattr(M, case["act"])()
                           if case["act"] else None)
            m.compile(lib.key(0), shape)
            X = jax.tree.map(lambda s: arr((N,) + s, 1), shape,
                             is_leaf=lib.is_shape)
            par = jax.tree.map(lambda p: arr(p.shape, next(c)),
                               m.get_params())
            m.set_params(par)
            ps = lib.leaves(par)
            W = [p for p in ps if p.ndim == 2]
            b = [p for p in ps if p.ndim == 1]
            ctx.check(len(W) == 1 and len(b) == int(case["bias"])
                      and len(ps) == len(W) + len(b),
                      "parameters of a linear layer",
                      str([p.shape for p in ps]))
            x = np.asarray(lib.leaves(X)[0]).reshape(N, -1)
            ctx.check(W[0].shape == (out, x.shape[1]), "weight shape",
                      str(W[0].shape))
            want = x @ np.asarray(W[0]).T
            if b:
                want = want + np.asarray(b[0])
            want = acts[case["act"]](want)
            got = m(X, dtype=np.float64)
            ctx.step()
            ctx.state("linear", str(shape), out, str(case))
            ctx.check(lib.same(got, want) is None, "linear layer",
                      f"{shape} {out} {case}: {lib.same(got, want)}")
    expect_error(ctx, lambda: M.LinearNN().compile(lib.key(0), (3,)),
                 "no number of features")
    expect_error(ctx, lambda: M.LinearNN(2).compile(lib.key(0),
                                                    [(3,), (3,)]),
                 "two inputs")
