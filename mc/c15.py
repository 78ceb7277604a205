"""C15: path addressing and tree operations.

Path operations: every container up to the bound x every path over a small
alphabet of segments x every separator, against a walk over the list of
segments (reading), functional replacement (writing) and recursive insertion
(extending).  Array operations: every tree of the set x every size, axis,
dtype, against the same operation on each leaf done with numpy.
"""
import copy
import itertools
import warnings

from .core import expect_error
from .lib import *  # noqa: F401,F403
from .lib import jax, jnp, np, same, exact, host, struct, leaves, grid, show

from parametricmatrixmodels import tree_util as T

ID = "C15"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of trees, paths, separators and array "
             "operations on the real functions against a functional "
             "reference model of nested containers")
RULE = ("a state is one (tree, operation arguments) point; a transition is "
        "one call of a tree_util function compared with the reference")
ASSUMPTIONS = [
    "containers are lists, tuples and dictionaries with string keys",
    "arrays are jax arrays; reference results come from numpy on each leaf",
]
BOUNDS = {
    "quick": "all trees of depth<=2 and width<=2 plus depth-3 chains with a "
             "leaf sibling; all paths of <=3 segments over 6 segments (4 "
             "below depth 3 in thorough); separators '.', '/', '::'; "
             "extension by every single path of <=3 segments and every pair "
             "of paths of <=2 segments; splits N<=5",
    "thorough": "as quick with paths of <=4 segments, pairs of paths of <=3 "
                "segments, splits N<=8, all dtypes pairs",
}

SEPS = [".", "/", "::"]
SEGS = ["a", "0", "1", "2", "-1", "b"]


# ------------------------------------------------------------- tree shapes
def shapes_of(depth):
    """Tree skeletons as nested descriptors: 'x' leaf, (kind, children)."""
    if depth == 0:
        return ["x"]
    sub = shapes_of(depth - 1)
    out = ["x"]
    for k in ("l", "t"):
        out += [(k, (s,)) for s in sub]
        out += [(k, (s, u)) for s in sub for u in sub]
    out += [("d:a", (s,)) for s in sub]
    out += [("d:0", (s,)) for s in sub]
    out += [("d:a,0", (s, u)) for s in sub for u in sub]
    return out


def chains3():
    out = []
    for s in shapes_of(2):
        if s == "x":
            continue
        out += [("l", (s,)), ("l", ("x", s)), ("t", (s, "x")), ("t", (s,)),
                ("d:a", (s,)), ("d:0,a", (s, "x"))]
    return out


EXTRA = [("l", ()), ("t", ()), ("d:", ()), ("l", (("d:", ()), ("t", ()))),
         ("d:a", (("l", ()),)), ("t", (("l", ()), "x")),
         ("t", (("t", (("t", ("x",)),)),))]


def build(desc, counter=None):
    counter = counter if counter is not None else itertools.count(100)
    if desc == "x":
        return next(counter)
    k, ch = desc
    kids = [build(c, counter) for c in ch]
    if k == "l":
        return kids
    if k == "t":
        return tuple(kids)
    names = [n for n in k[2:].split(",") if n]
    return dict(zip(names, kids))


def _detuple(d):
    return d if d == "x" else (d[0], tuple(_detuple(c) for c in d[1]))


class Missing(Exception):
    pass


def ref_get(node, segs, is_leaf=None):
    """-> (node, remaining segments) or raises Missing; 'remaining' is only
    non-empty when a leaf was reached early."""
    for i, s in enumerate(segs):
        if is_leaf is not None and is_leaf(node):
            return node, segs[i:]
        if isinstance(node, dict):
            if s not in node:
                raise Missing
            node = node[s]
        elif isinstance(node, (list, tuple)):
            if not s.isdigit() or int(s) >= len(node):
                raise Missing
            node = node[int(s)]
        else:
            return node, segs[i:]
    return node, []


def ref_set(node, segs, v):
    """Functional replacement; raises Missing when it must be refused."""
    s = segs[0]
    last = len(segs) == 1
    if isinstance(node, dict):
        if last:
            return {**node, s: v}
        if s not in node:
            raise Missing
        return {**node, s: ref_set(node[s], segs[1:], v)}
    if isinstance(node, (list, tuple)):
        if not s.isdigit() or int(s) >= len(node):
            raise Missing
        if last and isinstance(node, tuple):
            raise Missing
        new = list(node)
        new[int(s)] = v if last else ref_set(node[int(s)], segs[1:], v)
        return type(node)(new)
    raise Missing


ABSENT = object()


class Either(Exception):
    """The reference leaves the outcome open."""


def ref_ins(node, segs, fill, plist, pre=()):
    """plist: all paths to be added - a new branch is a list if all the paths
    that lead through it use integers there, else a dictionary"""
    def sub(n):
        return ref_ins(n, segs[1:], fill, plist, pre + (segs[0],))
    if node is ABSENT:
        if not segs:
            return fill
        s = segs[0]
        if all(q[len(pre)].isdigit() for q in plist
               if len(q) > len(pre) and tuple(q[:len(pre)]) == pre):
            return [None] * int(s) + [sub(ABSENT)]
        return {s: sub(ABSENT)}
    if not segs:
        if fill is None or (type(node) is type(fill) and node == fill):
            return node
        raise Missing
    s = segs[0]
    if isinstance(node, dict):
        if s in node and node[s] is None:
            if len(segs) > 1 or fill is not None:
                raise Either
            return node
        return {**node, s: sub(node[s] if s in node else ABSENT)}
    if isinstance(node, (list, tuple)):
        if not s.isdigit():
            raise Missing
        i = int(s)
        new = list(node) + [None] * (i + 1 - len(node))
        new[i] = sub(ABSENT if new[i] is None else new[i])
        return type(node)(new)
    raise Missing


def strict_eq(a, b):
    """Equal including container types and dictionary key sets."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(
            strict_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(
            strict_eq(x, y) for x, y in zip(a, b))
    return a == b


def paths(n):
    for k in range(1, n + 1):
        yield from (list(p) for p in itertools.product(SEGS, repeat=k))


# ------------------------------------------------------------------- cases
ATREES = ["single", "list", "tuple", "dict", "nested"]


def cases(tier):
    out = []
    th = tier == "thorough"
    for depth, descs in ((2, shapes_of(2) + EXTRA), (3, chains3())):
        for i in range(0, len(descs), 40):
            blk = descs[i:i + 40]
            out.append({"k": "path", "d": blk, "n": 4 if th else 3})
            out.append({"k": "set", "d": blk, "n": 4 if th else 3})
            out.append({"k": "leafpred", "d": blk})
            out.append({"k": "ext1", "d": blk, "n": 4 if th else 3})
    descs = shapes_of(2) + EXTRA
    for i in range(0, len(descs), 20):
        out.append({"k": "ext2", "d": descs[i:i + 20], "n": 3 if th else 2})
    out.append({"k": "extnone"})
    N = 8 if th else 5
    for t in ATREES:
        for n in range(1, N + 1):
            out.append({"k": "split", "t": t, "n": n})
            out.append({"k": "perm", "t": t, "n": n,
                        "keys": 12 if th else 4})
        out.append({"k": "perms", "t": t})
        for ax in (0, 1, -1):
            out.append({"k": "concat", "t": t, "ax": ax})
        for d1 in DT:
            out.append({"k": "cast", "t": t, "d": d1})
        out.append({"k": "arith", "t": t})
        out.append({"k": "equal", "t": t})
    out.append({"k": "shapes"})
    out.append({"k": "mutable", "d": shapes_of(2) + EXTRA})
    return out


DT = ["float32", "float64", "complex64", "complex128", "int32", "int64",
      "bool"]


def run(case, ctx):
    globals()["run_" + case["k"]](case, ctx)


def descs_of(case):
    return [_detuple(d) for d in case["d"]]


# ----------------------------------------------------------------- reading
def run_path(case, ctx):
    for d in descs_of(case):
        tree = build(d)
        keep = copy.deepcopy(tree)
        for sep in SEPS:
            ctx.check(T.getitem_by_strpath(tree, "", separator=sep) is tree,
                      "empty path is not the tree", d)
            for segs in paths(case["n"]):
                p = sep.join(segs)
                ctx.step()
                try:
                    want, rest = ref_get(tree, segs)
                except Missing:
                    for kw in ({}, {"allow_early_return": True},
                               {"return_remainder": True}):
                        expect_error(
                            ctx, lambda: T.getitem_by_strpath(
                                tree, p, separator=sep, **kw),
                            "a path that does not exist was read",
                            f"{tree} {p!r} {kw}",
                            (KeyError, IndexError, TypeError, ValueError))
                    continue
                if rest:
                    expect_error(
                        ctx, lambda: T.getitem_by_strpath(
                            tree, p, separator=sep),
                        "a path beyond a leaf was read", f"{tree} {p!r}",
                        (KeyError, IndexError, TypeError, ValueError))
                else:
                    ctx.trace()
                    got = T.getitem_by_strpath(tree, p, separator=sep)
                    ctx.check(got is want, "wrong part read",
                              f"{tree} {p!r}: {got}")
                    got, r = T.getitem_by_strpath(
                        tree, p, separator=sep, return_remainder=True)
                    ctx.check(got is want and r == "", "wrong remainder",
                              f"{tree} {p!r}: {got} {r!r}")
                got = T.getitem_by_strpath(tree, p, separator=sep,
                                           allow_early_return=True)
                ctx.check(got is want, "wrong part on early return",
                          f"{tree} {p!r}: {got}")
                got, r = T.getitem_by_strpath(
                    tree, p, separator=sep, allow_early_return=True,
                    return_remainder=True)
                ctx.check(got is want and r == sep.join(rest),
                          "wrong remainder", f"{tree} {p!r}: {got} {r!r}")
        ctx.check(strict_eq(tree, keep), "reading modified the tree", d)
        ctx.state("path", d)
        # keys that contain another separator are ordinary keys
        for sep in SEPS:
            other = "x.y" if sep != "." else "x/y"
            w = {other: tree}
            ctx.check(T.getitem_by_strpath(w, other, separator=sep) is tree,
                      "key containing another separator", other)


def run_leafpred(case, ctx):
    """is_leaf stops the descent."""
    preds = {"dict": lambda o: isinstance(o, dict),
             "list": lambda o: isinstance(o, list),
             "tuple": lambda o: isinstance(o, tuple)}
    for d in descs_of(case):
        tree = build(d)
        for nm, pred in preds.items():
            for segs in paths(2):
                p = "/".join(segs)
                ctx.step()
                try:
                    want, rest = ref_get(tree, segs, pred)
                except Missing:
                    continue
                got, r = T.getitem_by_strpath(
                    tree, p, separator="/", allow_early_return=True,
                    return_remainder=True, is_leaf=pred)
                ctx.check(got is want and r == "/".join(rest),
                          "is_leaf not respected",
                          f"{tree} {p!r} {nm}: {got} {r!r}")
                if rest:
                    expect_error(
                        ctx, lambda: T.getitem_by_strpath(
                            tree, p, separator="/", is_leaf=pred),
                        "path below a declared leaf was read",
                        f"{tree} {p!r} {nm}")
                    t2 = copy.deepcopy(tree)
                    expect_error(
                        ctx, lambda: T.setitem_by_strpath(
                            t2, p, -1, separator="/", is_leaf=pred),
                        "path below a declared leaf was written",
                        f"{tree} {p!r} {nm}")
                    ctx.check(strict_eq(t2, tree),
                              "refused write changed the tree", p)
        ctx.state("pred", d)


# ----------------------------------------------------------------- writing
def run_set(case, ctx):
    for d in descs_of(case):
        tree = build(d)
        for sep in SEPS:
            expect_error(ctx, lambda: T.setitem_by_strpath(
                copy.deepcopy(tree), "", -1, separator=sep),
                "empty path written", d)
            for segs in paths(case["n"]):
                p = sep.join(segs)
                ctx.step()
                t2 = copy.deepcopy(tree)
                try:
                    want = ref_set(tree, segs, -7)
                except Missing:
                    expect_error(
                        ctx, lambda: T.setitem_by_strpath(
                            t2, p, -7, separator=sep),
                        "write to a path that cannot be written succeeded",
                        f"{tree} {p!r}",
                        (KeyError, IndexError, TypeError, ValueError))
                    ctx.check(strict_eq(t2, tree),
                              "refused write changed the tree",
                              f"{tree} -> {t2}, {p!r}")
                    continue
                ctx.trace()
                T.setitem_by_strpath(t2, p, -7, separator=sep)
                ctx.check(strict_eq(t2, want), "write changed the wrong part",
                          f"{tree} {p!r}: {t2}, expected {want}")
        ctx.state("set", d)


# --------------------------------------------------------------- extending
def extend_case(ctx, tree, sep, plist, fills, fill_arg):
    p = [sep.join(s) for s in plist]
    base = copy.deepcopy(tree)
    try:
        want = tree
        if want is None:
            want = [] if all(s[0].isdigit() for s in plist) else {}
        for s, f in zip(plist, fills):
            want = ref_ins(want, list(s), f, plist)
    except Missing:
        expect_error(ctx, lambda: T.extend_structure_from_strpaths(
            base, p, separator=sep, fill_values=fill_arg),
            "conflicting extension accepted", f"{tree} {p} {fill_arg}",
            (KeyError, IndexError, TypeError, ValueError))
        ctx.outcome("extension refused")
        return
    except Either:
        ctx.outcome("extension open")
        return
    ctx.trace()
    got = T.extend_structure_from_strpaths(
        base, p, separator=sep, fill_values=fill_arg)
    ctx.check(strict_eq(got, want), "wrong extension",
              f"{tree} {p} {fill_arg}: {got}, expected {want}")


def run_ext1(case, ctx):
    segs = ["a", "0", "1", "2"]
    for d in descs_of(case):
        tree = build(d)
        for sep in SEPS:
            for k in range(1, case["n"] + 1):
                for s in itertools.product(segs, repeat=k):
                    for fills, arg in (([7], 7), ([7], [7]), ([7], (7,)),
                                       ([None], None)):
                        ctx.step()
                        extend_case(ctx, tree, sep, [s], fills, arg)
        ctx.state("ext1", d)


def run_ext2(case, ctx):
    segs = ["a", "0", "1"]
    ps = [s for k in range(1, case["n"] + 1)
          for s in itertools.product(segs, repeat=k)]
    for d in descs_of(case):
        tree = build(d)
        for s1 in ps:
            for s2 in ps:
                for fills, arg in (([7, 8], [7, 8]), ([7, 7], 7),
                                   ([None, None], None)):
                    ctx.step()
                    extend_case(ctx, tree, ".", [s1, s2], fills, arg)
        ctx.state("ext2", d)
        expect_error(ctx, lambda: T.extend_structure_from_strpaths(
            copy.deepcopy(tree), ["z"], fill_values=[1, 2]),
            "wrong number of fill values accepted", tree)


def run_extnone(case, ctx):
    segs = ["a", "0", "1", "b"]
    ps = [s for k in range(1, 4) for s in itertools.product(segs, repeat=k)]
    for s1 in ps:
        for sep in SEPS:
            for fills, arg in (([7], 7), ([None], None)):
                ctx.step()
                extend_case(ctx, None, sep, [s1], fills, arg)
        for s2 in ps:
            for fills, arg in (([7, 8], (7, 8)), ([7, 7], 7)):
                ctx.step()
                extend_case(ctx, None, ".", [s1, s2], fills, arg)
        ctx.state("extnone", s1)


def run_mutable(case, ctx):
    def ref(n):
        if isinstance(n, dict):
            return {k: ref(v) for k, v in n.items()}
        if isinstance(n, (list, tuple)):
            return [ref(v) for v in n]
        return n
    for d in descs_of(case):
        tree = build(d)
        keep = copy.deepcopy(tree)
        got = T.make_mutable(tree)
        ctx.step()
        ctx.check(strict_eq(got, ref(tree)), "make_mutable", f"{tree}: {got}")
        ctx.check(strict_eq(tree, keep), "make_mutable changed its argument",
                  f"{keep}: {tree}")
        ctx.state("mut", d)


# ------------------------------------------------------------ array trees
def atree(kind, f):
    """f(i) builds leaf i."""
    if kind == "single":
        return f(0)
    if kind == "list":
        return [f(0), f(1)]
    if kind == "tuple":
        return (f(0), f(1))
    if kind == "dict":
        return {"b": f(0), "a": f(1)}
    return {"y": [f(0), (f(1),)], "x": f(2)}


TRAIL = [(2,), (), (3, 2)]


def rows(n, i, dtype=np.float64):
    shp = (n,) + TRAIL[i % 3]
    v = (np.arange(int(np.prod(shp))) + 1000 * i + 1).reshape(shp)
    return jnp.asarray(v, dtype=dtype)


def mixed(n, i):
    return rows(n, i, [np.float32, np.complex128, np.int32][i % 3])


def frozen(tree):
    return jax.tree.map(lambda x: np.array(x), tree)


def unchanged(ctx, tree, keep, what):
    ctx.check(exact(tree, keep) is None, f"{what} modified its argument",
              lambda: exact(tree, keep))


def run_split(case, ctx):
    n = case["n"]
    for ax in (0, 1, -1):
        def leaf(i):
            if ax == 0:
                return mixed(n, i)
            if ax == 1:
                shp = (2, n) + TRAIL[i % 3]
            else:
                shp = TRAIL[i % 3] + (n,)
            v = np.arange(int(np.prod(shp))).reshape(shp) + 100 * i
            return jnp.asarray(v, [np.float32, np.complex128, np.int32][i])
        tree = atree(case["t"], leaf)
        keep = frozen(tree)
        for size in range(1, n + 2):
            nb = n // size
            rem = n - nb * size
            parts, rest = T.pytree_split(tree, size, axis=ax)
            ctx.step()
            ctx.state("split", case["t"], n, ax, size)
            want = jax.tree.map(
                lambda x: np.stack([np.take(
                    np.array(x), range(b * size, (b + 1) * size), axis=ax)
                    for b in range(nb)]) if nb else np.zeros(
                        (0,) + np.take(np.array(x), [0] * size,
                                       axis=ax).shape, x.dtype), tree)
            ctx.check(exact(parts, want) is None, "wrong parts", lambda:
                      f"n={n} size={size} axis={ax}: {exact(parts, want)}")
            if rem == 0:
                ctx.check(rest is None, "remainder of an even split",
                          f"n={n} size={size} axis={ax}: {show(rest)}")
            else:
                wr = jax.tree.map(lambda x: np.take(
                    np.array(x), range(nb * size, n), axis=ax), tree)
                ctx.check(rest is not None and exact(rest, wr) is None,
                          "wrong remainder", lambda:
                          f"n={n} size={size} axis={ax}: {show(rest)}")
            for b in range(nb):
                one = T.batch_leaves(tree, size, b, axis=ax)
                wo = jax.tree.map(lambda x: np.take(
                    np.array(x), range(b * size, (b + 1) * size), axis=ax),
                    tree)
                ctx.step()
                ctx.check(exact(one, wo) is None, "wrong batch", lambda:
                          f"n={n} size={size} b={b} axis={ax}")
                if size > 1:
                    one = T.batch_leaves(tree, size, b, length=size - 1,
                                         axis=ax)
                    wo = jax.tree.map(lambda x: np.take(
                        np.array(x), range(b * size, (b + 1) * size - 1),
                        axis=ax), tree)
                    ctx.check(exact(one, wo) is None,
                              "wrong batch of given length", lambda:
                              f"n={n} size={size} b={b} axis={ax}")
            ctx.trace()
        unchanged(ctx, tree, keep, "split")


def perm_of(new, old):
    """The permutation p with new[k] == old[p[k]] (rows distinct)."""
    out = []
    for r in new:
        m = [j for j, o in enumerate(old) if np.array_equal(r, o)]
        if len(m) != 1:
            return None
        out.append(m[0])
    return tuple(out)


def run_perm(case, ctx):
    n = case["n"]
    tree = atree(case["t"], lambda i: mixed(n, i))
    keep = frozen(tree)
    for k in range(case["keys"]):
        got = T.random_permute_leaves(tree, key(k))
        ctx.step()
        ctx.state("perm", case["t"], n, k)
        ctx.check(struct(got) == struct(tree), "structure", struct(got))
        ps = [perm_of(np.array(a), np.array(b))
              for a, b in zip(leaves(got), leaves(tree))]
        ctx.check(all(p is not None and sorted(p) == list(range(n))
                      for p in ps), "not a permutation", f"{ps}")
        ctx.check(len(set(ps)) == 1, "arrays permuted differently", f"{ps}")
        again = T.random_permute_leaves(tree, key(k))
        ctx.check(exact(again, got) is None, "same key, other permutation")
        for ia in (False, True):
            for il in (False, True):
                g = T.random_permute_leaves(
                    tree, key(k), independent_arrays=ia,
                    independent_leaves=il)
                ctx.step()
                ctx.check(struct(g) == struct(tree), "structure", struct(g))
                for a, b in zip(leaves(g), leaves(tree)):
                    a, b = np.array(a), np.array(b)
                    ctx.check(a.dtype == b.dtype and a.shape == b.shape,
                              "dtype or shape changed", "")
                    ok = np.array_equal(np.sort(a, 0), np.sort(b, 0))
                    if not ia:
                        p = perm_of(a, b)
                        ok = p is not None and sorted(p) == list(range(n))
                    ctx.check(ok, "not a permutation of the rows",
                              f"{a} {b}")
    if n >= 2:
        # along another axis
        def leaf(i):
            return jnp.asarray(np.arange(2 * n).reshape(2, n) + 50 * i)
        tree1 = atree(case["t"], leaf)
        for k in range(case["keys"]):
            got = T.random_permute_leaves(tree1, key(k), axis=1)
            ps = [perm_of(np.array(a).T, np.array(b).T)
                  for a, b in zip(leaves(got), leaves(tree1))]
            ctx.check(len(set(ps)) == 1 and ps[0] is not None and
                      sorted(ps[0]) == list(range(n)),
                      "columns not permuted together", f"{ps}")
            ctx.step()
    unchanged(ctx, tree, keep, "permuting")
    ctx.trace()


def run_perms(case, ctx):
    """Different keys permute differently; independent leaves differ."""
    tree = atree(case["t"], lambda i: rows(5, i))
    seen = set()
    for k in range(8):
        got = T.random_permute_leaves(tree, key(k))
        seen.add(perm_of(np.array(leaves(got)[0]), np.array(leaves(tree)[0])))
        ctx.step()
    ctx.check(len(seen) > 1, "the key has no influence", f"{seen}")
    if case["t"] != "single":
        diff = False
        for k in range(8):
            got = T.random_permute_leaves(tree, key(k),
                                          independent_leaves=True)
            ps = {perm_of(np.array(a), np.array(b))
                  for a, b in zip(leaves(got), leaves(tree))}
            diff = diff or len(ps) > 1
        ctx.check(diff, "independent leaves are permuted alike", "")
    ctx.trace()
    ctx.state("perms", case["t"])


def run_concat(case, ctx):
    ax = case["ax"]

    def tr(n, s):
        def leaf(i):
            shp = list([(4, 3), (4, 3, 2), (2, 3)][i])
            shp[ax] = n
            v = np.arange(int(np.prod(shp))).reshape(shp) + s + 10 * i
            return jnp.asarray(v, [np.float32, np.complex128, np.int32][i])
        return atree(case["t"], leaf)
    for ns in [p for k in (1, 2, 3)
               for p in itertools.product((1, 2, 3), repeat=k)]:
        ts = [tr(n, 1000 * j) for j, n in enumerate(ns)]
        keep = [frozen(t) for t in ts]
        ctx.step()
        ctx.state("concat", case["t"], ax, ns)
        want = jax.tree.map(
            lambda *ls: np.concatenate([np.array(x) for x in ls], axis=ax),
            *ts)
        for arg in (list(ts), tuple(ts)):
            got = T.concatenate(arg, axis=ax)
            ctx.check(exact(got, want) is None, "wrong concatenation",
                      lambda: f"{ns} axis {ax}: {exact(got, want)}")
        for t, k in zip(ts, keep):
            unchanged(ctx, t, k, "concatenate")
    expect_error(ctx, lambda: T.concatenate([], axis=ax),
                 "concatenating nothing")
    ctx.trace()


def run_cast(case, ctx):
    src = np.dtype(case["d"])
    for i in range(4):
        def leaf(j):
            v = np.array([[0, 1, -2], [3, 4, 1]])
            if src.kind == "c":
                v = v + 1j * (v - 1)
            elif src.kind == "f":
                v = v + 0.25
            x = jnp.asarray(v, src)
            if i == 1 and j == 0:
                x = jnp.asarray(v.real, np.float32)   # mixed tree
            if i == 2:
                x = x[:, 0]
            if i == 3:
                x = x.reshape(-1)[:0]
            return x
        tree = atree(case["t"], leaf)
        keep = frozen(tree)
        for dst in DT:
            dst = np.dtype(dst)
            ctx.step()
            ctx.state("cast", case["t"], src, dst, i)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                want = jax.tree.map(lambda x: np.array(x).astype(dst), tree)
                got = T.astype(tree, dst)
                ctx.check(exact(got, want) is None, "astype", lambda:
                          f"{src}->{dst}: {exact(got, want)}")
                cplx = any(x.dtype.kind == "c" for x in leaves(tree))
                if any(x.dtype.kind == "b" for x in leaves(tree)):
                    continue     # safecast is declared for numbers only
                if cplx and dst.kind != "c":
                    if dst.kind == "b":
                        continue
                    expect_error(ctx, lambda: T.safecast(tree, dst),
                                 "cast that discards imaginary parts",
                                 f"{src}->{dst}", ValueError)
                elif dst.kind != "b":
                    got = T.safecast(tree, dst)
                    ctx.check(exact(got, want) is None, "safecast", lambda:
                              f"{src}->{dst}: {exact(got, want)}")
        unchanged(ctx, tree, keep, "casting")
    ctx.trace()


def run_arith(case, ctx):
    for kind in ("f", "c", "i"):
        def leaf(i, s=0):
            shp = [(2, 3), (), (4,)][i]
            n = int(np.prod(shp)) if shp else 1
            v = (np.arange(n) * 3 + 2 * i + s) % 7 - 2.5
            if kind == "f":
                return jnp.asarray(v.reshape(shp))
            if kind == "c":
                return jnp.asarray((v + 1j * (v[::-1] + 1)).reshape(shp))
            return jnp.asarray(np.floor(v).reshape(shp) + 1, np.int64)
        A = atree(case["t"], leaf)
        B = atree(case["t"], lambda i: leaf(i, 5) + (
            10 if kind == "i" else 0))
        ka, kb = frozen(A), frozen(B)

        def cmp(name, got, f, *ts):
            ctx.step()
            ctx.state("arith", name, case["t"], kind)
            with np.errstate(all="ignore"):
                want = jax.tree.map(lambda *x: f(*map(np.array, x)), *ts)
            d = same(got, want, 1e-12, 1e-12)
            ctx.check(d is None, f"{name} differs", d)

        cmp("add", T.add(A, B), lambda x, y: x + y, A, B)
        cmp("sub", T.sub(A, B), lambda x, y: x - y, A, B)
        cmp("mul", T.mul(A, B), lambda x, y: x * y, A, B)
        cmp("div", T.div(A, B), lambda x, y: x / y, A, B)
        cmp("neg", T.neg(A), lambda x: -x, A)
        cmp("abs", T.abs(A), np.abs, A)
        cmp("abs_sqr", T.abs_sqr(A), lambda x: np.abs(x) ** 2, A)
        if kind != "i":
            cmp("abs_sqrt", T.abs_sqrt(A), lambda x: np.sqrt(np.abs(x)), A)
            P = T.abs(A)
            cmp("sqrt", T.sqrt(P), np.sqrt, P)
            for e in (0, 1, 2, 3, 0.5, 1.5, -1, -2):
                cmp(f"pow{e}", T.pow(P, e), lambda x: np.power(
                    x, float(e)), P)
        for s in (2, -1.5, 1 + 2j, 0):
            if kind != "c" and isinstance(s, complex):
                continue
            for ss in (s, jnp.asarray(s)):
                cmp("scalar_add", T.scalar_add(A, ss), lambda x: x + s, A)
                cmp("scalar_mul", T.scalar_mul(A, ss), lambda x: x * s, A)
        tot = sum(np.sum(np.array(x)) for x in leaves(A))
        cnt = sum(x.size for x in leaves(A))
        m = T.mean(A)
        ctx.check(np.shape(m) == () and np.allclose(m, tot / cnt, 1e-12),
                  "mean", f"{m} {tot / cnt}")
        unchanged(ctx, A, ka, "arithmetic")
        unchanged(ctx, B, kb, "arithmetic")
        # trees of different structure are refused
        if case["t"] != "single":
            for nm in ("add", "sub", "mul", "div"):
                expect_error(ctx, lambda: getattr(T, nm)(A, leaves(A)[0]),
                             "different structures combined", nm)
    ctx.trace()


def run_equal(case, ctx):
    def leaf(i):
        return jnp.asarray(np.arange(6.0).reshape(2, 3) + 10 * i)
    A = atree(case["t"], leaf)
    B = atree(case["t"], leaf)
    ctx.check(bool(T.all_equal(A, B)) and bool(T.all_close(A, B)),
              "equal trees reported different", "")
    L, st = jax.tree.flatten(A)
    for i in range(len(L)):
        for j in range(6):
            for eps in (1e-12, 1e-3, 1.0, np.nan):
                ctx.step()
                x = np.array(L[i])
                x.flat[j] += eps
                C = jax.tree.unflatten(st, L[:i] + [jnp.asarray(x)]
                                       + L[i + 1:])
                eq = np.array_equal(x, np.array(L[i]))
                ctx.check(bool(T.all_equal(A, C)) == eq, "all_equal",
                          f"{i} {j} {eps}")
                ctx.check(bool(T.all_equal(C, A)) == eq, "all_equal",
                          f"{i} {j} {eps}")
                for rt, at in ((1e-5, 1e-8), (0.0, 1e-6), (1e-2, 0.0),
                               (0.0, 2.0)):
                    cl = bool(np.all(np.abs(np.array(L[i]) - x) <= at
                                     + rt * np.abs(x)))
                    ctx.check(bool(T.all_close(A, C, rtol=rt, atol=at)) == cl,
                              "all_close", f"{i} {j} {eps} {rt} {at}")
        C = jax.tree.unflatten(st, L[:i] + [L[i].reshape(3, 2)] + L[i + 1:])
        ctx.check(not T.all_equal(A, C), "trees of different shapes equal",
                  i)
    for t in ATREES:
        other = atree(t, leaf)
        if jax.tree.structure(other) != st:
            ctx.check(not T.all_equal(A, other) and
                      not T.all_close(A, other),
                      "trees of different structure equal", t)
    # numbers, names, flags and shapes as leaves
    plain = [3, 2.5, "a", True, -1, "b", 0]
    P = jax.tree.unflatten(st, plain[:len(L)])
    ctx.check(bool(T.all_equal(P, P)) and bool(T.all_close(P, P)),
              "equal trees reported different", plain)
    for i in range(min(len(L), len(plain))):
        C = jax.tree.unflatten(st, plain[:i] + ["other"]
                               + plain[i + 1:len(L)])
        ctx.check(not T.all_equal(P, C) and not T.all_close(P, C)
                  and not T.all_equal(C, P), "different leaves reported "
                  "equal", f"{P} {C}")
    ctx.state("equal", case["t"])
    for vals in itertools.product((True, False), repeat=len(L)):
        t = jax.tree.unflatten(st, list(vals))
        ctx.check(bool(T.any(t)) == any(vals), "any", vals)
    ctx.trace()


def run_shapes(case, ctx):
    pool = [(2, 3), (2, 4), (3, 3), (2, 3, 3)]
    arr = {s: jnp.zeros(s) for s in pool}
    axes = [None, 0, 1, (0,), (0, 1), (1, 0), slice(1, None), slice(0, 1),
            -1, slice(None, -1), ()]

    def pick(s, ax):
        if ax is None:
            return s
        if isinstance(ax, slice):
            return s[ax]
        ax = (ax,) if isinstance(ax, int) else ax
        return tuple(s[a] for a in ax)
    combos = [c for k in (1, 2, 3) for c in itertools.product(pool, repeat=k)]
    for c in combos:
        for mk in (list, tuple, lambda v: {f"k{i}": x
                                           for i, x in enumerate(v)}):
            tree = mk([arr[s] for s in c])
            for ax in axes:
                ctx.step()
                g = T.get_shapes(tree, axis=ax)
                w = mk([pick(s, ax) for s in c])
                ctx.check(g == w, "get_shapes", f"{c} {ax}: {g}")
                u = len({pick(s, ax) for s in c}) == 1
                ctx.check(bool(T.has_uniform_leaf_shapes(tree, axis=ax)) == u,
                          "has_uniform_leaf_shapes", f"{c} {ax}")
        ctx.state("shapes", c)
    two = [c for c in combos if len(c) <= 2]
    for c1 in two:
        for c2 in two:
            t1, t2 = [arr[s] for s in c1], [arr[s] for s in c2]
            t3 = tuple(t2)
            for ax in axes:
                ctx.step()
                e = [pick(s, ax) for s in c1] == [pick(s, ax) for s in c2]
                ctx.check(bool(T.shapes_equal(t1, t2, axis=ax)) == e,
                          "shapes_equal", f"{c1} {c2} {ax}")
                ctx.check(not T.shapes_equal(t1, t3, axis=ax),
                          "shapes_equal ignores the structure",
                          f"{c1} {c2} {ax}")
                u = len({pick(s, ax) for s in c1 + c2}) == 1
                for o in (t2, t3):
                    ctx.check(bool(T.uniform_leaf_shapes_equal(
                        t1, o, axis=ax)) == u, "uniform_leaf_shapes_equal",
                        f"{c1} {c2} {ax}")
    ctx.trace()
    # single leaves
    wild = [None] + [tuple(w) for k in (2, 3) for w in itertools.product(
        (None, 2, 3), repeat=k)]
    for c in [c for c in combos if len(c) <= 2]:
        for wrap in (lambda v: v, lambda v: {"a": v}):
            tree = wrap([arr[s] for s in c])
            shp = wrap([s for s in c])
            for nd in (None, 2, 3):
                for w in wild:
                    ctx.step()
                    if nd is not None and w is not None and len(w) != nd:
                        continue
                    ok = len(c) == 1 and (nd is None or len(c[0]) == nd) and (
                        w is None or (len(w) == len(c[0]) and all(
                            b is None or a == b for a, b in zip(c[0], w))))
                    g, leaf = T.is_single_leaf(tree, ndim=nd, shape=w)
                    ctx.check(bool(g) == ok and (not ok
                                                 or leaf is arr[c[0]]),
                              "is_single_leaf", f"{c} {nd} {w}")
                    g, leaf = T.is_single_leaf(
                        shp, ndim=nd, shape=w, is_leaf=T.is_shape_leaf)
                    ctx.check(bool(g) == ok and (not ok or leaf == c[0]),
                              "is_single_leaf of shapes", f"{c} {nd} {w}")
