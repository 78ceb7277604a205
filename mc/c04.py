"""C04 - a graph model computes exactly the dataflow its connections describe.

Reference model: an interpreter of the wiring on numpy arrays, written from
the documentation (paths, sub-structures, implicit numbering).  Real system:
NonSequentialModel over modules whose output reveals every value they were
given and the structure they were given it in.
"""
import itertools

from . import lib
from .lib import jax, jnp, np, pmm
from .toys import Fold, Lin

ID = "C04"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of connection graphs (all edge sets over "
             "a bounded set of nodes, all listing orders, namings, nestings, "
             "path choices and single corruptions); every graph is compiled "
             "and evaluated by the real model and by a reference dataflow "
             "interpreter")
RULE = ("a state is one wiring (modules, names, connections, listing order, "
        "input structure); a transition is compiling, asking for the shape, "
        "evaluating or re-wiring it")
BOUNDS = {
    "quick": "all 512 edge sets over 2 modules (self loops included) x 3 ways "
             "of writing them x all listing orders; all 8192 edge sets over 3 "
             "modules, one way each; 15 names for each of 3 modules "
             "pairwise, 9 nestings, 5 separators; all assignments of 4 "
             "sources to 8x8(x8) destination paths; 9 input structures x all "
             "their sub-paths; every single corruption of 6 wirings; stateful "
             "modules, nested models and re-wiring",
    "thorough": "all three ways for 3 modules, listing orders of 3-module "
                "graphs, triples of destination paths, triples of names, all "
                "edge sets over 4 modules in forward order",
}
ASSUMPTIONS = ["module names do not contain the separator and are not "
               "'input' or 'output' (documented as reserved)",
               "numbers given to unnumbered connections to the same "
               "destination follow the listing order (documented), the keys "
               "given to them among named ones are arbitrary but constant",
               "positions of a list nothing is connected to are None (the "
               "repository's own tests rely on it)"]


def hkey(k):
    if len(k) > 20:             # a made-up key
        return .77
    v = 0
    for c in str(k):
        v = (v * 31 + ord(c)) % 997
    return .3 + v / 997.


def mixdown(t):
    """one array from a tree; reveals values and structure"""
    if isinstance(t, dict):
        return sum(hkey(k) * mixdown(t[k]) for k in sorted(t)) + .05 * len(t)
    if isinstance(t, (list, tuple)):
        return sum((1.1 + .6 * i) * (mixdown(v) if v is not None else 3.3)
                   for i, v in enumerate(t)) + .02 * len(t)
    return t


def mix(c, t):
    z = mixdown(t)
    return .3 * z * z / (1 + z * z) + c * z + .1 * c


class Mix(pmm.modules.BaseModule):
    """any tree of equally shaped arrays -> one array; c identifies it"""
    __version__ = "0.0.0"

    def __init__(self, c=1.0):
        self.c = c
        self.ready = False

    @property
    def name(self):
        return f"Mix({self.c})"

    def is_ready(self):
        return self.ready

    def compile(self, rng, input_shape, /):
        self.ready = True

    def get_output_shape(self, input_shape, /):
        return jax.tree.leaves(input_shape, is_leaf=lib.is_shape)[0]

    def get_hyperparameters(self):
        return {"c": self.c}

    def get_params(self):
        return ()

    def set_params(self, params, /):
        pass

    def apply(self, data):
        return mix(self.c, data)

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            return self.apply(data), state
        return fn


def split(c, t):
    x = mix(c, t)
    return {"u": x, "v": [x * 2 + 1, {"w": x - 3}]}


class Split(Mix):
    """tree output"""
    __version__ = "0.0.0"

    @property
    def name(self):
        return "Split"

    def get_output_shape(self, input_shape, /):
        s = jax.tree.leaves(input_shape, is_leaf=lib.is_shape)[0]
        return {"u": s, "v": [s, {"w": s}]}

    def apply(self, data):
        return split(self.c, data)


class Wired(Exception):
    """the wiring is invalid according to the reference"""


# ----------------------------------------------------------------- reference
def walk(v, path):
    for p in path:
        if isinstance(v, dict):
            if p not in v:
                raise Wired(f"no {p}")
            v = v[p]
        elif isinstance(v, (list, tuple)):
            if not p.isdigit() or int(p) >= len(v):
                raise Wired(f"no {p}")
            v = v[int(p)]
        else:
            raise Wired(f"leaf before {p}")
    return v


def build(group):
    """structure described by [(relative path, source)] in listing order"""
    if len(group) == 1 and not group[0][0]:
        return ("leaf", group[0][1])
    firsts = {p[0] for p, _ in group if p}
    digits = all(f.isdigit() for f in firsts)
    free = (i for i in itertools.count()
            if str(i) not in {str(int(f)) for f in firsts if f.isdigit()})
    new, k = [], 0
    for p, s in group:
        if not p:
            if digits:
                p = (str(next(free)),)
            else:
                p = ("made-up key, long enough %d" % k,)
                k += 1
        new.append((p, s))
    sub = {}
    for p, s in new:
        sub.setdefault(p[0], []).append((p[1:], s))
    if digits:
        n = max(int(f) for f in sub) + 1
        return ("list", [build(sub[str(i)]) if str(i) in sub else None
                         for i in range(n)])
    return ("dict", {f: build(g) for f, g in sub.items()})


def fill(plan, get):
    if plan is None:
        return None
    kind, v = plan
    if kind == "leaf":
        return get(v)
    if kind == "list":
        return [fill(p, get) for p in v]
    return {k: fill(p, get) for k, p in v.items()}


def reference(funcs, conns, X, sep="."):
    """funcs: {path tuple: function}; returns the output tree or Wired"""
    def parse(s):
        return tuple(s.split(sep))

    def owner(path, reserved, other):
        if path[0] == reserved:
            return (reserved,), path[1:]
        if path[0] == other:
            raise Wired("reserved")
        for n in range(1, len(path) + 1):
            if path[:n] in funcs:
                return path[:n], path[n:]
        raise Wired(f"no module {path}")
    edges = []
    for src, dsts in conns.items():
        s = owner(parse(src), "input", "output")
        for d in ([dsts] if isinstance(dsts, str) else dsts):
            edges.append((s, owner(parse(d), "output", "input")))
    I, O = ("input",), ("output",)

    def closure(start, forward):
        seen, todo = {start}, [start]
        while todo:
            n = todo.pop()
            for (s, _), (d, _) in edges:
                a, b = (s, d) if forward else (d, s)
                if a == n and b not in seen:
                    seen.add(b)
                    todo.append(b)
        return seen
    need = closure(I, True) & closure(O, False)
    if O not in need or I not in need:
        raise Wired("output not connected")
    values, state = {I: X}, {}

    def value(node):
        if node in values:
            return values[node]
        if state.get(node) == "busy":
            raise Wired("cycle")
        if node not in need:
            raise Wired("source not connected")
        state[node] = "busy"
        group = [(dp, s) for s, (d, dp) in edges if d == node]
        plan = build(group)
        t = fill(plan, lambda s: walk(value(s[0]), s[1]))
        values[node] = t if node == O else funcs[node](t)
        return values[node]
    return value(O)


# ------------------------------------------------------------------- judging
def canon(t):
    """tree with made-up keys replaced by their rank"""
    if isinstance(t, dict):
        made = sorted(k for k in t if len(k) > 20)
        out = {k: canon(v) for k, v in t.items() if len(k) <= 20}
        if made:
            out["*"] = sorted((canon(t[k]) for k in made), key=_rank)
        return out
    if isinstance(t, (list, tuple)):
        return [canon(v) for v in t]
    return t


def _rank(v):
    ls = jax.tree.leaves(v)
    return [float(np.asarray(x).ravel()[0]) for x in ls]


def shape_of(t, drop=1):
    return jax.tree.map(lambda x: tuple(np.asarray(x).shape[drop:]), t)


def data(tree, n=2, s=.3):
    c = itertools.count()
    return jax.tree.map(lambda _: jnp.asarray(lib.grid(
        (n, 2), s + .71 * next(c))), tree, is_leaf=lib.is_shape)


def shapes(tree):
    return jax.tree.map(lambda _: (2,), tree, is_leaf=lib.is_shape)


def hosted(t):
    return jax.tree.map(np.asarray, t)


def judge(ctx, modules, funcs, conns, X, sep=".", what="", seen=None):
    """compile and evaluate for real, compare with the reference"""
    try:
        want = reference(funcs, conns, hosted(X), sep)
        bad = None
    except Wired as e:
        want, bad = None, str(e)
    ctx.step()
    shp = jax.tree.map(lambda x: tuple(x.shape[1:]), X)
    label = what or conns
    err = None
    try:
        kw = {} if sep == "." else {"separator": sep}
        m = pmm.NonSequentialModel(modules, conns, rng=0, **kw)
        announced = m.get_output_shape(shp)
        m.compile(0, shp)
        got = m(X, dtype=np.float64)
    except Exception as e:
        err = e
    if bad is not None:
        ctx.outcome("rejected")
        ctx.check(err is not None, "invalid wiring evaluated",
                  lambda: f"{label}: {bad}; returned {lib.show(got)}")
        return None
    if err is not None:
        ctx.fail("valid wiring refused",
                 f"{label} ({conns}): {type(err).__name__}: {err}")
    ctx.outcome("evaluated")
    d = lib.same(canon(hosted(got)), canon(want))
    ctx.check(d is None, "wrong dataflow", lambda: f"{label} ({conns}): {d}")
    d = shape_of(got)
    ctx.check(d == announced == m.output_shape
              and d == m.get_output_shape(shp), "wrong output shape",
              lambda: f"{label} ({conns}): {d}, announced {announced}, "
              f"compiled {m.output_shape}")
    return m


def mixes(names, sep="."):
    """flat modules {name: Mix} with their reference functions"""
    cs = {n: .5 + .45 * i for i, n in enumerate(names)}
    return ({n: Mix(c) for n, c in cs.items()},
            {(n,): (lambda t, c=c: mix(c, t)) for n, c in cs.items()})


# ------------------------------------------------------------ A: all wirings
def edge_list(m, loops):
    ns = "abcd"[:m]
    out = [("input", d) for d in list(ns) + ["output"]]
    for s in ns:
        out += [(s, d) for d in list(ns) + ["output"] if loops or s != d]
    return out


def write(edges, mode, order):
    """connections for a set of edges; order: permutation of the sources"""
    srcs = [s for s in order if any(e[0] == s for e in edges)]
    ins = {}
    for s in "input a b c d".split():
        for e in edges:
            if e[0] == s:
                ins.setdefault(e[1], []).append(s)
    out = {}
    for s in srcs:
        ds = []
        for e in edges:
            if e[0] != s:
                continue
            d = e[1]
            if mode == "named":
                d += ".k" + s
            elif mode == "numbered":
                d += f".{len(ins[d]) - 1 - ins[d].index(s)}"
            ds.append(d)
        out[s] = ds[0] if len(ds) == 1 and mode != "named" else (
            tuple(ds) if mode == "numbered" else ds)
    return out


MODES = ["implicit", "named", "numbered"]


def run_graphs(case, ctx):
    m = case["m"]
    el = edge_list(m, case["loops"])
    X = data((2,))
    for bits in range(case["from"], case["to"]):
        edges = [e for i, e in enumerate(el) if bits >> i & 1]
        srcs = sorted({s for s, _ in edges})
        if case["forward"] and any(s > d for s, d in edges
                                   if s != "input" and d != "output"):
            continue
        modes = [MODES[bits % 3]] if case["one"] else MODES
        for mode in modes:
            orders = [["input"] + list("abcd"[:m])]
            if case["orders"]:
                orders = itertools.permutations(srcs)
            elif mode != "implicit":
                orders = [list("dcba"[-m:]) + ["input"]]
            for o in orders:
                mods, funcs = mixes("abcd"[:m])
                ctx.state("graph", m, bits, mode, tuple(o))
                judge(ctx, mods, funcs, write(edges, mode, o), X)
    ctx.trace()


# -------------------------------------------------------- B: names, nestings
BASES = {
    "chain": {"input": "A", "A": "B", "B": "C", "C": "output"},
    "diamond": {"input": "A", "A": ["B", "C"], "B": "output.0",
                "C": "output.1"},
    "merge": {"input": ["A", "B.x"], "A": "B.y", "B": ["C", "output.p"],
              "C": "output.q"},
    "skip": {"input": ["A", "C"], "A": ["B", "C"], "B": ["C", "output"],
             "C": "output"},
}
NAMES = ["a", "0", "1", "10", "inputs", "input_x", "outputs", "output1",
         "in", "out", "A B", "_", "inpu", "outputinput", "B"]
NESTS = {
    "flat": ("{n0}", "{n1}", "{n2}"),
    "block": ("{n0}.x", "{n1}.x", "{n2}.x"),
    "inner": ("x.{n0}", "x.{n1}", "x.{n2}"),
    "deep": ("x.y.{n0}", "x.{n1}", "{n2}"),
    "twoin": ("{n0}.0", "{n0}.1", "{n1}"),
    "mixed": ("{n0}.{n1}", "{n0}.{n2}", "z"),
    "list": ("0", "1", "2"),
    "listin": ("{n0}.1", "{n0}.0", "{n0}.2"),
    "listlist": ("0.1", "0.0", "1.0"),
    "tuple": ("0", "1", "2"),
    "resdeep": ("x.input", "x.output", "y.{n0}"),
}


def tree_from(paths, values, seq=list):
    """container with values at the given paths (digits: positions of a list
    if they are contiguous and the level is written as a list in NESTS)"""
    top = {}
    for p, v in zip(paths, values):
        t = top
        for q in p[:-1]:
            t = t.setdefault(q, {})
        t[p[-1]] = v

    def conv(t, lists):
        if not isinstance(t, dict):
            return t
        ks = list(t)
        if lists and all(k.isdigit() for k in ks) and sorted(
                map(int, ks)) == list(range(len(ks))):
            return seq(conv(t[str(i)], lists) for i in range(len(ks)))
        return {k: conv(v, lists) for k, v in t.items()}
    return top, conv


def named(nest, names, lists=True, seq=list, kind=Mix):
    paths = [tuple(p.format(n0=names[0], n1=names[1], n2=names[2]).split("."))
             for p in NESTS[nest]]
    if len(set(paths)) < 3 or any(
            p[:len(q)] == q for p in paths for q in paths if p != q):
        return None
    cs = [.5, .95, 1.4]
    top, conv = tree_from(paths, [kind(c) for c in cs], seq)
    return conv(top, lists), {p: (lambda t, c=c: mix(c, t))
                              for p, c in zip(paths, cs)}, paths


def rename(base, paths, sep):
    lab = dict(zip("ABC", (sep.join(p) for p in paths)))

    def r(s):
        head, *rest = s.split(".")
        return sep.join([lab.get(head, head)] + rest)
    return {r(k): r(v) if isinstance(v, str) else [r(x) for x in v]
            for k, v in base.items()}


def run_names(case, ctx):
    nest, sep = case["nest"], case["sep"]
    for names in case["names"]:
        if any(sep in n for n in names):
            continue
        for b, base in BASES.items():
            if case.get("bases") and b not in case["bases"]:
                continue
            was = None
            for lists in (True, False):
                r = named(nest, names, lists,
                          tuple if nest == "tuple" else list)
                if r is None:
                    continue
                mods, funcs, paths = r
                if str(jax.tree.structure(mods)) == was:
                    continue
                was = str(jax.tree.structure(mods))
                conns = rename(base, paths, sep)
                if case.get("rev"):
                    conns = dict(reversed(list(conns.items())))
                ctx.state("names", nest, tuple(names), b, lists, sep,
                          case.get("rev"))
                judge(ctx, mods, funcs, conns, data((2,)), sep)
    ctx.trace()


# ----------------------------------------------------------- C: sub-structure
DEST = ["M", "M.0", "M.1", "M.a", "M.b", "M.a.c", "M.0.0", "M.1.a"]
SRC = ["S.u", "S.v.0", "S.v.1.w", "S.v", "S", "input"]


def run_dests(case, ctx):
    """sources to all combinations of destination paths"""
    for dst in case["dst"]:
        for node in ("M", "output"):
            for order in (0, 1):
                srcs = case["src"][:len(dst)]
                pairs = list(zip(srcs, dst))
                if order:
                    pairs.reverse()
                conns = {"input": ["S"]}
                for s, d in pairs:
                    d = d.replace("M", node)
                    conns.setdefault(s, [])
                    conns[s].append(d)
                if node == "M":
                    conns["M"] = "output"
                else:
                    conns["input"].append("M")
                mods = {"S": Split(.8), "M": Mix(1.2)}
                funcs = {("S",): lambda t: split(.8, t),
                         ("M",): lambda t: mix(1.2, t)}
                ctx.state("dest", tuple(dst), tuple(srcs), node, order)
                judge(ctx, mods, funcs, conns, data((2,)))
    ctx.trace()


S2 = (2,)
INPUTS = {
    "bare": S2,
    "list": [S2, S2],
    "tuple": (S2, S2),
    "dict": {"x": S2, "y": S2},
    "digits": {"0": S2, "1": S2},
    "nest": {"x": [S2, {"z": S2}], "w": S2},
    "deep": [[S2, S2], (S2,)],
    "named": {"input": S2, "output": S2},
    "one": {"x": S2},
}


def subpaths(t, pre=()):
    out = [pre]
    if isinstance(t, dict):
        for k, v in t.items():
            out += subpaths(v, pre + (k,))
    elif not lib.is_shape(t) and isinstance(t, (list, tuple)):
        for i, v in enumerate(t):
            out += subpaths(v, pre + (str(i),))
    return out


def run_inputs(case, ctx):
    t = INPUTS[case["input"]]
    X = data(t)
    ps = subpaths(t) + [("nope",), ("7",), ("x", "0", "q")]
    for p, q in itertools.product(ps, repeat=2):
        if p == q:
            continue
        ps_, qs = ".".join(("input",) + p), ".".join(("input",) + q)
        for conns in ({ps_: "A", qs: "B", "A": "B", "B": "output"},
                      {ps_: ["A", "output.r"], qs: "B", "A": "output.s",
                       "B": "output.t"},
                      {ps_: "output.x", qs: "output.y"},
                      {ps_: "output", qs: "A"}):
            mods, funcs = mixes("AB")
            ctx.state("input", case["input"], p, q, str(conns))
            try:
                lenient = False
                walk(hosted(X), p)
                walk(hosted(X), q)
            except Wired:
                lenient = True
            if lenient:
                # a path that does not exist, to something needed or not
                try:
                    reference(funcs, conns, hosted(X))
                    continue
                except Wired:
                    pass
            judge(ctx, mods, funcs, conns, X)
    ctx.trace()


# ------------------------------------------------------------- D: corruption
VALID = dict(BASES, subs={"input": "S", "S.u": "A.0", "S.v.0": "A.1",
                          "S.v.1.w": "output.k", "A": "output.l"},
             wide={"input": ["A", "B", "C"], "A": "D.0", "B": "D.1",
                   "C": "D.2", "D": "output"})


def mods_for(name):
    if name == "subs":
        return ({"S": Split(.8), "A": Mix(1.2)},
                {("S",): lambda t: split(.8, t),
                 ("A",): lambda t: mix(1.2, t)})
    return mixes("ABCD" if name == "wide" else "ABC")


def flat(conns):
    return [(s, d) for s, ds in conns.items()
            for d in ([ds] if isinstance(ds, str) else ds)]


def unflat(es):
    out = {}
    for s, d in es:
        out.setdefault(s, []).append(d)
    return out


def run_corrupt(case, ctx):
    conns = VALID[case["base"]]
    es = flat(conns)
    variants = []
    for i, (s, d) in enumerate(es):
        variants.append(("dropped", es[:i] + es[i + 1:]))
        for new in ["nope", "nope.x", "A.nope", "A.0", "output", "output.x",
                    "D", "Z", "input.0", "input.x", ""]:
            variants.append(("source " + new, es[:i] + [(new, d)]
                             + es[i + 1:]))
        for new in ["nope", "nope.0", "input", "input.x", "Z.A"]:
            variants.append(("target " + new, es[:i] + [(s, new)]
                             + es[i + 1:]))
        for new in ["A", "B", "C"]:
            variants.append(("back " + new, es[:i + 1] + [(d.split(".")[0],
                                                           new)]
                             + es[i + 1:]))
        variants.append(("doubled", es[:i + 1] + es[i:]))
        variants.append(("gap", es[:i] + [(s, d.split(".")[0] + ".3")]
                         + es[i + 1:]))
    for what, v in variants:
        mods, funcs = mods_for(case["base"])
        c = unflat(v)
        if any(k == "" for k in c):
            continue
        ctx.state("corrupt", case["base"], str(c))
        try:
            reference(funcs, c, hosted(data((2,))))
        except Wired as e:
            # something that does not exist in an unneeded part: any answer
            # of the needed part would do, but it is refused
            if not harmful(funcs, c):
                continue
        judge(ctx, mods, funcs, c, data((2,)), what=what)
    for c in ({}, {"input": "A"}, {"A": "output"}, {"A": "B", "B": "A"},
              {"input": []}, {"input..": "A", "A": "output"},
              {"input": "A..0", "A": "output"}):
        mods, funcs = mods_for(case["base"])
        err = None
        try:
            m = pmm.NonSequentialModel(mods, c, rng=0)
            m.compile(0, (2,))
            m(data((2,)), dtype=np.float64)
        except Exception as e:
            err = e
        ctx.step()
        ctx.check(err is not None, "invalid wiring evaluated", str(c))
    for k in ("input", "output"):
        err = None
        try:
            pmm.NonSequentialModel({k: Mix(1.), "A": Mix(2.)},
                                   {"input": "A", "A": "output"})
        except Exception as e:
            err = e
        ctx.check(err is not None, "reserved name accepted", k)
    ctx.trace()


def harmful(funcs, conns):
    """does the invalidity concern something the output needs (or a name that
    does not exist)?"""
    try:
        reference(funcs, conns, hosted(data((2,))))
        return False
    except Wired:
        return True


# --------------------------------------------- E: state, nesting, re-wiring
def run_special(case, ctx):
    X = data((2,), 3)
    Xn = np.asarray(X)
    k = case["what"]
    if k == "state":
        for perm in itertools.permutations("AB"):
            m = pmm.NonSequentialModel(
                {p: Fold(.5, 1. + "AB".index(p)) for p in perm},
                {"input": ["A", "B.x"], "A": ["B.y", "output.a"],
                 "B": "output.b"}, rng=0)
            m.compile(0, (2,))
            sA, sB = 1., 2.
            for r in range(3):
                got = hosted(m(X, dtype=np.float64, update_state=True))
                a, b = Xn.copy(), {"x": Xn.copy(), "y": None}
                for i in range(3):
                    a[i] = Xn[i] + sA
                    sA = .5 * sA + Xn[i].sum()
                b["y"] = a.copy()
                for i in range(3):
                    t = Xn[i].sum() + a[i].sum()
                    b["x"][i] = Xn[i] + sB
                    b["y"][i] = a[i] + sB
                    sB = .5 * sB + t
                ctx.step()
                ctx.state("state", perm, r)
                d = lib.same(got, {"a": a, "b": b}, rtol=1e-5, atol=1e-5)
                ctx.check(d is None, "stateful modules in a graph", d)
                st = m.get_state()
                ctx.check(np.allclose(st["A"], sA, rtol=1e-5)
                          and np.allclose(st["B"], sB, rtol=1e-5),
                          "state of a module in a graph",
                          lambda: f"{lib.show(st)} / {sA} {sB}")
    if k == "nested":
        inner = {"seq": lambda: pmm.SequentialModel([Lin(2., 1.), Mix(.7)],
                                                    rng=1),
                 "graph": lambda: pmm.NonSequentialModel(
                     {"p": Mix(.6), "q": Mix(.9)},
                     {"input.x": "p", "input.y": ["q.0", "output.s"],
                      "p": ["q.1"], "q": "output.t"}, rng=1)}

        def fseq(t):
            return mix(.7, jax.tree.map(lambda x: 2 * x + 1, t))

        def fgraph(t):
            return {"s": t["y"], "t": mix(.9, [t["y"], mix(.6, t["x"])])}
        for n1, n2 in itertools.product(inner, repeat=2):
            for perm in itertools.permutations("ABC"):
                mk = {"A": inner[n1], "B": inner[n2], "C": lambda: Mix(1.3)}
                f = {("A",): fseq if n1 == "seq" else fgraph,
                     ("B",): fseq if n2 == "seq" else fgraph,
                     ("C",): lambda t: mix(1.3, t)}
                conns = {"input": "A" if n1 == "seq" else ["A.x", "A.y"],
                         "A" if n1 == "seq" else "A.t":
                         "B" if n2 == "seq" else ["B.x", "C"]}
                if n2 == "graph":
                    conns["input"] = ([conns["input"]] if isinstance(
                        conns["input"], str) else conns["input"]) + ["B.y"]
                    conns["B.s"] = "C"
                    conns["B"] = "output.b"
                else:
                    conns["B"] = ["C", "output.b"]
                conns["C"] = "output.c"
                ctx.state("nested", n1, n2, perm)
                judge(ctx, {p: mk[p]() for p in perm}, f, conns, X)
    if k == "rewire":
        W = list(BASES.values())
        for w1, w2 in itertools.permutations(W, 2):
            mods, funcs = mixes("ABC")
            m = judge(ctx, mods, funcs, w1, X)
            for w in (w2, w1):
                m.connections = w
                m.reset()
                for q in mods.values():
                    q.ready = False
                m.compile(0, (2,))
                ctx.step()
                ctx.state("rewire", str(w1), str(w))
                d = lib.same(hosted(m(X, dtype=np.float64)),
                             reference(funcs, w, Xn))
                ctx.check(d is None, "stale wiring", d)
    if k == "own":
        own(ctx, X)
    if k == "jit":
        with jax.disable_jit(False):
            for b, w in BASES.items():
                mods, funcs = mixes("ABC")
                judge(ctx, mods, funcs, w, X, what="jit " + b)
    ctx.trace()


class Own(Mix):
    """uses its parameter, its state, the training flag and whether it was
    given a key of its own"""
    __version__ = "0.0.0"

    def __init__(self, c=1.0):
        super().__init__(c)
        self.w = jnp.asarray([c + 1.])
        self.s = jnp.asarray([c + 2.])

    def get_params(self):
        return self.w

    def set_params(self, params, /):
        self.w = params

    def get_state(self):
        return self.s

    def set_state(self, state, /):
        self.s = state

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            return (ownf(self.c, data, params[0], state[0], training),
                    state * 2 + self.c)
        return fn


def ownf(c, t, w, s, training):
    return mix(c, t) * w + .1 * s + (5. * c if training else 0.)


def own(ctx, X):
    """every module of a graph is given its own parameters and state and the
    mode the model is evaluated in"""
    Xn = np.asarray(X)
    cs = [.5, .95, 1.4]
    for nest in NESTS:
        for lists in (True, False):
            r = named(nest, ["a", "1", "0"], lists,
                      tuple if nest == "tuple" else list, Own)
            if r is None:
                continue
            mods, _, paths = r
            for b, base in BASES.items():
                for rev in (False, True):
                    conns = rename(base, paths, ".")
                    if rev:
                        conns = dict(reversed(list(conns.items())))
                    mods = named(nest, ["a", "1", "0"], lists,
                                 tuple if nest == "tuple" else list, Own)[0]
                    m = pmm.NonSequentialModel(mods, conns, rng=0)
                    m.compile(0, (2,))
                    f = m._get_callable()
                    P, S = m.get_params(), m.get_state()
                    # values of the caller's choice, found by path
                    pv = {p: 1.5 + i for i, p in enumerate(paths)}
                    sv = {p: 9. - i for i, p in enumerate(paths)}
                    P = _put(P, {p: jnp.asarray([v]) for p, v in pv.items()})
                    S = _put(S, {p: jnp.asarray([v]) for p, v in sv.items()})
                    for tr in (True, False):
                        funcs = {p: (lambda t, c=c, p=p: ownf(
                            c, t, pv[p], sv[p], tr))
                            for p, c in zip(paths, cs)}
                        want = reference(funcs, conns, Xn)
                        got, S2 = f(P, X, tr, S, jax.random.key(0))
                        ctx.step()
                        ctx.state("own", nest, lists, b, rev, tr)
                        d = lib.same(canon(hosted(got)), canon(want))
                        ctx.check(d is None, "a module was not given its own "
                                  "parameters, state or mode",
                                  lambda: f"{conns} training={tr}: {d}")
                        for p, c in zip(paths, cs):
                            z = float(walk(S2, p)[0])
                            ctx.check(abs(z - (2 * sv[p] + c)) < 1e-6,
                                      "state of a module in a graph",
                                      lambda: f"{conns} training={tr} {p}: "
                                      f"{z} from {sv[p]}, c={c}")


def _put(t, vals, pre=()):
    if pre in vals:
        return vals[pre]
    if isinstance(t, dict):
        return {k: _put(v, vals, pre + (k,)) for k, v in t.items()}
    return type(t)(_put(v, vals, pre + (str(i),)) for i, v in enumerate(t))


# --------------------------------------------------------------------- cases
def cases(tier):
    q = tier == "quick"
    out = [{"k": "special", "what": w}
           for w in ("state", "nested", "rewire", "jit", "own")]
    out += [{"k": "corrupt", "base": b} for b in VALID]
    out += [{"k": "input", "input": i} for i in INPUTS]
    for i in range(0, 512, 32):
        out.append({"k": "graphs", "m": 2, "loops": True, "from": i,
                    "to": i + 32, "orders": True, "one": False,
                    "forward": False})
    n = 1 << len(edge_list(3, False))
    for i in range(0, n, 128):
        out.append({"k": "graphs", "m": 3, "loops": False, "from": i,
                    "to": i + 128, "orders": not q, "one": q,
                    "forward": False})
    if not q:
        n = 1 << len(edge_list(4, False))
        # all acyclic in listing order: edges only forward
        fw = [i for i, (s, d) in enumerate(edge_list(4, False))
              if s == "input" or d == "output" or s < d]
        for j in range(0, 1 << len(fw), 128):
            out.append({"k": "forward4", "fw": fw, "from": j, "to": j + 128})
    ds = list(itertools.product(DEST, repeat=2))
    for i in range(0, len(ds), 8):
        out.append({"k": "dest", "dst": ds[i:i + 8],
                    "src": ["S.u", "S.v.0"]})
        out.append({"k": "dest", "dst": ds[i:i + 8], "src": ["S.v", "S.u"]})
    d3 = list(itertools.product(DEST, repeat=3))
    if q:
        d3 = [d for d in d3 if len(set(d)) < 3]
    for i in range(0, len(d3), 16):
        out.append({"k": "dest", "dst": d3[i:i + 16],
                    "src": ["S.u", "S.v.1.w", "input"]})
    pairs = [[a, b, c] for a, b in itertools.permutations(NAMES, 2)
             for c in (NAMES if not q else ["m"]) if c not in (a, b)]
    for i in range(0, len(pairs), 15):
        out.append({"k": "names", "nest": "flat", "sep": ".",
                    "bases": ["merge", "diamond"] if q else None,
                    "names": pairs[i:i + 15]})
    some = [[a, b, "m"] for a, b in itertools.permutations(
        ["a", "0", "10", "input_x", "outputs", "1"], 2)]
    for nest in NESTS:
        for rev in (False, True):
            out.append({"k": "names", "nest": nest, "sep": ".", "rev": rev,
                        "names": some})
        for sep in ("/", "::", "->", "_", "|"):
            out.append({"k": "names", "nest": nest, "sep": sep,
                        "names": some if not q else some[::7]})
    return out


def run_forward4(case, ctx):
    el = edge_list(4, False)
    X = data((2,))
    for j in range(case["from"], case["to"]):
        edges = [el[i] for k, i in enumerate(case["fw"]) if j >> k & 1]
        mode = MODES[j % 3]
        mods, funcs = mixes("abcd")
        ctx.state("forward4", j)
        judge(ctx, mods, funcs, write(edges, mode, [
            "c", "a", "input", "d", "b"]), X)
    ctx.trace()


def cost(case):
    return {"graphs": 3 if case.get("m") == 3 else 8, "names": 10}.get(
        case["k"], 6)


def run(case, ctx):
    f = {"graphs": run_graphs, "names": run_names, "dest": run_dests,
         "input": run_inputs, "corrupt": run_corrupt, "special": run_special,
         "forward4": run_forward4}[case["k"]]
    with jax.disable_jit():
        f(case, ctx)
