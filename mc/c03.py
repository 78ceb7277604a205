"""C03 - editing a sequential model behaves like editing a list of functions.

Reference model: a Python list of (w, c) pairs plus a 'compiled shape' flag.
Real system: SequentialModel over PLin modules (x -> w*x + c), whose
composition identifies the applied modules and their order.
"""
import itertools

from . import core, lib
from .lib import M, grid, jax, np, pmm
from .toys import PLin

ID = "C03"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all editing/compiling/evaluating "
             "histories of the real model against a list reference model")
RULE = ("a state is (container, arrangement, compiled shape, evaluations "
        "cached so far) reached by a history; every history in the bound is "
        "replayed on a fresh real model and compared after every operation")
BOUNDS = {
    "quick": "7 initial arrangements; all edit histories of length <=3 "
             "(arrangement compared each step), all of length <=2 evaluated; "
             "all evaluate-edit-recompile-evaluate patterns over 4 evaluation "
             "kinds (jit compiled)",
    "thorough": "edit histories of length <=4 / evaluated <=3; "
                "evaluate-edit-evaluate-edit-evaluate patterns",
}
ASSUMPTIONS = ["module parameters are dyadic numbers, so compositions are "
               "exact"]

class HLin(PLin):
    """x -> w0*p*x + c: w0 is compiled into the callable (a stale callable
    shows), p (initially 1) and c are parameters."""
    __version__ = "0.0.0"

    def compile(self, rng, input_shape, /):
        if self.p is None:
            self.p = {"w": jax.numpy.ones((1,), jax.numpy.float32),
                      "c": jax.numpy.full((1,), self.c0, jax.numpy.float32)}

    def _get_callable(self):
        w0 = self.w0

        def fn(params, data, training, state, rng):
            w, c = params["w"][0] * w0, params["c"][0]
            return jax.tree.map(lambda x: w * x + c, data), state
        return fn


# distinct non-commuting maps
MAPS = [(2.0, 1.0), (-1.0, 3.0), (0.5, -2.0), (4.0, 0.5), (-2.0, -1.0),
        (3.0, 2.0), (-0.5, 5.0), (1.5, -3.0), (-4.0, 0.25), (0.25, 7.0)]
CONFIGS = ["list", "tuple", "dict", "dictr", "nested", "inner", "one"]
S1, S2 = (2,), (3,)
EVALS = ["call", "callb", "gin", "gpar"]


class Ref:
    """What a user believes: a list of items; an item is a map index or a
    nested list (group / inner model)."""

    def __init__(self, items, kind, keys=None):
        self.items, self.kind, self.keys = items, kind, keys
        self.shape = None

    def empty(self):
        return not self.items or any(it == [] for it in self.items)

    def flat(self):
        out = []
        for it in self.items:
            out.extend(it if isinstance(it, list) else [it])
        return out


def initial(cfg):
    mk = lambda k: HLin(*MAPS[k])  # noqa: E731
    if cfg == "list":
        return pmm.SequentialModel([mk(0), mk(1)]), Ref([0, 1], "list")
    if cfg == "one":
        return pmm.SequentialModel(mk(0)), Ref([0], "list")
    if cfg == "tuple":
        return pmm.SequentialModel((mk(0), mk(1))), Ref([0, 1], "tuple")
    if cfg == "dict":
        return pmm.SequentialModel({"a": mk(0), "b": mk(1)}), \
            Ref([0, 1], "dict", ["a", "b"])
    if cfg == "dictr":
        return pmm.SequentialModel({"y": mk(0), "x": mk(1)}), \
            Ref([0, 1], "dict", ["y", "x"])
    if cfg == "nested":
        return pmm.SequentialModel([mk(0), [mk(1), mk(2)]]), \
            Ref([0, [1, 2]], "list")
    if cfg == "inner":
        return pmm.SequentialModel(
            [pmm.SequentialModel([mk(0), mk(1)]), mk(2)]), \
            Ref([[0, 1], 2], "list")
    raise KeyError(cfg)


class World:
    def __init__(self, cfg, ctx):
        self.cfg, self.ctx = cfg, ctx
        self.m, self.r = initial(cfg)
        self.next = 4
        self.hist = []
        self.others = []     # (model, Ref): must keep their content

    # -- helpers ----------------------------------------------------------
    def fresh(self):
        k = self.next % len(MAPS)
        self.next += 1
        return k, HLin(*MAPS[k])

    def where(self):
        return f"{self.cfg}: " + " ; ".join(self.hist)

    def bad(self, kind, detail=""):
        self.ctx.fail(kind, f"after {self.where()}: {detail}")

    def ids(self, m):
        """Map indices held by the model, in the container's own order."""
        def walk(t):
            if isinstance(t, PLin):
                return [MAPS.index((t.w0, t.c0))]
            if isinstance(t, pmm.Model):
                return walk(t.modules)
            if isinstance(t, dict):
                return [x for v in t.values() for x in walk(v)]
            return [x for v in t for x in walk(v)]
        return walk(m.modules)

    def check_content(self):
        for m, r in [(self.m, self.r)] + self.others:
            if self.ids(m) != r.flat():
                self.bad("module arrangement differs",
                         f"model holds {self.ids(m)}, expected {r.flat()}"
                         + ("" if m is self.m else
                            " (a model that was not edited)"))
            want = {"list": list, "tuple": tuple, "dict": dict}[r.kind]
            if not isinstance(m.modules, want):
                self.bad("container type changed", type(m.modules))
            if r.kind == "dict":
                ks = list(m.modules.keys())
                for got, exp in zip(ks, r.keys):
                    if exp is not None and got != exp:
                        self.bad("module keys differ", f"{ks} vs {r.keys}")
            if r.shape is None and m.is_ready():
                self.bad("edited model still claims to be ready")
            if r.shape is not None and not m.is_ready():
                self.bad("compiled model is not ready")

    # -- operations -------------------------------------------------------
    def edits(self):
        n = len(self.r.items)
        ops = ["append", "prepend", "insert0", "insert1", "insert-1",
               "addkeep", "addmove", "setall"]
        if n > 0:
            ops += ["pop0", "pop-1"]
        if n > 1:
            ops += ["pop1", "pop-2"]
        if n > 0 and self.r.kind in ("list", "tuple"):
            ops += ["set0", "set-1", "popkey0", "popkey-1"]
        if n > 0 and self.r.kind == "dict":
            ops += ["setkey", "setnew", "popkey"]
        # (a nested model *object* handed to a second model by '+' is shared
        # between both by design, so it is not edited through one of them)
        if self.cfg == "inner" and not self.others and n and \
                isinstance(self.r.items[0], list) and \
                self.r.items[0] and self.r.kind == "list":
            ops += ["innerappend", "innerpop", "innerset"]
        if self.cfg == "nested" and n > 1 and \
                isinstance(self.r.items[1], list):
            ops += ["setpath"]
        return ops

    def expect(self, got, item):
        """Removed object must be the reference's item."""
        if isinstance(item, list):
            if isinstance(got, pmm.Model):
                got = got.modules
            ok = [MAPS.index((g.w0, g.c0)) for g in got] == item
        else:
            ok = isinstance(got, PLin) and \
                MAPS.index((got.w0, got.c0)) == item
        if not ok:
            self.bad("wrong module handed back", f"{got} expected {item}")

    def insert(self, i, k, key=None):
        self.r.items.insert(i, k)
        if self.r.keys is not None:
            self.r.keys.insert(i, key)
        self.r.shape = None

    def remove(self, i):
        it = self.r.items.pop(i)
        if self.r.keys is not None:
            self.r.keys.pop(i)
        self.r.shape = None
        return it

    def do(self, op):
        self.hist.append(op)
        self.ctx.step()
        m, r = self.m, self.r
        n = len(r.items)
        if op == "append":
            k, mod = self.fresh()
            m.append_module(mod)
            self.insert(n, k)
        elif op == "prepend":
            k, mod = self.fresh()
            key = "k%d" % self.next if r.kind == "dict" else None
            m.prepend_module(mod, key=key)
            self.insert(0, k, key)
        elif op.startswith("insert"):
            k, mod = self.fresh()
            i = int(op[6:])
            key = "k%d" % self.next if r.kind == "dict" else None
            m.insert_module(i, mod, key=key)
            self.insert(i, k, key)
        elif op in ("pop0", "pop-1", "pop1", "pop-2"):
            i = int(op[3:])
            got = m.pop_module_by_index(i)
            self.expect(got, self.remove(i))
        elif op in ("popkey0", "popkey-1"):
            i = int(op[6:])
            got = m.pop_module_by_key(i)
            self.expect(got, self.remove(i))
        elif op == "popkey":
            key = list(m.modules.keys())[-1]
            got = m.pop(key)
            self.expect(got, self.remove(n - 1))
        elif op in ("set0", "set-1"):
            k, mod = self.fresh()
            i = int(op[3:])
            m[i] = mod
            r.items[i] = k
            r.shape = None
        elif op == "setkey":
            k, mod = self.fresh()
            m[list(m.modules.keys())[0]] = mod
            r.items[0] = k
            r.shape = None
        elif op == "setnew":
            k, mod = self.fresh()
            key = "n%d" % self.next
            m[key] = mod
            self.insert(n, k, key)
        elif op == "setall":
            k, mod = self.fresh()
            k2, mod2 = self.fresh()
            m[None] = [mod, mod2]
            r.items, r.kind, r.keys, r.shape = [k, k2], "list", None, None
        elif op == "setpath":
            k, mod = self.fresh()
            m[(1, 0)] = mod
            r.items[1][0] = k
            r.shape = None
        elif op in ("addkeep", "addmove"):
            k, mod = self.fresh()
            b = m + mod
            rb = Ref([list(x) if isinstance(x, list) else x
                      for x in r.items] + [k], r.kind,
                     None if r.keys is None else r.keys + [None])
            if op == "addkeep":
                self.others.append((b, rb))
            else:
                self.others.append((m, r))
                self.m, self.r = b, rb
        elif op == "innerappend":
            k, mod = self.fresh()
            m.modules[0].append(mod)
            r.items[0].append(k)
            r.shape = None
        elif op == "innerpop":
            got = m.modules[0].pop_module_by_index(0)
            self.expect(got, r.items[0].pop(0))
            r.shape = None
        elif op == "innerset":
            k, mod = self.fresh()
            m.modules[0][0] = mod
            r.items[0][0] = k
            r.shape = None
        elif op in ("compile", "compile2"):
            s = S1 if op == "compile" else S2
            m.compile(lib.key(1), s)
            r.shape = s if r.flat() else None
        elif op in EVALS:
            self.evaluate(op)
        else:
            raise KeyError(op)
        # a model emptied of modules cannot be ready
        if r.empty():
            r.shape = None

    # -- evaluation -------------------------------------------------------
    def truth(self, X, order):
        Y = np.asarray(X, np.float64)
        for k in order:
            w, c = MAPS[k]
            Y = w * Y + c
        return Y

    def evaluate(self, how, model=None, ref=None):
        m, r = (model, ref) if model is not None else (self.m, self.r)
        shape = r.shape or S1
        X = grid((3,) + shape)

        def ev():
            if how == "call":
                return m(X)
            if how == "callb":
                return m(X, max_batch_size=2)
            if how == "gin":
                return m.grad_input(X)
            return m.grad_params(X)
        if r.shape is None:
            core.expect_error(self.ctx, ev, "evaluated without recompiling",
                              f"after {self.where()}")
            self.ctx.outcome("refused")
            return
        got = ev()
        wrong = self.mismatch(how, got, X, r.flat())
        if wrong is None:
            self.ctx.outcome("ok")
            return
        if r.kind == "dict":
            # documented insertion order vs sorted-key order
            items = sorted(zip(m.modules.keys(), r.items))
            order = []
            for _, it in items:
                order.extend(it if isinstance(it, list) else [it])
            if order != r.flat() and \
                    self.mismatch(how, got, X, order) is None:
                self.ctx.finding(
                    "dict-order", "modules applied out of order",
                    f"after {self.where()}: keys {list(m.modules.keys())}")
                self.ctx.outcome("known dict order")
                return
        self.bad("wrong result of " + how, wrong)

    def mismatch(self, how, got, X, order):
        if how in ("call", "callb"):
            want = self.truth(X, order)
            return lib.same(np.asarray(got), want, 1e-6, 1e-6)
        if how == "gin":
            d = X.shape[1]
            a = np.prod([MAPS[k][0] for k in order])
            want = np.broadcast_to(np.eye(d) * a, (X.shape[0], d, d))
            return lib.same(np.asarray(got), want, 1e-6, 1e-6)
        # gpar: leaves per module (c, w); compare as a multiset-free list in
        # the container's flattened order, identified by value of the input
        want = {}
        Y = np.asarray(X, np.float64)
        for p, k in enumerate(order):
            rest = np.prod([MAPS[j][0] for j in order[p + 1:]] or [1.0])
            want.setdefault(k, []).append((MAPS[k][0] * rest * Y, rest))
            w, c = MAPS[k]
            Y = w * Y + c
        # match the gradient of each module to the module object it is for
        flat = []

        def walk(mods, g):
            if isinstance(mods, PLin):
                flat.append((MAPS.index((mods.w0, mods.c0)), g))
            elif isinstance(mods, pmm.Model):
                walk(mods.modules, g)
            elif isinstance(mods, dict):
                for k in mods:
                    walk(mods[k], g[k])
            else:
                if len(mods) != len(g):
                    raise ValueError("gradient structure differs")
                for a, b in zip(mods, g):
                    walk(a, b)
        try:
            walk(self.m.modules, got)
        except Exception as e:
            return f"gradient structure: {e}"
        for k, g in flat:
            if k not in want or not want[k]:
                return f"unexpected gradient for module {k}"
            dw, dc = want[k].pop(0)
            for name, w in (("w", dw[..., None]),
                            ("c", np.full(X.shape + (1,), dc))):
                d = lib.same(np.asarray(g[name]), w, 1e-6, 1e-6)
                if d:
                    return f"parameter {name} of module {k}: {d}"
        return None

    def observe(self, hows=EVALS, others=True):
        """Whatever happened: compile and evaluate what is held now."""
        if self.r.empty():
            return
        self.evaluate("call")
        if self.r.shape is None:
            self.do("compile")
        self.check_content()
        for h in hows:
            self.do(h)
        if others:
            for m, r in self.others:
                if r.shape is not None:
                    self.evaluate("call", m, r)


def edit_tree(cfg, depth):
    """All edit histories up to depth, generated from the reference's enabled
    operations (content only)."""
    return [[op] for op in World(cfg, core.Ctx({})).edits()]


def cases(tier):
    out = []
    d = 3 if tier == "quick" else 4
    for cfg in CONFIGS:
        for (op,) in edit_tree(cfg, 1):
            out.append({"t": "edits", "cfg": cfg, "first": op, "depth": d,
                        "eval": d - 1})
    for cfg in CONFIGS:
        for e1 in EVALS:
            out.append({"t": "cache", "cfg": cfg, "e1": e1,
                        "two": tier == "thorough"})
    return out


def run(case, ctx):
    cfg = case["cfg"]
    if case["t"] == "edits":
        frontier = [[case["first"]]]
        while frontier:
            nxt = []
            for h in frontier:
                w = World(cfg, ctx)
                for op in h:
                    w.do(op)
                    w.check_content()
                ctx.state(cfg, tuple(h))
                ctx.trace()
                if len(h) < case["depth"]:
                    nxt += [h + [op] for op in w.edits()]
                if len(h) <= case["eval"]:
                    with jax.disable_jit():
                        w.observe(["call"])
            frontier = nxt
        return
    # cache patterns, really jit compiled
    e1 = case["e1"]
    firsts = World(cfg, ctx).edits() + ["compile2", "compile"]
    for ed in firsts:
        for start in ("fresh", "recompiled"):
            if start == "recompiled" and not ed.startswith("compile") \
                    and not case["two"]:
                continue
            w = World(cfg, ctx)
            if start == "recompiled":
                w.do("compile2")
                w.do(e1)
            w.do("compile")
            w.do(e1)
            w.do(ed)
            w.check_content()
            ctx.state(cfg, e1, ed, start)
            ctx.trace()
            if case["two"]:
                for ed2 in w.edits():
                    w2 = World(cfg, ctx)
                    for op in w.hist:
                        w2.do(op)
                    if w2.r.empty():
                        continue
                    if w2.r.shape is None:
                        w2.do("compile")
                    w2.do(e1)
                    w2.do(ed2)
                    w2.check_content()
                    ctx.state(cfg, e1, ed, ed2, start)
                    ctx.trace()
                    w2.observe([e1] if e1 != "call" else ["call"])
            # from the stale state, every evaluation kind must be fresh
            w.observe([e1] + [e for e in ("call",) if e != e1])
