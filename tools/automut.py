#!/usr/bin/env python3
"""automut.py FILE CHECK[,CHECK..] COUNT [SEED]: first-order mutants.

Draws COUNT mutants of a source file (relative to parametricmatrixmodels/),
applies each in the copy named by MC_REPO and runs the checks until one
reports it.  Survivors are printed with their line for a human to judge.
"""
import ast, os, random, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ["MC_REPO"]
f, checks, count = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
rnd = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 0)
path = os.path.join(REPO, "parametricmatrixmodels", f)
src = open(path).read()
tree = ast.parse(src)
lines = src.splitlines(keepends=True)
off = [0]
for l in lines:
    off.append(off[-1] + len(l.encode()))
raw = src.encode()
pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
seg = lambda n: raw[slice(*pos(n))].decode()
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//"}
muts = []
SKIP = ("warn", "print", "jaxtyped", "beartype", "ValueError", "RuntimeError", "TypeError", "NotImplementedError")


def visit(n, skip=False):
    if isinstance(n, (ast.Raise, ast.Assert, ast.JoinedStr)):
        return
    if isinstance(n, ast.Call):
        name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
        if name in SKIP:
            return
        for i, k in enumerate(n.keywords):
            if k.arg and len(n.keywords) + len(n.args) > 1 and k.arg not in ("is_leaf", "verbose"):
                a, b = pos(k)
                e = b
                while raw[e:e + 1] in b" \n\t":
                    e += 1
                if raw[e:e + 1] == b",":
                    muts.append((n.lineno, f"drop {seg(k)[:40]}", a, e + 1, ""))
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
        a, b = pos(n.left)[1], pos(n.comparators[0])[0]
        if raw[a:b].strip().decode().strip("() \n") in ("<", "<=", ">", ">=", "==", "!=", "is", "is not", "in", "not in"):
            muts.append((n.lineno, f"{seg(n)[:60]} : {CMP[type(n.ops[0])]}", a, b, f" {CMP[type(n.ops[0])]} "))
    if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)):
        if not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)):
            a, b = pos(n.left)[1], pos(n.right)[0]
            t = raw[a:b].decode()
            if t.strip() in "+-*/ // %".split():
                muts.append((n.lineno, f"{seg(n)[:60]} : {BIN[type(n.op)]}", a, b, t.replace(t.strip(), BIN[type(n.op)])))
    if isinstance(n, ast.BoolOp):
        new = " or " if isinstance(n.op, ast.And) else " and "
        a, b = pos(n.values[0])[1], pos(n.values[1])[0]
        t = raw[a:b].decode().strip("() \n")
        if t in ("and", "or") and b"(" not in raw[a:b] and b")" not in raw[a:b]:
            muts.append((n.lineno, f"{seg(n)[:60]} :{new}", a, b, new))
    if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
        a, b = pos(n)
        new = str(not n.value) if isinstance(n.value, bool) else repr(n.value + 1) if isinstance(n.value, int) else repr(n.value * 2)
        muts.append((n.lineno, f"{n.value} : {new}", a, b, new))
    if isinstance(n, (ast.If, ast.IfExp)):
        if not any(isinstance(x, ast.Raise) for x in (n.body if isinstance(n, ast.If) else [])):
            a, b = pos(n.test)
            muts.append((n.lineno, f"if {seg(n.test)[:60]} : not", a, b, f"(not ({seg(n.test)}))"))
        elif isinstance(n, ast.If):
            n = ast.If(test=ast.Constant(None), body=[], orelse=n.orelse)
    if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and hasattr(n, "lineno"):
        v = n.value
        if not (isinstance(n, ast.Expr) and not isinstance(v, ast.Call)):
            nm = ""
            if isinstance(v, ast.Call):
                nm = v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, "id", "")
            if nm not in SKIP and (isinstance(n, (ast.Expr, ast.AugAssign)) or isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
                a, b = pos(n)
                muts.append((n.lineno, f"delete {seg(n)[:60]}", a, b, "pass"))
    for fld, val in ast.iter_fields(n):
        if fld in ("decorator_list", "annotation", "returns", "defaults", "kw_defaults") :
            continue
        for x in val if isinstance(val, list) else [val]:
            if isinstance(x, ast.AST):
                visit(x)


for n in tree.body:
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        visit(n)
skiplines = set()
for n in ast.walk(tree):
    if isinstance(n, ast.FunctionDef) and (n.name.startswith(("__repr__", "__str__", "name")) or "progress" in n.name):
        skiplines |= set(range(n.lineno, n.end_lineno + 1))
muts = [m for m in muts if m[0] not in skiplines]
rnd.shuffle(muts)
print(f"{f}: {len(muts)} mutants, drawing {count}", flush=True)
done = killed = 0
for line, what, a, b, new in muts:
    if done >= count:
        break
    text = raw[:a] + new.encode() + raw[b:]
    try:
        ast.parse(text)
    except SyntaxError:
        continue
    done += 1
    open(path, "wb").write(text)
    try:
        hit = None
        for c in checks:
            try:
                r = subprocess.run([os.path.join(HERE, "check"), c], capture_output=True, text=True, cwd=HERE, timeout=600)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc != 0:
                hit = f"{c} rc={rc}"
                break
    finally:
        open(path, "wb").write(raw)
    killed += hit is not None
    print(("killed  " if hit else "SURVIVED"), f"{f}:{line}", " ".join(what.split()), hit or "", flush=True)
print(f"{f}: {killed}/{done} killed", flush=True)
