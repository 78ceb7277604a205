#!/usr/bin/env python3
"""Writes DESIGN.md from the prose below, the bounds declared in mc/*.py,
known_findings.txt and the results of tools/seedtest.py."""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)

INTRO = """# Model checking pyPMM

## Approach
Every property is decided by bounded exhaustive exploration *executed on the
real code* in /repo: no sampling, no solver.  A check (`mc/cXX.py`) defines

* a finite space: all configurations, inputs or operation histories within the
  bounds stated below (`cases(tier)` enumerates it; nothing is drawn at random,
  and `VERIF_SEED` has no influence);
* a step function that drives the real package through each point of it, with
  toy modules (`mc/toys.py`) where the code under test is the container
  (models, training, wrapping) and with the package's own modules where they
  are what is judged;
* a reference model: a list of functions, a dataflow interpreter, the stopping
  automaton, a numpy Adam, a numpy scaler, written-out sums, central
  differences, ... that is written from the documentation and carried through
  the same history.  After *every* transition the observable state of the real
  object is compared with that of the reference.

So there is no separate model that could drift away from the code: each trace
of the reference is replayed on the implementation as it is explored
("traces" in the evidence counts complete histories replayed).

`./check CXX [thorough]` (or `tier` by VERIF_TIER) imports the package from
/repo's working tree (pure Python; nothing to build), spreads the cases over 8
processes (`mc/run.py`), prints counts of states, transitions and traces, and
writes `evidence/CXX.json`.  A violation stores a replay file
(`evidence/replays/`), `./check CXX --replay FILE` repeats that case alone.
An exception of the code under test inside an admissible operation is a
violation ("unexpected ..."), too.  A case that hangs is ended by a time limit
and reported.

Where jit compilation is not what a property is about, histories are executed
under `jax.disable_jit()`: 3 to 5 times as many histories fit into the same
time.  Every such check also has compiled histories.

## What bounded exploration reaches that tests do not
Tests evaluate some models on some inputs.  The defects found here (below)
needed combinations: a mode requested *before*, a remainder batch *and* a
state, a frozen module *inside* a partly frozen one, a tuple instead of a list,
a tree instead of an array, a signal between two particular outputs.  Small
bounds suffice because all parts of the package are oblivious to magnitude:
sizes beyond 3 or 4 (modules, samples, epochs, tree depth) exercise no new
branch.

## Judging behaviour, not text
No check looks at source text, private attributes or internal call order,
except: C08/C09 observe batches through user-supplied loss functions and
modules (public interface); C20 injects signals from user-supplied modules and
from the output stream; C16 falls back to `_get_callable` for parameter values
a module refuses to take.  Tolerances are far above rounding and far
below any effect of a defect; each is stated as an assumption.

## Properties
"""

WHY = {
"C01": "Oracle: the same model evaluated without a limit (sample by sample for stateful ones in closed form).  Histories of calls on one object catch stale cached callables.",
"C02": "Oracle: an independent table of shape functions, and the shapes of the data really produced.  Every pair of modules is composed, every (compiled, offered) pair of structures is tried.",
"C03": "Oracle: a Python list of affine functions with dyadic coefficients; every history of edits is applied to both.",
"C04": "Oracle: a dataflow interpreter for the connection dictionary.  All edge sets over 2 and 3 modules include every cycle, dangling and unconnected pattern of that size.",
"C05": "Oracle: the original; everything observable is compared (parameters, state, key, flags, hyperparameters, optimizer state, predictions, a resumed training run), and one-sided operations must not show on the other side.",
"C06": "Oracle: the stopping automaton (best so far, wait counter, epoch).  Validation losses are scripted by a loss function, so each path of the automaton is one real run.",
"C07": "Oracle: a numpy Adam that holds the frozen parameters constant; bitwise comparison for frozen parameters.",
"C08": "Oracle: the multiset of (sample, target, uncertainty) triples, tagged by unique values, seen by the loss functions in each epoch.",
"C09": "Oracle: a numpy Adam stepping on the recorded batches; uninterrupted runs for resumed ones.",
"C10": "Oracle: counting covered calibration targets against ceil((n+1)(1-alpha)) at every threshold of alpha and on both sides of it.",
"C11": "Oracle: a freshly wrapped model calibrated once with the last calibration's arguments.",
"C12": "Oracle: per-leaf numpy scalers; every column of few samples over a small alphabet, so every constant, two-valued and ordered pattern occurs.",
"C13": "Oracle: the sorted spectrum the matrix was built from.",
"C14": "Oracle: the documented formulas in numpy.",
"C15": "Oracle: a functional model of nested containers and numpy on every leaf.",
"C16": "Oracle: central differences of the model's own predictions (single components, or directions in general position when there are many parameters), a closed form for histories.",
"C17": "Oracle: parameters, states and key carried along in closed form; two-sided comparison of everything before and after each operation.",
"C18": "Oracle: closed-form definitions in numpy; losses also through the gradient of one training step.",
"C19": "Oracle: per-sample sums over all index values.",
"C20": "Oracle: the C06 automaton cut at the interrupted epoch.  The injection points are all calls of the model, the losses, callbacks and all writes to the output stream of a run: the run is deterministic, so the k-th write is a well-defined point.",
"C21": "Oracle: the formulas of the class documentation in numpy, on derivatives taken one sample at a time and on plain pairwise distances.  Cases in which a distance meets the cutoff exactly, or the spread vanishes for some but not all components, are not judged.",
}

NOTES = """## False alarms corrected on the way
* C04: positions of a numbered list nothing is connected to are `None` (the
  repository's tests rely on it); a cycle outside the part the output needs is
  ignored.
* C10: a bare `True` for stratified bias corrections is a global bias.
* C11: tolerance 1e-5, as calibrations run in float32 in forward mode.
* C13: among eigenvalues of equal magnitude either order is right.
* C16: functions without derivative in JAX (NextAfter), points close to poles
  (Tan) and, for models mixing samples of a batch, limits that split it.
* C17: boolean states are outside the declared state type; Python's global
  random state is used by the run-time type checker (beartype), not by the
  package.
* C05/C07: training a model with nothing to train may be refused.

## Genuine behaviour recorded rather than repaired
The `finding:` lines of known_findings.txt: the execution order of dictionary
models is not the documented one (JAX sorts dictionary keys; a repair would
reorder the modules of existing saved models), and five element-wise modules whose output
shape differs from the declared one (repairing them means a shape function per
class).  The checks print KNOWN-FINDING for exactly these keys.

## Limits
* Numbers are explored on small grids of values in general position, not
  symbolically: a defect that shows only at isolated values off these grids
  (e.g. one constant compared with `==`) is out of reach.
* Sizes are bounded as stated; concurrency is absent from the package (signal
  delivery, C20, is the only asynchronous behaviour).
* GPU back ends, plotting, progress formatting and performance are outside.
"""


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS", "TECHNIQUE",
                                        "RULE"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


P = [json.loads(l) for l in open("properties.jsonl")]
txt = INTRO
for p in P:
    c = consts(f"mc/{p['id'].lower()}.py")
    txt += f"\n### {p['id']} {p['title']}\n{p['statement']}\n\n"
    txt += f"*Method*: {c.get('TECHNIQUE', 'exhaustive enumeration')}.  "
    txt += f"{WHY[p['id']]}\n\n*States*: {c.get('RULE', '')}.\n\n"
    b = c.get("BOUNDS", {})
    txt += f"*Quick*: {b.get('quick')}.\n\n*Thorough*: {b.get('thorough')}.\n"
    if c.get("ASSUMPTIONS"):
        txt += "\n*Assumptions*: " + "; ".join(c["ASSUMPTIONS"]) + ".\n"
txt += "\n" + NOTES
txt += "\n## Defects found and repaired\n"
for l in open("known_findings.txt"):
    if l.startswith("fixed:"):
        txt += "* " + l[7:].replace("property=", "").strip() + "\n"
txt += "\n## Defects recorded\n"
for l in open("known_findings.txt"):
    if l.startswith("finding:"):
        txt += "* " + l[9:].replace("property=", "").strip() + "\n"
txt += "\n## Planted bugs\n"
res = json.load(open("tools/seed_results.json")) if os.path.exists(
    "tools/seed_results.json") else {}
txt += "| bug | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob("seeded/*/meta.json")):
    i = d.split("/")[1]
    m = json.load(open(d))
    txt += (f"| {i} | {m['property']} | {m['needs']} | "
            f"{', '.join(res.get(i, [])) or 'not run yet'} |\n")
open("DESIGN.md", "w").write(txt)
