"""Shared helpers: imports of the code under test, comparisons, scratch dirs."""
import os
import shutil
import sys
import tempfile
from contextlib import contextmanager

os.environ.setdefault("JAX_ENABLE_X64", "1")
REPO = os.environ.get("MC_REPO", "/repo")   # MC_REPO: development only
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402
import parametricmatrixmodels as pmm  # noqa: E402
from parametricmatrixmodels import modules as M  # noqa: E402

F32, F64, C64, C128 = jnp.float32, jnp.float64, jnp.complex64, jnp.complex128


def is_shape(x):
    return isinstance(x, tuple) and all(
        isinstance(i, (int, np.integer)) for i in x)


def leaves(t):
    return jax.tree.leaves(t)


def struct(t):
    return jax.tree.structure(t)


def host(t):
    """Tree of numpy arrays (random keys are turned into their data)."""
    def h(x):
        if isinstance(x, jax.Array) and jnp.issubdtype(
                x.dtype, jax.dtypes.prng_key):
            return np.asarray(jax.random.key_data(x))
        return np.asarray(x)
    return jax.tree.map(h, t)


def show(t, n=600):
    try:
        return str(jax.tree.map(
            lambda x: np.asarray(x).tolist()
            if np.asarray(x).size < 40 else np.asarray(x).shape, host(t)))[:n]
    except Exception:
        return repr(t)[:n]


def same(a, b, rtol=1e-9, atol=1e-9, dtype=False):
    """None if the trees agree, else a description of the difference."""
    if struct(a) != struct(b):
        return f"structure {struct(a)} vs {struct(b)}"
    for i, (x, y) in enumerate(zip(leaves(host(a)), leaves(host(b)))):
        if x.shape != y.shape:
            return f"leaf {i}: shape {x.shape} vs {y.shape}"
        if dtype and x.dtype != y.dtype:
            return f"leaf {i}: dtype {x.dtype} vs {y.dtype}"
        if x.dtype.kind in "OUSV" or y.dtype.kind in "OUSV":
            if not np.array_equal(x, y):
                return f"leaf {i}: {x} vs {y}"
            continue
        if not np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True):
            return (f"leaf {i}: values differ (max "
                    f"{np.max(np.abs(x - y)) if x.size else 0}):\n{x}\nvs\n{y}")
    return None


def exact(a, b, dtype=True):
    if struct(a) != struct(b):
        return f"structure {struct(a)} vs {struct(b)}"
    for i, (x, y) in enumerate(zip(leaves(host(a)), leaves(host(b)))):
        if x.shape != y.shape:
            return f"leaf {i}: shape {x.shape} vs {y.shape}"
        if dtype and x.dtype != y.dtype:
            return f"leaf {i}: dtype {x.dtype} vs {y.dtype}"
        if not np.array_equal(x, y, equal_nan=x.dtype.kind in "fc"):
            return f"leaf {i}: {x} vs {y}"
    return None


def shapes(t, drop=1):
    return jax.tree.map(lambda x: tuple(int(s) for s in x.shape[drop:]), t)


def grid(shape, start=0.3, step=0.37, mod=2.9, dtype=np.float64):
    """Deterministic, distinct-ish, sign-mixed values."""
    n = int(np.prod(shape)) if len(shape) else 1
    v = np.array([((start + step * k * (k + 1) / 2 + 0.11 * k) % mod) - mod / 2
                  for k in range(n)])
    return jnp.asarray(v.reshape(shape), dtype=dtype)


def cgrid(shape, start=0.3):
    return grid(shape, start) + 1j * grid(shape, start + 0.91, 0.53)


def herm(n, start=0.3):
    a = cgrid((n, n), start)
    return (a + a.conj().T) / 2


@contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="pmmcheck-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def key(i):
    return jax.random.key(i)
