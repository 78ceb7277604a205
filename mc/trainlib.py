"""Scripted training: monitors and reference models for Model.train."""
import jax
import jax.numpy as jnp
import numpy as np
from parametricmatrixmodels.modules import BaseModule


class Tick(BaseModule):
    """Passes the data through and reports the number of training calls made
    so far as an extra output {"y": data, "n": count}.  The counter is the
    module's state, so it advances exactly with the training batches seen."""
    __version__ = "0.0.0"

    def __init__(self):
        self.s = jnp.zeros((1,), jnp.float32)

    @property
    def name(self):
        return "Tick"

    def is_ready(self):
        return True

    def compile(self, rng, input_shape, /):
        pass

    def get_output_shape(self, input_shape, /):
        return {"y": input_shape, "n": (1,)}

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return ()

    def set_params(self, params, /):
        pass

    def get_state(self):
        return self.s

    def set_state(self, state, /):
        self.s = state

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            b = jax.tree.leaves(data)[0].shape[0]
            n = jnp.broadcast_to(state[None, :], (b, 1))
            if training:
                state = state + 1
            return {"y": data, "n": n}, state
        return fn


class Par(BaseModule):
    """y = w*x + c with parameters {"w", "c"}, any number type."""
    __version__ = "0.0.0"

    def __init__(self, w=0.5, c=0.25, dtype="float64"):
        self.w0, self.c0, self.dt = w, c, dtype
        self.p = {"w": jnp.full((1,), w, dtype), "c": jnp.full((1,), c,
                                                               dtype)}

    @property
    def name(self):
        return "Par"

    def is_ready(self):
        return True

    def compile(self, rng, input_shape, /):
        pass

    def get_output_shape(self, input_shape, /):
        return input_shape

    def get_hyperparameters(self):
        return {"w0": self.w0, "c0": self.c0, "dt": self.dt}

    def set_hyperparameters(self, h):
        self.w0, self.c0, self.dt = h["w0"], h["c0"], h["dt"]

    def get_params(self):
        return self.p

    def set_params(self, params, /):
        self.p = params

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            w, c = params["w"][0], params["c"][0]
            return jax.tree.map(lambda x: w * x + c, data), state
        return fn


class Log(list):
    """Ordered record of host callbacks."""

    def hook(self, tag, *xs):
        def rec(*vals):
            self.append((tag,) + tuple(jax.tree.map(np.array, v)
                                       for v in vals))
        jax.debug.callback(rec, *xs, ordered=True)

    def flush(self):
        jax.effects_barrier()
        out = list(self)
        self.clear()
        return out


# ---------------------------------------------------------------------------
# reference optimizer (numpy; real and complex parameters)

class Slot:
    """One parameter array with its optimizer memory."""

    def __init__(self, x):
        self.x = np.array(x)
        self.fresh()

    def fresh(self):
        self.m = np.zeros_like(self.x)
        self.v = np.zeros_like(self.x)
        self.i = 0

    def copy(self):
        s = Slot(self.x)
        s.m, s.v, s.i = self.m.copy(), self.v.copy(), self.i
        return s

    def update(self, g, lr, b1=0.9, b2=0.999, eps=1e-8, clip=1e3):
        """g = dL/dRe + i dL/dIm (steepest ascent direction)."""
        if np.iscomplexobj(self.x):
            g = np.clip(g.real, -clip, clip) + 1j * np.clip(
                g.imag, -clip, clip)
            g2 = np.abs(g) ** 2
        else:
            g = np.clip(np.real(g), -clip, clip)
            g2 = g * g
        self.m = b1 * self.m + (1 - b1) * g
        self.v = b2 * self.v + (1 - b2) * g2
        t = self.i + 1
        a = lr(self.i) if callable(lr) else lr
        mh = self.m / (1 - b1 ** t)
        vh = self.v / (1 - b2 ** t)
        self.x = self.x - a * mh / (np.sqrt(vh) + eps)

    def tick(self):
        self.i += 1


def ref_grads(loss, xs):
    """Gradients of a real scalar function of a list of real or complex
    arrays, as dL/dRe + i dL/dIm."""
    parts = [(jnp.asarray(np.real(x)), jnp.asarray(np.imag(x))
              if np.iscomplexobj(x) else None) for x in xs]

    def g(ps):
        return loss([r if i is None else r + 1j * i for r, i in ps])
    gs = jax.grad(g)(parts)
    return [np.asarray(r) if i is None else np.asarray(r)
            + 1j * np.asarray(i) for r, i in gs]
