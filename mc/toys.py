"""User-style modules with observable, closed-form behaviour."""
import jax
import jax.numpy as jnp
from parametricmatrixmodels.modules import BaseModule, FuncBase


class Lin(FuncBase):
    """x -> a*x + b on every leaf (non-commuting for different (a, b))."""
    __version__ = "0.0.0"

    def __init__(self, a=1.0, b=0.0):
        self.a = a
        self.b = b

    def f(self, data):
        return jax.tree.map(lambda x: self.a * x + self.b, data)

    def get_hyperparameters(self):
        return {"a": self.a, "b": self.b}


class PLin(BaseModule):
    """x -> w*x + c with parameters {'w','c'} (scalars as shape (1,))."""
    __version__ = "0.0.0"

    def __init__(self, w=2.0, c=0.5, real=True):
        self.w0, self.c0, self.real = w, c, real
        self.p = None

    @property
    def name(self):
        return "PLin"

    def is_ready(self):
        return self.p is not None

    def compile(self, rng, input_shape, /):
        if self.p is None:
            dt = jnp.float32 if self.real else jnp.complex64
            self.p = {"w": jnp.full((1,), self.w0, dt),
                      "c": jnp.full((1,), self.c0, dt)}

    def get_output_shape(self, input_shape, /):
        return input_shape

    def get_hyperparameters(self):
        return {"w0": self.w0, "c0": self.c0, "real": self.real}

    def get_params(self):
        return self.p

    def set_params(self, params, /):
        self.p = params

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            w, c = params["w"][0], params["c"][0]
            return jax.tree.map(lambda x: w * x + c, data), state
        return fn


class Fold(BaseModule):
    """Causal stateful module: samples are folded one by one into the state;
    s <- g*s + sum(x_i);  y_i = x_i + s_before.  Partition independent, order
    sensitive.  Optionally only counts while training."""
    __version__ = "0.0.0"

    def __init__(self, g=0.5, s0=1.0, train_only=False):
        self.g, self.s0, self.train_only = g, s0, train_only
        self.s = jnp.asarray([float(s0)], dtype=jnp.float32)

    @property
    def name(self):
        return "Fold"

    def is_ready(self):
        return True

    def compile(self, rng, input_shape, /):
        pass

    def get_output_shape(self, input_shape, /):
        return input_shape

    def get_hyperparameters(self):
        return {"g": self.g, "s0": self.s0, "train_only": self.train_only}

    def get_params(self):
        return ()

    def set_params(self, params, /):
        pass

    def get_state(self):
        return self.s

    def set_state(self, state, /):
        self.s = state

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            lv, st = jax.tree.flatten(data)
            tot = sum(jnp.sum(x.reshape(x.shape[0], -1).real, axis=1)
                      for x in lv)

            def body(s, t):
                return (self.g * s + t).astype(s.dtype), s
            new, before = jax.lax.scan(body, state[0], tot)
            out = [x + before.reshape((-1,) + (1,) * (x.ndim - 1))
                   .astype(x.dtype) for x in lv]
            if self.train_only and not training:
                return data, state
            return jax.tree.unflatten(st, out), new[None]
        return fn


class Count(BaseModule):
    """State counts the calls made in training mode; output passes through."""
    __version__ = "0.0.0"

    def __init__(self):
        self.s = {"n": jnp.zeros((1,), jnp.float32)}

    @property
    def name(self):
        return "Count"

    def is_ready(self):
        return True

    def compile(self, rng, input_shape, /):
        pass

    def get_output_shape(self, input_shape, /):
        return input_shape

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return ()

    def set_params(self, params, /):
        pass

    def get_state(self):
        return self.s

    def set_state(self, state, /):
        self.s = state

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            if training:
                state = {"n": state["n"] + 1}
            return data, state
        return fn


class Noise(BaseModule):
    """Adds one uniform number drawn from the module's key."""
    __version__ = "0.0.0"

    def __init__(self, scale=1.0):
        self.scale = scale

    @property
    def name(self):
        return "Noise"

    def is_ready(self):
        return True

    def compile(self, rng, input_shape, /):
        pass

    def get_output_shape(self, input_shape, /):
        return input_shape

    def get_hyperparameters(self):
        return {"scale": self.scale}

    def get_params(self):
        return ()

    def set_params(self, params, /):
        pass

    def _get_callable(self):
        def fn(params, data, training, state, rng):
            r = self.scale * jax.random.uniform(rng, (), jnp.float32)
            return jax.tree.map(lambda x: x + r.astype(x.dtype), data), state
        return fn
