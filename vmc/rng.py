"""Control of jax's random source.  Inside `Source`, every request jax.random.uniform(key, shape) is answered by
the harness; the answers are what the exploration enumerates.  jax caches are dropped on entry and exit so that
no compiled function keeps an answer of another mode."""
from __future__ import annotations

import math

import jax
import jax._src.random as jsr
import jax.numpy as jnp
import numpy as np


class Source:
    """answers: callable(shape, dtype) -> array.  `requests` lists the shapes asked for (per trace)."""

    def __init__(self, answers, clear=True):
        self.answers, self.requests, self.clear = answers, [], clear

    def __enter__(self):
        self.saved = (jsr.uniform, jax.random.uniform)

        def uniform(key, shape=(), dtype=float, minval=0.0, maxval=1.0, **kw):
            shape = tuple(int(s) for s in (shape if hasattr(shape, "__iter__") else (shape,)))
            self.requests.append(shape)
            dtype = jax.dtypes.canonicalize_dtype(dtype)
            u = self.answers(key, shape, dtype)
            return u * (maxval - minval) + minval

        jsr.uniform = jax.random.uniform = uniform
        if self.clear:
            jax.clear_caches()
        return self

    def __exit__(self, *a):
        jsr.uniform, jax.random.uniform = self.saved
        if self.clear:
            jax.clear_caches()


def queue(values):
    """Answers in order of the draws, also below vmap: (answers, log).  log counts the values handed out."""
    it = list(values)
    log = {"used": 0}

    def pop(keydata, shape, dtype):
        k = int(math.prod(shape))
        out = np.array([it[(log["used"] + i) % len(it)] for i in range(k)], dtype).reshape(shape)
        log["used"] += k
        return out

    def answers(key, shape, dtype):
        data = jax.random.key_data(key) if jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key
        return jax.pure_callback(
            lambda kd: pop(kd, shape, dtype), jax.ShapeDtypeStruct(shape, dtype), data, vmap_method="sequential"
        )

    return answers, log


def fixed(U):
    """The first prod(shape) entries of U (may be a tracer); an error if more are asked for."""

    def answers(key, shape, dtype):
        k = int(math.prod(shape))
        if k != U.shape[0]:
            raise LookupError(f"{k} random numbers requested, {U.shape[0]} scripted")
        return jnp.asarray(U, dtype).reshape(shape)

    return answers


def stratified(key, shape, dtype):
    """A representative answer: the midpoints of prod(shape) equal cells, in a scrambled order."""
    k = int(math.prod(shape))
    step = next(s for s in range(max(1, int(k * 0.618)), 2 * k + 2) if math.gcd(s, k) == 1)
    u = ((np.arange(k) * step) % k + 0.5) / k
    return jnp.asarray(u.reshape(shape), dtype)


def hoeffding(n, width, delta=1e-10):
    return width * math.sqrt(math.log(2 / delta) / (2 * n))
