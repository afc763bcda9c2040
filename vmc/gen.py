"""Enumerations shared by the checks: layouts, angles, alphabets, words."""
from __future__ import annotations

import itertools
import math

import numpy as np

from . import core, ref

PI = math.pi
SEED = core.SEED


def rnd(k: int, lo=-3.0, hi=3.0, tag=0):
    """k seed-dependent generic numbers (bounded away from the special angles)."""
    r = np.random.RandomState(7919 * SEED + 31 * tag + 5)
    return [round(float(x), 12) for x in lo + (hi - lo) * (np.arange(k) + 0.2 + 0.6 * r.rand(k)) / k]


ANGLES = [0.0, PI / 2, -PI / 2, PI, -PI, 2 * PI, 4 * PI, 7.5, 1e-6]


def layouts(n, k, max_controls=None, ordered_controls=True):
    """All ordered k-target tuples with all ordered (or ascending) control tuples on n qubits."""
    qs = range(n)
    for t in itertools.permutations(qs, k):
        rest = [q for q in qs if q not in t]
        mc = len(rest) if max_controls is None else min(max_controls, len(rest))
        for m in range(mc + 1):
            it = itertools.permutations(rest, m) if ordered_controls else itertools.combinations(rest, m)
            for c in it:
                yield list(t), list(c)


def n_targets(name):
    return 2 if name in ref.TWOQ else 1


def words(alphabet, lo, hi):
    for k in range(lo, hi + 1):
        for w in itertools.product(range(len(alphabet)), repeat=k):
            yield list(w)


def chunks(seq, size):
    seq = list(seq)
    return [seq[i : i + size] for i in range(0, len(seq), size)]


def shapes(k):
    """All full binary/flat nestings of k leaves, as nested lists of leaf indices (Catalan-style, plus flat)."""

    def rec(lo, hi):
        if hi - lo == 1:
            yield lo
            return
        # split into 2..(hi-lo) consecutive parts
        for parts in _compositions(lo, hi):
            if len(parts) < 2:
                continue
            for combo in itertools.product(*(list(rec(a, b)) for a, b in parts)):
                yield list(combo)

    return list(rec(0, k)) if k else [[]]


def _compositions(lo, hi):
    if lo == hi:
        yield []
        return
    for mid in range(lo + 1, hi + 1):
        for rest in _compositions(mid, hi):
            yield [(lo, mid)] + rest


# ways to write a number; the values are exactly representable in every one of them
KINDS = ("int", "np64", "np32", "float32", "float64", "arr0", "iarr0", "jfloat", "jint", "jint32", "jf32")
KIND_TOL = {"float32": 3e-6, "jf32": 3e-6}


def number(kind: str, x: float):
    if kind in ("int", "np64", "np32", "iarr0", "jint", "jint32"):
        assert x == int(x)
    if kind[0] == "j":
        import jax.numpy as jnp

        return jnp.asarray(x, dtype={"jfloat": jnp.float64, "jint": jnp.int64, "jint32": jnp.int32, "jf32": jnp.float32}[kind])
    return {
        "int": int, "np64": np.int64, "np32": np.int32, "float32": np.float32, "float64": np.float64,
        "arr0": lambda v: np.array(float(v)), "iarr0": lambda v: np.array(int(v)),
    }[kind](x)


def kind_values(kind):
    return (1, -3, 0, 2) if kind in ("int", "np64", "np32", "iarr0", "jint", "jint32") else (0.5, -1.25, 3.0)
