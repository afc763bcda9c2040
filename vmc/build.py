"""Builds horqrux objects from descriptors, using documented names only."""
from __future__ import annotations

import json
import zlib

import numpy as np

from . import env

hq = env.load()

import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
from jax.experimental.sparse import BCOO  # noqa: E402

from horqrux import Add, Observable, QuantumCircuit, Scale  # noqa: E402
from horqrux.analog import HamiltonianEvolution  # noqa: E402
from horqrux.composite import OpSequence  # noqa: E402
from horqrux.noise import DigitalNoiseInstance, DigitalNoiseType  # noqa: E402
from horqrux.primitives import parametric as _par  # noqa: E402
from horqrux.primitives import primitive as _prim  # noqa: E402
from horqrux.utils.operator_utils import DensityMatrix, density_mat  # noqa: E402

FIXED = {
    n: getattr(_prim, n)
    for n in ("I", "X", "NOT", "Y", "Z", "H", "S", "T", "SWAP", "SQRTSWAP", "ISWAP", "ISQRTSWAP")
}
PARAM = {n: getattr(_par, n) for n in ("RX", "RY", "RZ", "PHASE")}
NOISE = {
    "BitFlip": DigitalNoiseType.BITFLIP,
    "PhaseFlip": DigitalNoiseType.PHASEFLIP,
    "Depolarizing": DigitalNoiseType.DEPOLARIZING,
    "PauliChannel": DigitalNoiseType.PAULI_CHANNEL,
    "AmplitudeDamping": DigitalNoiseType.AMPLITUDE_DAMPING,
    "PhaseDamping": DigitalNoiseType.PHASE_DAMPING,
    "GeneralizedAmplitudeDamping": DigitalNoiseType.GENERALIZED_AMPLITUDE_DAMPING,
}


def index(qs, form="int"):
    """Qubit indices in one of the accepted spellings."""
    if form == "int":
        return int(qs[0]) if len(qs) == 1 else tuple(int(q) for q in qs)
    if form == "tuple":
        return tuple(int(q) for q in qs)
    if form == "np":
        return np.int64(qs[0]) if len(qs) == 1 else tuple(np.int64(q) for q in qs)
    if form == "nptuple":
        return tuple(np.int64(q) for q in qs)
    if form == "np32":
        return np.int32(qs[0]) if len(qs) == 1 else tuple(np.int32(q) for q in qs)
    raise KeyError(form)


def noise(ns):
    if not ns:
        return None
    return tuple(
        DigitalNoiseInstance(NOISE[k], tuple(p) if isinstance(p, (list, tuple)) else p) for k, p in ns
    )


def gate(g, sparse=False, form="int"):
    t = index(g["t"], form)
    kw = {}
    if g.get("c"):
        kw["control"] = index(g["c"], form)
    if g["g"] == "HEVO":
        return HamiltonianEvolution(t, **kw)
    if g.get("n"):
        kw["noise"] = noise(g["n"])
    if sparse:
        kw["sparse"] = True
    if g["g"] in PARAM:
        out = PARAM[g["g"]](g["p"], t, **kw)
        if g.get("s"):  # a shifted gate: the constructor of the class takes the shift
            out = type(out)(out.generator_name, out.target[0], out.control[0], out.noise, out.sparse, out.param, float(g["s"]))
        return out
    return FIXED[g["g"]](t, **kw)


def obj(d, sparse=False, form="int", memo=None):
    """Builds a descriptor.  Equal parts of it become one and the same object in half of the cases (by a checksum of
    the descriptor), and distinct equal objects in the others: users write both."""
    if memo is None:
        memo = {} if zlib.crc32(json.dumps(d, sort_keys=True, default=str).encode()) & 1 else False
    if memo is not False:
        key = json.dumps(d, sort_keys=True, default=str)
        if key not in memo:
            memo[key] = _obj(d, sparse, form, memo)
        return list(memo[key]) if isinstance(d, list) else memo[key]
    return _obj(d, sparse, form, memo)


def _obj(d, sparse, form, memo):
    if isinstance(d, list):
        return [obj(x, sparse, form, memo) for x in d]
    if "g" in d:
        return gate(d, sparse, form)
    ops = [obj(x, sparse, form, memo) for x in d["ops"]]
    k = d["k"]
    if k == "seq":
        return OpSequence(ops)
    if k == "add":
        return Add(ops)
    if k == "obs":
        return Observable(ops)
    if k == "scale":
        # a single composite is passed bare, several operations as a list: both documented spellings
        return Scale(ops[0] if len(ops) == 1 else ops, d["p"])
    if k == "qc":
        if d.get("fp") is not None:
            return QuantumCircuit(d["nq"], ops, list(d["fp"]))
        return QuantumCircuit(d["nq"], ops)
    raise KeyError(k)


def vec(psi, n):
    return jnp.asarray(psi).reshape((2,) * n)


def dm(rho, n):
    return DensityMatrix(jnp.asarray(rho).reshape((2,) * (2 * n)))


def sp(psi, n):
    return BCOO.fromdense(jnp.asarray(psi).reshape((2,) * n))


def to_np(x, n=None):
    """numpy view of any state: vectors flat, density matrices square."""
    if isinstance(x, DensityMatrix):
        a = np.asarray(x.array)
        d = int(round(a.size**0.5))
        if n is not None and a.shape != (2,) * (2 * n):
            raise AssertionError(f"density matrix array has shape {a.shape}, expected {(2,) * (2 * n)}")
        return a.reshape(d, d)
    if isinstance(x, BCOO):
        x = x.todense()
    a = np.asarray(x)
    if n is not None and a.shape != (2,) * n:
        raise AssertionError(f"state has shape {a.shape}, expected {(2,) * n}")
    return a.ravel()


def dense(x):
    return np.asarray(x.todense() if isinstance(x, BCOO) else x)
