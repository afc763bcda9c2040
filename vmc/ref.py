"""Reference semantics: a deliberately boring dense simulator in numpy.

Nothing here imports horqrux or jax.  Qubit 0 is the most significant bit.  Every object is described
by plain JSON data ("descriptors"):

  gate       {"g": "RX", "t": [1], "c": [0], "p": "a" | 0.3, "n": [["BitFlip", 0.1], ...], "s": shift}
  composite  {"k": "seq"|"add"|"scale"|"obs"|"qc", "ops": [...], "p": name-or-number (scale),
              "nq": n (qc), "fp": [names] (qc)}
"""
from __future__ import annotations

import cmath
import itertools
import math
from functools import lru_cache

import numpy as np

I2 = np.eye(2, dtype=complex)
PX = np.array([[0, 1], [1, 0]], dtype=complex)
PY = np.array([[0, -1j], [1j, 0]], dtype=complex)
PZ = np.array([[1, 0], [0, -1]], dtype=complex)
_r = 1 / math.sqrt(2)
FIXED = {
    "I": I2,
    "X": PX,
    "NOT": PX,
    "Y": PY,
    "Z": PZ,
    "H": np.array([[_r, _r], [_r, -_r]], dtype=complex),
    "S": np.diag([1, 1j]).astype(complex),
    "T": np.diag([1, cmath.exp(1j * math.pi / 4)]),
    "SWAP": np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex),
    "SQRTSWAP": np.array(
        [[1, 0, 0, 0], [0, (1 + 1j) / 2, (1 - 1j) / 2, 0], [0, (1 - 1j) / 2, (1 + 1j) / 2, 0], [0, 0, 0, 1]],
        dtype=complex,
    ),
    "ISWAP": np.array([[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]], dtype=complex),
    "ISQRTSWAP": np.array(
        [[1, 0, 0, 0], [0, _r, 1j * _r, 0], [0, 1j * _r, _r, 0], [0, 0, 0, 1]], dtype=complex
    ),
}
ONEQ = ("I", "X", "NOT", "Y", "Z", "H", "S", "T")
TWOQ = ("SWAP", "SQRTSWAP", "ISWAP", "ISQRTSWAP")
ROT = ("RX", "RY", "RZ")
PARAM = ROT + ("PHASE",)
GEN = {"RX": PX, "RY": PY, "RZ": PZ}


def base_matrix(name: str, theta=None, order: int = 0) -> np.ndarray:
    """Textbook matrix (or its order-th derivative with respect to theta) of a gate."""
    if name in FIXED:
        assert order == 0
        return FIXED[name]
    if name == "PHASE":
        e = cmath.exp(1j * theta) * (1j**order)
        return np.diag([0 if order else 1, e]).astype(complex)
    G = GEN[name]
    # d^k/dt^k cos(t/2) = 2^-k cos(t/2 + k pi/2)
    c = math.cos(theta / 2 + order * math.pi / 2) / 2**order
    s = math.sin(theta / 2 + order * math.pi / 2) / 2**order
    return c * I2 - 1j * s * G


def embed(U: np.ndarray, targets, controls, n: int, derivative: bool = False) -> np.ndarray:
    """2^n matrix of U on `targets` (first target = most significant bit of U's index), acting where all
    controls are 1; elsewhere the identity (or zero, for derivatives)."""
    d = 2**n
    M = np.zeros((d, d), dtype=complex)
    k = len(targets)
    for col in range(d):
        bits = [(col >> (n - 1 - q)) & 1 for q in range(n)]
        if not all(bits[c] for c in controls):
            if not derivative:
                M[col, col] = 1
            continue
        cin = 0
        for t in targets:
            cin = 2 * cin + bits[t]
        for rin in range(2**k):
            out = list(bits)
            for j, t in enumerate(targets):
                out[t] = (rin >> (k - 1 - j)) & 1
            row = 0
            for b in out:
                row = 2 * row + b
            M[row, col] += U[rin, cin]
    return M


def expm_herm(H: np.ndarray, t: float) -> np.ndarray:
    w, v = np.linalg.eigh(H)
    return (v * np.exp(-1j * w * t)) @ v.conj().T


def angle(g: dict, values: dict):
    p = g["p"]
    return (values[p] if isinstance(p, str) else p) + g.get("s", 0.0)


@lru_cache(maxsize=200000)
def _cached(name, theta, targets, controls, n, order):
    return embed(base_matrix(name, theta, order), targets, controls, n, derivative=order > 0)


def gate_matrix(g: dict, values: dict, n: int, order: int = 0) -> np.ndarray:
    t, c = tuple(g["t"]), tuple(g.get("c", ()))
    if g["g"] == "HEVO":
        H = np.asarray(values["hamiltonian"])
        # derivatives are taken with respect to the time
        U = np.linalg.matrix_power(-1j * H, order) @ expm_herm(H, float(values["time_evolution"]))
        return embed(U, t, c, n, derivative=order > 0)
    theta = float(angle(g, values)) if g["g"] in PARAM else None
    return _cached(g["g"], theta, t, c, n, order)


def kraus(kind: str, p) -> list[np.ndarray]:
    s = math.sqrt
    if kind == "BitFlip":
        return [s(1 - p) * I2, s(p) * PX]
    if kind == "PhaseFlip":
        return [s(1 - p) * I2, s(p) * PZ]
    if kind == "Depolarizing":
        return [s(1 - p) * I2] + [s(p / 3) * P for P in (PX, PY, PZ)]
    if kind == "PauliChannel":
        return [s(max(0.0, 1 - sum(p))) * I2] + [s(q) * P for q, P in zip(p, (PX, PY, PZ))]
    if kind == "AmplitudeDamping":
        return [np.array([[1, 0], [0, s(1 - p)]], complex), np.array([[0, s(p)], [0, 0]], complex)]
    if kind == "PhaseDamping":
        return [np.array([[1, 0], [0, s(1 - p)]], complex), np.array([[0, 0], [0, s(p)]], complex)]
    if kind == "GeneralizedAmplitudeDamping":
        q, r = p
        return [
            s(q) * np.array([[1, 0], [0, s(1 - r)]], complex),
            s(q) * np.array([[0, s(r)], [0, 0]], complex),
            s(1 - q) * np.array([[s(1 - r), 0], [0, 1]], complex),
            s(1 - q) * np.array([[0, 0], [s(r), 0]], complex),
        ]
    raise KeyError(kind)


NOISE_KINDS = (
    "BitFlip", "PhaseFlip", "Depolarizing", "PauliChannel", "AmplitudeDamping", "PhaseDamping",
    "GeneralizedAmplitudeDamping",
)


def apply_channel(rho: np.ndarray, kind: str, p, qubit: int, n: int) -> np.ndarray:
    out = np.zeros_like(rho)
    for K in kraus(kind, p):
        M = embed(K, (qubit,), (), n)
        out = out + M @ rho @ M.conj().T
    return out


def flat(desc) -> list[dict]:
    """Gates of a (nested) sequence/circuit in application order."""
    if isinstance(desc, (list, tuple)):
        return [g for d in desc for g in flat(d)]
    if "g" in desc:
        return [desc]
    assert desc["k"] in ("seq", "qc"), desc
    return flat(desc["ops"])


def matrix(desc, values: dict, n: int) -> np.ndarray:
    """Matrix of the linear map of a gate or composite on n qubits."""
    if "g" in desc:
        return gate_matrix(desc, values, n)
    ms = [matrix(d, values, n) for d in desc["ops"]]
    if desc["k"] in ("add", "obs"):
        return sum(ms)
    M = np.eye(2**n, dtype=complex)
    for m in ms:
        M = m @ M
    if desc["k"] == "scale":
        p = desc["p"]
        M = (values[p] if isinstance(p, str) else p) * M
    return M


def support(desc) -> set[int]:
    if "g" in desc:
        return set(desc["t"]) | set(desc.get("c", ()))
    return set().union(set(), *(support(d) for d in desc["ops"]))


def run_vec(desc, values, psi: np.ndarray, n: int) -> np.ndarray:
    for g in flat(desc):
        psi = gate_matrix(g, values, n) @ psi
    return psi


def run_dm(desc, values, rho: np.ndarray, n: int) -> np.ndarray:
    for g in flat(desc):
        U = gate_matrix(g, values, n)
        rho = U @ rho @ U.conj().T
        for kind, p in g.get("n", ()):
            assert len(g["t"]) == 1
            rho = apply_channel(rho, kind, p, g["t"][0], n)
    return rho


def has_noise(desc) -> bool:
    return any(g.get("n") for g in flat(desc))


def names(desc) -> list[str]:
    return sorted({g["p"] for g in flat(desc) if isinstance(g.get("p"), str)})


# ---------------------------------------------------------------- derivatives (product rule, exact)


def _splits(key):
    """All ways to split a tuple of names into two (positions are distinguished)."""
    for mask in range(2 ** len(key)):
        a = tuple(k for i, k in enumerate(key) if mask >> i & 1)
        b = tuple(k for i, k in enumerate(key) if not mask >> i & 1)
        yield a, b


def jet_mul(A: dict, B: dict, keys) -> dict:
    out = {}
    for key in keys:
        acc = None
        for a, b in _splits(key):
            if a in A and b in B:
                t = A[a] @ B[b]
                acc = t if acc is None else acc + t
        if acc is not None:
            out[key] = acc
    return out


def jet_keys(wrt, order):
    ks = [()]
    for o in range(1, order + 1):
        ks += list(itertools.combinations_with_replacement(sorted(wrt), o))
    return ks


def gate_jet(g, values, n, keys):
    J = {(): gate_matrix(g, values, n)}
    p = "time_evolution" if g["g"] == "HEVO" else g.get("p")
    if isinstance(p, str):
        for key in keys:
            if key and all(k == p for k in key):
                J[key] = gate_matrix(g, values, n, order=len(key))
    return J


def dag(J):
    return {k: v.conj().T for k, v in J.items()}


def run_dm_jet(desc, values, rho, n, wrt, order=1) -> dict:
    """{(): rho, ('a',): d rho/da, ('a','b'): ...} after the (noisy) circuit."""
    keys = jet_keys(wrt, order)
    R = {(): rho}
    for g in flat(desc):
        U = gate_jet(g, values, n, keys)
        R = jet_mul(jet_mul(U, R, keys), dag(U), keys)
        for kind, p in g.get("n", ()):
            R = {k: apply_channel(v, kind, p, g["t"][0], n) for k, v in R.items()}
    return R


def matrix_jet(desc, values, n, keys) -> dict:
    if "g" in desc:
        return gate_jet(desc, values, n, keys)
    js = [matrix_jet(d, values, n, keys) for d in desc["ops"]]
    if desc["k"] in ("add", "obs"):
        out = {}
        for j in js:
            for k, v in j.items():
                out[k] = out[k] + v if k in out else v
        return out
    M = {(): np.eye(2**n, dtype=complex)}
    for j in js:
        M = jet_mul(j, M, keys)
    if desc["k"] == "scale":
        p = desc["p"]
        c = {(): np.array([[values[p] if isinstance(p, str) else p]])}
        if isinstance(p, str) and (p,) in keys:
            c[(p,)] = np.array([[1.0]])
        out = {}
        for key in keys:
            acc = None
            for a, b in _splits(key):
                if a in c and b in M:
                    t = c[a][0, 0] * M[b]
                    acc = t if acc is None else acc + t
            if acc is not None:
                out[key] = acc
        return out
    return M


def expectation_jet(circ, obs, values_c, values_o, rho, n, wrt_c, wrt_o, order=1) -> dict:
    """Derivatives of Re tr(O rho(values)); circuit and observable names are kept apart by prefixes."""
    kc, ko = jet_keys(wrt_c, order), jet_keys(wrt_o, order)
    R = run_dm_jet(circ, values_c, rho, n, wrt_c, order)
    O = matrix_jet(obs, values_o, n, ko)
    out = {}
    for a, Ra in R.items():
        for b, Ob in O.items():
            if len(a) + len(b) <= order:
                out[(a, b)] = float(np.trace(Ob @ Ra).real)
    return out


# ---------------------------------------------------------------- states


def basis(bits: str) -> np.ndarray:
    v = np.zeros(2 ** len(bits), dtype=complex)
    v[int(bits, 2) if bits else 0] = 1
    return v


def generic_vec(n: int, seed: int, tag: int = 0) -> np.ndarray:
    """A state with no symmetry: all amplitudes and phases distinct and bounded away from 0."""
    rng = np.random.RandomState(1000 * seed + 17 * n + tag)
    d = 2**n
    mod = 0.5 + rng.permutation(d) / d + 0.3 * rng.rand(d) / d
    v = mod * np.exp(2j * np.pi * (rng.permutation(d) + 0.3 * rng.rand(d)) / d + 0.37j)
    return v / np.linalg.norm(v)


def generic_dm(n: int, seed: int, tag: int = 0) -> np.ndarray:
    """Full-rank mixed state without symmetry."""
    d = 2**n
    ws = np.array([0.45, 0.3, 0.25])
    rho = sum(w * np.outer(v, v.conj()) for w, v in ((w, generic_vec(n, seed, tag + 50 + i)) for i, w in enumerate(ws)))
    return 0.9 * rho + 0.1 * np.diag(np.arange(1, d + 1) / (d * (d + 1) / 2))


def outer(v):
    return np.outer(v, v.conj())


def act_vec(g, values, psi, n, order=0):
    """Acts on vectors (or the columns of a matrix) of any size by index arithmetic, without a 2^n x 2^n matrix."""
    t, c = tuple(g["t"]), tuple(g.get("c", ()))
    if g["g"] == "HEVO":
        U = expm_herm(np.asarray(values["hamiltonian"]), float(values["time_evolution"]))
    else:
        U = base_matrix(g["g"], float(angle(g, values)) if g["g"] in PARAM else None, order)
    col = (slice(None),) + (None,) * (psi.ndim - 1)
    idx = np.arange(2**n)
    on = np.ones(2**n, bool)
    for q in c:
        on &= ((idx >> (n - 1 - q)) & 1).astype(bool)
    out = np.where(on[col], 0, 0 if order else psi).astype(complex)
    row = np.zeros(2**n, int)
    clear = idx.copy()
    for q in t:
        row = 2 * row + ((idx >> (n - 1 - q)) & 1)
        clear &= ~(1 << (n - 1 - q))
    for j in range(2 ** len(t)):
        src = clear.copy()
        for pos, q in enumerate(t):
            if (j >> (len(t) - 1 - pos)) & 1:
                src |= 1 << (n - 1 - q)
        out = out + np.where(on[col], U[row, j][col] * psi[src], 0)
    return out


def act_dm(g, values, rho, n):
    """U rho U^dagger for registers of any size (noiseless)."""
    return act_vec(g, values, act_vec(g, values, rho, n).conj().T, n).conj().T
