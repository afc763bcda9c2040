"""Fingerprints of library objects through their documented attributes: two objects with the same fingerprint
describe the same program.  Used to compare objects and to detect modified arguments."""
from __future__ import annotations

import numpy as np

from . import build

_ABSENT = object()
ATTRS = ("generator_name", "target", "control", "param", "shift", "parameter", "n_qubits", "type", "error_probability")


def plain(x):
    """Hashable/JSON-like view of an attribute value."""
    if x is None or isinstance(x, (str, bool)):
        return str(x) if isinstance(x, str) else x
    if isinstance(x, (tuple, list)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    a = np.asarray(x)
    if a.ndim == 0:
        return repr(complex(a) if np.iscomplexobj(a) else float(a))
    return [a.shape, a.dtype.kind, a.tobytes().hex() if a.size < 64 else hash(a.tobytes())]


def of(o, sparse=True):
    """sparse=False leaves the dense/sparse choice out."""
    if isinstance(o, (list, tuple)):
        return [type(o).__name__, [of(x, sparse) for x in o]]
    if isinstance(o, dict):
        return ["dict", [[str(k), of(v, sparse)] for k, v in o.items()]]  # order matters to the caller
    if isinstance(o, build.DensityMatrix):
        return ["DensityMatrix", plain(o.array)]
    if isinstance(o, build.BCOO):
        return ["BCOO", plain(o.data), plain(o.indices), list(o.shape)]
    if isinstance(o, (str, int, float, complex, np.generic, np.ndarray, build.jax.Array)) or o is None:
        return plain(o)
    out = {"class": type(o).__name__}
    for a in ATTRS:
        v = getattr(o, a, _ABSENT)
        if v is not _ABSENT:
            out[a] = plain(v)
    if isinstance(o, build.OpSequence):
        out["operations"] = [of(x, sparse) for x in o.operations]
        if hasattr(o, "fparams"):
            out["fparams"] = sorted(str(x) for x in o.fparams)
    else:
        if hasattr(o, "noise"):
            out["noise"] = of(tuple(o.noise), sparse) if o.noise is not None else None
        if sparse and hasattr(o, "sparse"):
            out["sparse"] = bool(o.sparse)
    return out
