"""For every channel, every probability (tuple) of a lattice covering [-1/2, 3/2] with its boundary neighbours
is used to build the channel: outside the valid set the real code must raise ValueError, inside it must give
finite Kraus operators satisfying sum K^dagger K = 1 and equal (as a channel) to the documented formula.  The
same decision is checked through the application of a noisy gate on a sub-lattice."""
from __future__ import annotations

import itertools
import math

import numpy as np

from .. import gen, ref

PROPERTY = "C06"
ASSUMPTIONS = ["NaN probabilities are not claimed", "Pauli lattice is dyadic so that sums are exact"]
EPS1 = float(np.nextafter(1.0, 2.0))


def _line(tier):
    k = 16 if tier == "quick" else 128
    xs = [i / k for i in range(-k // 2, k + k // 2 + 1)]
    return xs + [-5e-324, -1e-300, -1e-9, EPS1, 1 + 1e-9, 1e-300, 1e-12, 1 - 1e-12, float(np.nextafter(1.0, 0.0)), 2.0, -1.0, 17.0, -3.5, 1e300, math.inf, -math.inf]


def _sub(tier):
    return [-0.25, -1e-9, 0.0, 0.25, 0.5, 0.75, 1.0, 1 + 1e-9, 1.25] if tier == "quick" else [i / 8 for i in range(-2, 11)] + [-1e-9, 1 + 1e-9]


def bounds(tier):
    return dict(single=len(_line(tier)), pauli_triples="all triples over %d values, and sums within 1e-11..1e-3 of 1" % len(_tri(tier)), gad_pairs="all pairs over %d values" % len(_sub(tier)) )


def _tri(tier):
    k = 4 if tier == "quick" else 8
    return [i / k for i in range(-1, k + 2)] + [-1e-9]


SINGLE = ("BitFlip", "PhaseFlip", "Depolarizing", "AmplitudeDamping", "PhaseDamping")


def units(tier):
    us = []
    for k in SINGLE:
        us.append([dict(k=k, p=p, form=f, route="kraus") for p in _line(tier) for f in (("float", "np", "jnp") if p in (0.0, 0.5, 1.0, EPS1, -0.25) else ("float",))])
        us.append([dict(k=k, p=p, form="float", route="gate") for p in _sub(tier)])
        us[-2] += [dict(k=k, p=p, form="int", route="kraus") for p in (0, 1, 2, -1)]
    us += gen.chunks([dict(k="PauliChannel", p=list(p), form="float", route="kraus") for p in itertools.product(_tri(tier), repeat=3)], 150)
    us.append([dict(k="PauliChannel", p=list(p), form="float", route="gate") for p in itertools.product([-0.25, 0.0, 0.5, 1.0, 1.25], repeat=3)])
    us.append([dict(k="PauliChannel", p=p, form=f, route="kraus") for f in ("int", "np") for p in ([0, 0, 0], [1, 0, 0], [0, 0, 1], [1, 1, 0], [0, 2, -1])])
    # sums that exceed or miss 1 by very little, whoever carries the excess
    near = [[x, y, z] for e in (1e-11, 1e-9, 1e-8, 5e-8, 1e-7, 1e-6, 1e-5, 1e-3) for sg in (1, -1) for x, y, z in
            {p for q in ((0.5, 0.5 if sg > 0 else 0.5 - e, e if sg > 0 else 0.0), (1.0 if sg > 0 else 1 - e, 0.0, e if sg > 0 else 0.0), (0.25, 0.25, 0.5 + sg * e), (1 / 3, 1 / 3, 1 / 3 + sg * e)) for p in itertools.permutations(q)}]
    us += gen.chunks([dict(k="PauliChannel", p=p, form=f, route="kraus") for p in sorted(near) for f in ("float", "np")], 150)
    us.append([dict(k=k, p=p, form="np32", route="kraus") for k in SINGLE for p in (0.0, 0.5, 1.0, 1.25, -0.25, 0.0625)])
    us.append([dict(k="PauliChannel", p=p, form="np32", route="kraus") for p in ([0.5, 0.25, 0.25], [0.5, 0.5, 0.25], [0.0, 1.0, 0.0], [0.125, 0.5, 0.25], [-0.5, 0.5, 0.5])])
    line2 = _sub(tier) + [EPS1, float(np.nextafter(0.0, -1.0)), 2.0, 1e-12]
    us += gen.chunks([dict(k="GeneralizedAmplitudeDamping", p=list(p), form="float", route="kraus") for p in itertools.product(line2, repeat=2)], 100)
    us.append([dict(k="GeneralizedAmplitudeDamping", p=list(p), form="float", route="gate") for p in itertools.product([-0.25, 0.0, 0.5, 1.0, 1.25], repeat=2)])
    us.append([dict(k="GeneralizedAmplitudeDamping", p=p, form=f, route="kraus") for f in ("int", "np") for p in ([0, 0], [1, 0], [0, 1], [1, 1], [2, 0], [0, -1])])
    return us


def valid(k, p):
    ps = p if isinstance(p, list) else [p]
    if any(not (0 <= x <= 1) for x in ps):
        return False
    return k != "PauliChannel" or sum(ps) <= 1


def run_case(case, ctx):
    import jax.numpy as jnp

    from .. import build

    k, p, form = case["k"], case["p"], case["form"]
    conv = {"float": float, "int": int, "np": np.float64, "np32": np.float32, "jnp": lambda x: jnp.asarray(x)}[form]
    arg = tuple(conv(x) for x in p) if isinstance(p, list) else conv(p)
    ok = valid(k, p)
    ctx.step()
    ctx.trace()
    ctx.visit_key((k, str(p)))
    ctx.outcome((k, ok))
    ctx.count("valid" if ok else "invalid")

    def use():
        inst = build.DigitalNoiseInstance(build.NOISE[k], arg)
        if case["route"] == "kraus":
            return [np.asarray(x) for x in inst.kraus]
        n = 2
        out = []
        for st in (build.vec(ref.generic_vec(n, ctx.seed), n), build.dm(ref.generic_dm(n, ctx.seed), n)):
            try:
                out.append(build.to_np(build.hq.apply_gates(st, build.FIXED["H"](1, 0, (inst,)), {}), n))
            except ValueError:
                out.append(None)
        if all(o is None for o in out):
            raise ValueError
        return out

    if not ok:
        ctx.raises(ValueError, use, f"{k} with invalid probability {arg}")
        return
    r = use()
    if case["route"] == "kraus":
        tol = 1e-6 if form == "np32" else 1e-10  # numpy's single precision numbers are computed with as such
        S = sum(K.conj().T @ K for K in r)
        ctx.close(S, np.eye(2), f"closure relation of {k} {arg}", tol)
        # the channel itself, on all matrix units
        for e in np.eye(4).reshape(4, 2, 2):
            got = sum(K @ e @ K.conj().T for K in r)
            want = sum(K @ e @ K.conj().T for K in ref.kraus(k, p))
            ctx.close(got, want, f"{k} {arg}", tol)
    else:
        d = dict(g="H", t=[1], c=[0], n=[[k, p]])
        rhos = [ref.outer(ref.generic_vec(2, ctx.seed)), ref.generic_dm(2, ctx.seed)]
        for got, rho in zip(r, rhos):
            ctx.check(got is not None, f"{k} {arg}: valid noise refused")
            ctx.close(got, ref.run_dm([d], {}, rho, 2), f"{k} {arg} on a gate", 1e-10)
