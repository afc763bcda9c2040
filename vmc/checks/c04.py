"""Every gate x ordered layout x angle is applied to a generic mixed and a pure density matrix, and every word
of gates up to the depth bound to both, through every entry point, and compared with U rho U^dagger of the
model; for pure inputs the result must also be the outer product of the evolved vector."""
from __future__ import annotations

import numpy as np

from .. import gen, ref

PROPERTY = "C04"
ASSUMPTIONS = ["one generic full-rank mixed state and one generic pure state per register size; all matrix units |i><j| for n <= 2", "tolerance 1e-10"]
N = {"quick": 3, "thorough": 4}
DEPTH = {"quick": 3, "thorough": 4}
G = lambda g, t, c=(), p=None: dict(g=g, t=list(t), c=list(c), p=p)
ALPH = [
    G("H", [1]), G("RX", [0], p="a"), G("RY", [2], [0], "b"), G("X", [0], [2, 1]), G("SWAP", [2, 1]), G("ISWAP", [0, 2]),
    G("PHASE", [1], [2], "a"), G("T", [0]), G("RY", [0], p="b"),
]


def bounds(tier):
    return dict(qubits=N[tier], four_qubit_layouts="unsorted selection in quick", angles=_angles(tier), word_depth=DEPTH[tier], big_register=8)


def _angles(tier):
    return [0.0, gen.PI] + gen.rnd(2 if tier == "quick" else 5, -4, 4, 21)


def units(tier):
    us = []
    for n in range(1, N[tier] + 1):
        for k in (1, 2):
            for chunk in gen.chunks(gen.layouts(n, k), 2):
                us.append([dict(kind="lay", n=n, g=name, t=t, c=c) for t, c in chunk
                           for name in (ref.TWOQ if k == 2 else ref.ONEQ + ref.PARAM)])
    if tier == "quick":
        for t, c in [([1], [3, 0]), ([3], [0, 2, 1]), ([0], [3, 1]), ([2], []), ([3, 1], [2, 0]), ([0, 2], [3]), ([1, 3], [0]), ([3, 0], [])]:
            us.append([dict(kind="lay", n=4, g=name, t=t, c=c) for name in (ref.TWOQ if len(t) == 2 else ("Y", "S") + ref.PARAM)])
    us.append([dict(kind="big", n=8, g=g, t=t, c=c) for g, t, c in [("RX", [7], [1]), ("RY", [1], []), ("ISWAP", [7, 0], [3])]])
    us.append([dict(kind="big", n=9, g=g, t=t, c=c) for g, t, c in [("RX", [8], [1]), ("RY", [0], [8, 7, 6, 5, 4]), ("SQRTSWAP", [8, 1], [])]])
    us += gen.chunks([dict(kind="word", w=w) for w in gen.words(ALPH, 0, DEPTH[tier])], 40)
    return us


def run_case(case, ctx):
    import jax
    import jax.numpy as jnp

    from .. import build

    hq = build.hq
    if case["kind"] == "word":
        return word(case, ctx, build)
    n, name, t, c = case["n"], case["g"], case["t"], case["c"]
    rho = ref.generic_dm(n, ctx.seed)
    psi = ref.generic_vec(n, ctx.seed)
    big = case["kind"] == "big"
    grid = (_angles(ctx.tier) if not big else gen.rnd(1)) if name in ref.PARAM else [None]
    for i, th in enumerate(grid):
        named = th is not None and i % 2 == 0
        g = dict(g=name, t=t, c=c, p="th" if named else th)
        values = {"th": th} if named else {}
        gate = build.gate(g)
        want = ref.act_dm(g, values, rho, n)
        got = build.to_np(hq.apply_gates(build.dm(rho, n), gate, values), n)
        ctx.close(got, want, f"{g} on a mixed state", 1e-10)
        ctx.trace()
        ctx.step()
        if not big:
            ctx.visit(want)
        if big and i:
            continue
        D = hq.DensityMatrix if hasattr(hq, "DensityMatrix") else build.DensityMatrix
        pure = hq.apply_gates(build.density_mat(build.vec(psi, n)), gate, values)
        ctx.check(isinstance(pure, D), "a density matrix evolves into a density matrix")
        v = ref.act_vec(g, values, psi, n)
        ctx.close(build.to_np(pure, n), ref.outer(v), f"{g} on a pure density matrix", 1e-10)
        via = build.density_mat(hq.apply_gates(build.vec(psi, n), gate, values))
        ctx.close(build.to_np(via, n), ref.outer(v), f"density_mat of the evolved vector, {g}", 1e-10)
        ctx.trace(2)
        if not big and i == 0:
            got = build.to_np(gate(build.dm(rho, n), values), n)
            ctx.close(got, want, f"gate(density matrix) {g}", 1e-10)
            got = build.to_np(hq.apply_gates(build.dm(rho, n), [gate, gate], values), n)
            ctx.close(got, ref.act_dm(g, values, want, n), f"twice {g}", 1e-10)
            ctx.trace(2)
            if n <= 2:
                # the map on all matrix units decides every input
                M = ref.gate_matrix(g, values, n)
                f = jax.jit(jax.vmap(lambda a: hq.apply_gates(build.DensityMatrix(a), gate, values).array))
                d = 2**n
                units_ = np.eye(d * d).reshape((d * d,) + (2,) * (2 * n)).astype(complex)
                got = np.asarray(f(jnp.asarray(units_))).reshape(d * d, d, d)
                exp = np.array([M @ np.eye(d * d)[k].reshape(d, d) @ M.conj().T for k in range(d * d)])
                ctx.close(got, exp, f"{g} on all matrix units", 1e-10)
                ctx.trace(d * d)
                ctx.step(d * d)


def word(case, ctx, build):
    hq = build.hq
    n = 3
    descs = [ALPH[i] for i in case["w"]]
    values = dict(zip("ab", gen.rnd(2, tag=8)))
    rho = ref.generic_dm(n, ctx.seed, 1)
    psi = ref.generic_vec(n, ctx.seed, 1)
    qc = hq.QuantumCircuit(n, build.obj(descs))
    want = ref.run_dm(descs, values, rho, n)
    ctx.visit(want)
    ctx.close(build.to_np(hq.run(qc, build.dm(rho, n), values), n), want, f"run {descs} on a mixed state", 1e-10)
    ctx.trace()
    ctx.step(len(descs))
    if len(descs) <= 2 or case["w"][0] == case["w"][-1]:
        got = hq.apply_gates(build.dm(rho, n), list(iter(qc)), values)
        ctx.close(build.to_np(got, n), want, f"apply_gates {descs} on a mixed state", 1e-10)
        v = ref.run_vec(descs, values, psi, n)
        got = hq.run(qc, build.density_mat(build.vec(psi, n)), values)
        ctx.close(build.to_np(got, n), ref.outer(v), f"run {descs} on a pure density matrix", 1e-10)
        got = build.density_mat(hq.run(qc, build.vec(psi, n), values))
        ctx.close(build.to_np(got, n), ref.outer(v), f"density_mat(run {descs})", 1e-10)
        ctx.trace(3)
