"""Every gate x ordered layout x angle, dense and sparse, is applied in dagger mode (state vector, density
matrix, BCOO state) and, for parametric gates, in Jacobian mode, and compared with the conjugate transpose /
exact derivative of the model.  Every word up to the depth bound is applied and then undone by the reversed
list in dagger mode."""
from __future__ import annotations

import numpy as np

from .. import gen, ref

PROPERTY = "C03"
ASSUMPTIONS = ["Jacobian mode is claimed on state vectors (dense and sparse)", "tolerance 1e-10"]
N = {"quick": 3, "thorough": 4}
G = lambda g, t, c=(), p=None: dict(g=g, t=list(t), c=list(c), p=p)
ALPH = [
    G("H", [0]), G("S", [1]), G("T", [2]), G("RX", [1], p="a"), G("PHASE", [2], [0], "a"), G("RY", [0], [2, 1], "b"),
    G("ISWAP", [2, 0]), G("SQRTSWAP", [0, 1]), G("Y", [1], [2]), G("RZ", [0], p=0.9),
    dict(G("PHASE", [1], p="b"), s=0.8),
]
DEPTH = {"quick": 3, "thorough": 4}


def bounds(tier):
    return dict(sparse="one generic angle per layout for n >= 3 in quick, unsorted layouts there (all layouts in C12)", qubits=N[tier], controls="all ordered tuples", angles=_angles(tier), shifts=[0.0, 0.4, -1.1], number_kinds=list(gen.KINDS), word_depth=DEPTH[tier],
                representations=["dense", "sparse", "density matrix"], big_register=9)


def _angles(tier):
    return [0.0, gen.PI, -gen.PI / 2, 5.0] + gen.rnd(2 if tier == "quick" else 5, -4, 4, 11)


def units(tier):
    us = []
    for n in range(1, N[tier] + 1):
        for k in (1, 2):
            for chunk in gen.chunks(gen.layouts(n, k), 2):
                us.append([dict(kind="lay", n=n, g=name, t=t, c=c) for t, c in chunk
                           for name in (ref.TWOQ if k == 2 else ref.ONEQ + ref.PARAM)])
    if tier == "quick":  # four qubits: unsorted controls and targets
        for t, c in [([1], [3, 0]), ([3], [0, 2, 1]), ([0], [3, 1]), ([3, 1], [2, 0]), ([0, 2], [3])]:
            us.append([dict(kind="lay", n=4, g=name, t=t, c=c) for name in (ref.TWOQ if len(t) == 2 else ("S", "T", "H") + ref.PARAM)])
    us.append([dict(kind="big", n=9, g=g, t=t, c=c) for g, t, c in [
        ("RX", [8], [1]), ("PHASE", [1], [8]), ("RY", [8], []), ("S", [8], [1]), ("ISQRTSWAP", [8, 1], []), ("ISWAP", [1, 8], [0])]])
    us += gen.chunks([dict(kind="num", g=g, t=t, c=c, num=k) for g in ref.PARAM for t, c in (([0], []), ([0], [1])) for k in gen.KINDS], 22)
    us += gen.chunks([dict(kind="word", w=w) for w in gen.words(ALPH, 1, DEPTH[tier])], 50)
    return us


def run_case(case, ctx):
    import jax.numpy as jnp

    from horqrux.utils.operator_utils import OperationType as OT

    from .. import build

    hq = build.hq
    if case["kind"] == "word":
        return word(case, ctx, build, OT)
    if case["kind"] == "num":
        return num(case, ctx, build, OT)
    n, name, t, c = case["n"], case["g"], case["t"], case["c"]
    big = case["kind"] == "big"
    psi = ref.generic_vec(n, ctx.seed, 1)
    state = build.vec(psi, n)
    rho = None if big else ref.generic_dm(n, ctx.seed)
    grid = (_angles(ctx.tier) if not big else gen.rnd(1)) if name in ref.PARAM else [None]
    for i, th in enumerate(grid):
        for how in ("num", "name") if th is not None else ("fix",):
            values = {"th": th} if how == "name" else {}
            g = dict(g=name, t=t, c=c, p="th" if how == "name" else th)
            if th is not None and (i + (how == "num")) % 2:
                g["s"] = 0.4 if i % 3 else -1.1
            gate = build.gate(g)
            gate_sp = build.gate(g, sparse=True)
            gate_l = dict(g, p=th)
            jv = {k: jnp.asarray(v) for k, v in values.items()} if i % 2 else values
            # dagger on vectors: U^dagger computed by acting with the inverse matrix
            want = _dag_vec(g, values, psi, n)
            ctx.visit(want)
            got = build.to_np(hq.apply_gates(state, gate, jv, OT.DAGGER), n)
            ctx.close(got, want, f"dagger of {g}", 1e-10)
            ctx.trace()
            back = hq.apply_gates(hq.apply_gates(state, gate, jv), gate, jv, OT.DAGGER)
            ctx.close(build.to_np(back, n), psi, f"{g} then its dagger", 1e-10)
            ctx.trace()
            ctx.step(2)
            if not big:
                base = _base(g, values)
                ctx.close(build.dense(gate.dagger(jv)), base.conj().T, f"{g}.dagger(values)", 1e-12)
                if how != "num":
                    U = ref.gate_matrix(g, values, n)
                    got = build.to_np(hq.apply_gates(build.dm(rho, n), gate, jv, OT.DAGGER), n)
                    ctx.close(got, U.conj().T @ rho @ U, f"dagger of {g} on a density matrix", 1e-10)
                    ctx.trace()
            sp_state = build.sp(psi, n)
            # sparse kernels are retraced at every call (25 ms each): one generic angle, unless n is small or thorough
            sparse = (th is None or i == len(grid) - 1) and how != "num" or (n <= 2 and how == "name" and not i % 2) or ctx.tier == "thorough" and not big
            if n >= 3 and ctx.tier == "quick":
                sparse = sparse and (name in ("RX", "RY", "PHASE", "S", "ISWAP") or not c) and (sorted(t + c) != t + c or n > 3)
            if sparse:
                ctx.close(build.dense(gate_sp.dagger(jv)), _base(g, values).conj().T, f"sparse {g}.dagger(values)", 1e-12)
                got = build.to_np(hq.apply_gates(sp_state, gate_sp, jv, OT.DAGGER), n)
                ctx.close(got, want, f"sparse dagger of {g}", 1e-10)
                ctx.trace()
            if name in ref.PARAM:
                wj = ref.act_vec(gate_l, {}, psi, n, order=1)
                got = build.to_np(hq.apply_gates(state, gate, jv, OT.JACOBIAN), n)
                ctx.close(got, wj, f"Jacobian of {g} {values}", 1e-10)
                got = build.to_np(hq.apply_gates(state, [gate], jv, OT.JACOBIAN), n)
                ctx.close(got, wj, f"Jacobian of [{g}] {values}", 1e-10)
                if sparse:
                    got = build.to_np(hq.apply_gates(sp_state, gate_sp, jv, OT.JACOBIAN), n)
                    ctx.close(got, wj, f"sparse Jacobian of {g} {values}", 1e-10)
                    ctx.trace()
                ctx.trace(2)
                ctx.step()


def num(case, ctx, build, OT):
    """The angle as an integer, a numpy or jax number of any precision."""
    kind, n, hq = case["num"], 2, build.hq
    tol = gen.KIND_TOL.get(kind, 1e-10)
    psi = ref.generic_vec(n, ctx.seed, 3)
    st, sp = build.vec(psi, n), build.sp(psi, n)
    for i, x in enumerate(gen.kind_values(kind)):
        wd = ref.gate_matrix(dict(case, p=float(x)), {}, n).conj().T @ psi
        wj = ref.act_vec(dict(case, p=float(x)), {}, psi, n, order=1)
        ctx.visit(wd)
        v = gen.number(kind, x)
        for p, vals in (("a", {"a": v}), (v, {})):
            g = build.gate(dict(case, p=p))
            what = f"{case['g']} on {case['t']} controlled by {case['c']} with the angle {kind}({x}) {'by name' if vals else 'as a number'}"
            ctx.close(build.to_np(hq.apply_gates(st, g, vals, OT.DAGGER), n), wd, "dagger of " + what, tol)
            ctx.close(build.to_np(hq.apply_gates(st, g, vals, OT.JACOBIAN), n), wj, "Jacobian of " + what, tol)
            ctx.trace(2)
            if i == 0 and bool(vals) == bool(len(case["c"])):
                g = build.gate(dict(case, p=p), sparse=True)
                ctx.close(build.to_np(hq.apply_gates(sp, g, vals, OT.DAGGER), n), wd, "sparse dagger of " + what, tol)
                ctx.close(build.to_np(hq.apply_gates(sp, g, vals, OT.JACOBIAN), n), wj, "sparse Jacobian of " + what, tol)
                ctx.trace(2)
        ctx.step()


def _base(g, values):
    return ref.base_matrix(g["g"], ref.angle(g, values) if g["g"] in ref.PARAM else None)


def _dag_vec(g, values, psi, n):
    """Acts with the inverse of the gate: U^dagger = conj of the action of U^T; gates here satisfy
    <e_i|U^dagger|psi> = conj(<psi|U|e_i>), evaluated through the model of U for the conjugated problem."""
    if n <= 5:
        return ref.gate_matrix(g, values, n).conj().T @ psi
    # U^dagger of rotation/phase: opposite angle; of the others: explicit inverse words
    if g["g"] in ref.PARAM:
        return ref.act_vec(dict(g, p=-float(ref.angle(g, values)), s=0.0), {}, psi, n)
    k = {"S": 3, "T": 7, "ISWAP": 3, "ISQRTSWAP": 7, "SQRTSWAP": 3}.get(g["g"], 1)
    for _ in range(k):
        psi = ref.act_vec(g, values, psi, n)
    return psi


def word(case, ctx, build, OT):
    hq = build.hq
    n = 3
    descs = [ALPH[i] for i in case["w"]]
    values = dict(zip("ab", gen.rnd(2, tag=6)))
    psi = ref.generic_vec(n, ctx.seed, 2)
    rho = ref.generic_dm(n, ctx.seed, 2)
    gates = build.obj(descs)
    out = hq.apply_gates(build.vec(psi, n), gates, values)
    ctx.visit(build.to_np(out, n))
    for merge in (True, False):
        back = hq.apply_gates(out, gates[::-1], values, OT.DAGGER, merge_ops=merge)
        ctx.close(build.to_np(back, n), psi, f"undoing {descs} (merge_ops={merge})", 1e-10)
    # dagger mode on the list in listed order multiplies by each gate's conjugate transpose in that order
    want = psi
    for d in descs:
        want = ref.gate_matrix(d, values, n).conj().T @ want
    ctx.close(build.to_np(hq.apply_gates(build.vec(psi, n), gates, values, OT.DAGGER), n), want, f"dagger mode of {descs}", 1e-10)
    if len(descs) <= 2 and (len(descs) < 2 or case["w"][0] <= case["w"][1]):
        o = hq.apply_gates(build.dm(rho, n), gates, values)
        back = hq.apply_gates(o, gates[::-1], values, OT.DAGGER)
        ctx.close(build.to_np(back, n), rho, f"undoing {descs} on a density matrix", 1e-10)
        sg = build.obj(descs, sparse=True)
        o = hq.apply_gates(build.sp(psi, n), sg, values)
        back = hq.apply_gates(o, sg[::-1], values, OT.DAGGER)
        ctx.close(build.to_np(back, n), psi, f"undoing sparse {descs}", 1e-10)
        ctx.trace(2)
    ctx.trace(3)
    ctx.step(3 * len(descs))
