"""State constructors and comparison helpers against their definitions.  Every bitstring up to a length and every
register size up to a bound, dense and sparse, before and after other constructions; for each register size all
ordered pairs from a family of states (every basis state, uniform, random, generic states, their global and relative
phase variants, small rotations away, states reached by circuits): overlap, equivalence, density matrices,
probabilities, normalisation and qubit counts equal the definitions; eager, jitted and vmapped."""
from __future__ import annotations

import itertools

import numpy as np

from .. import gen, ref

PROPERTY = "C18"
ASSUMPTIONS = ["equivalence is required to hold for overlaps above 1-1e-12 and to fail below 1-1e-4 (nothing is claimed in between)",
               "tolerance 1e-10; sparse states may be refused by the comparison helpers but not be compared wrongly"]
BITS = {"quick": 7, "thorough": 10}
SIZE = {"quick": 12, "thorough": 16}
PAIRS = {"quick": (1, 2, 3), "thorough": (1, 2, 3, 4)}


def bounds(tier):
    return dict(bitstrings=f"all up to length {BITS[tier]}", sizes=f"1..{SIZE[tier]}", pair_register_sizes=PAIRS[tier])


def units(tier):
    us = []
    for n in range(1, BITS[tier] + 1):
        us += gen.chunks([dict(kind="bits", s="".join(b)) for b in itertools.product("01", repeat=n)], 64)
    us += [[dict(kind="size", n=n)] for n in range(1, SIZE[tier] + 1)]
    us += [[dict(kind="long", n=n)] for n in range(BITS[tier] + 1, SIZE[tier] + 1)]
    for n in PAIRS[tier]:
        us += gen.chunks([dict(kind="pair", n=n, i=i) for i in range(family_size(n))], 12)
        us += gen.chunks([dict(kind="single", n=n, i=i) for i in range(family_size(n))], 20)
        us += [[dict(kind="batch", n=n)]]
    us += [[dict(kind="mix", n=n, i=i) for i in range(4)] for n in (1, 2, 3)]
    us += [[dict(kind="order", first=f) for f in range(6)]]
    us.sort(key=lambda u: u[0].get("n", len(u[0].get("s", ""))))
    return us


def family(n):
    """(label, vector) pairs; deterministic order."""
    d = 2**n
    out = [(f"basis{k}", np.eye(d, dtype=complex)[k]) for k in range(d)]
    u = np.ones(d, complex) / np.sqrt(d)
    g, h = ref.generic_vec(n, gen.SEED, 70), ref.generic_vec(n, gen.SEED, 71)
    out += [("uniform", u), ("generic", g), ("generic2", h), ("generic_conj", g.conj())]
    for lab, v in (("uniform", u), ("generic", g), ("basis", np.eye(d, dtype=complex)[d - 1])):
        for ph in (-1, 1j, np.exp(0.3j), np.exp(-2.9j)):
            out.append((f"{lab}*{ph:.2f}", v * ph))
    for k in range(d if n < 3 else 3):
        for ph in (-1, 1j, np.exp(0.1j)):
            w = u.copy()
            w[k] *= ph
            out.append((f"uniform,relative phase {ph:.2f} at {k}", w))
            w = g.copy()
            w[k] *= ph
            out.append((f"generic,relative phase {ph:.2f} at {k}", w))
    o = h - np.vdot(g, h) * g
    o /= np.linalg.norm(o)
    for e in (1e-9, 0.02, 0.05, 0.3, np.pi / 2):
        out.append((f"generic rotated by {e:.3g}", np.cos(e) * g + np.sin(e) * o))
        out.append((f"generic rotated by {e:.3g}i", np.cos(e) * g + 1j * np.sin(e) * o))
    # permuted amplitudes (axis order mistakes)
    out.append(("generic, axes reversed", g.reshape((2,) * n).transpose().ravel()))
    return out


def family_size(n):
    d = 2**n
    return d + 4 + 12 + 6 * (d if n < 3 else 3) + 10 + 1


def run_case(case, ctx):
    import jax
    import jax.numpy as jnp

    from .. import build

    hq = build.hq
    from horqrux.utils import operator_utils as ou

    kind = case["kind"]
    if kind in ("bits", "long"):
        strings = [case["s"]] if kind == "bits" else None
        if kind == "long":
            n = case["n"]
            strings = ["0" * k + "1" + "0" * (n - 1 - k) for k in range(n)] + ["1" * n, "01" * (n // 2) + "1" * (n % 2), "1" * (n // 2) + "0" * (n - n // 2)]
        for s in strings:
            want = ref.basis(s)
            for sparse in (False, True):
                got = hq.product_state(s, sparse=sparse)
                ctx.check(isinstance(got, build.BCOO) == sparse, f"product_state({s!r}, sparse={sparse}) is a {type(got).__name__}")
                ctx.close(build.to_np(got, len(s)), want, f"product_state({s!r}, sparse={sparse})", 1e-12)
                ctx.trace()
            ctx.visit(want)
            ctx.step()
        return
    if kind == "size":
        return size(case["n"], ctx, build, ou)
    if kind == "order":
        return order(case, ctx, build)
    n = case["n"]
    fam = family(n)
    assert len(fam) == family_size(n)
    if kind == "mix":
        return mix(case, ctx, build, ou)
    if kind == "batch":
        A = np.stack([v for _, v in fam])
        B = np.roll(A, 3, axis=0)
        X, Y = (jnp.asarray(a).reshape((-1,) + (2,) * n) for a in (A, B))
        want = np.abs(np.einsum("ij,ij->i", A.conj(), B)) ** 2
        for f in (jax.vmap(hq.overlap), jax.jit(jax.vmap(hq.overlap))):
            ctx.close(np.asarray(f(X, Y)), want, "vmapped overlap", 1e-10)
            ctx.trace()
        ctx.close(np.asarray(jax.vmap(ou.probabilities)(X)), np.abs(A) ** 2, "vmapped probabilities", 1e-10)
        e = np.asarray(jax.vmap(hq.equivalent_state)(X, Y))
        ctx.check(bool(np.all(e[want > 1 - 1e-12])) and not np.any(e[want < 1 - 1e-4]), "vmapped equivalence")
        ctx.step(4)
        return
    la, a = fam[case["i"]]
    sa = build.vec(a, n)
    if kind == "single":
        # density matrix, probabilities, norms, qubit counts
        r = build.density_mat(sa)
        ctx.close(build.to_np(r, n), ref.outer(a), f"density_mat({la})", 1e-12)
        ctx.close(build.to_np(build.density_mat(r), n), ref.outer(a), f"density_mat of a density matrix ({la})", 1e-12)
        p = np.abs(a) ** 2
        ctx.close(np.asarray(ou.probabilities(sa)), p, f"probabilities({la})", 1e-10)
        ctx.close(np.asarray(ou.probabilities(r)), p, f"probabilities(density matrix of {la})", 1e-10)
        d = 2**n
        ctx.close(np.asarray(ou.probabilities(build.DensityMatrix(r.array.reshape(d, d)))), p, f"probabilities(square density matrix of {la})", 1e-10)
        ctx.check(ou.num_qubits(sa) == n and ou.num_qubits(r) == n, f"num_qubits({la})")
        for f, norm in ((1, True), (0.9, False), (1.05, False), (1j, True), (-1, True), (2, False)):
            ctx.check(bool(ou.is_normalized(sa * f)) == norm, f"is_normalized({f} * {la}) is not {norm}")
            ctx.trace()
        ctx.visit(a)
        ctx.step(6)
        ctx.trace(5)
        return
    for lb, b in fam:
        want = abs(np.vdot(a, b)) ** 2
        sb = build.vec(b, n)
        got = np.asarray(hq.overlap(sa, sb))
        ctx.check(not np.iscomplexobj(got), "complex overlap")
        ctx.close(got, want, f"overlap({la}, {lb})", 1e-10)
        ctx.check(-1e-12 <= got <= 1 + 1e-12, f"overlap({la}, {lb}) = {got} is not a probability")
        ctx.close(np.asarray(ou.inner(sa, sb)), np.vdot(a, b), f"inner({la}, {lb})", 1e-10)
        e = bool(hq.equivalent_state(sa, sb))
        if want > 1 - 1e-12:
            ctx.check(e, f"{la} and {lb} (overlap {want}) are not reported equivalent")
        elif want < 1 - 1e-4:
            ctx.check(not e, f"{la} and {lb} (overlap {want}) are reported equivalent")
        ctx.outcome((round(want, 6), e))
        ctx.trace(2)
        ctx.step()
    # sparse: right or refused
    pa = build.sp(a, n)
    for lb, b in fam[:: max(1, len(fam) // 6)]:
        want = abs(np.vdot(a, b)) ** 2
        for f, ok in ((hq.overlap, lambda x: abs(float(build.dense(x)) - want) < 1e-9), (hq.equivalent_state, lambda x: bool(build.dense(x)) == (want > 1 - 1e-12) or 1 - 1e-4 <= want <= 1 - 1e-12)):
            try:
                x = f(pa, build.sp(b, n))
            except Exception:
                ctx.outcome("refused")
                continue
            ctx.check(ok(x), f"sparse {f.__name__}({la}, {lb}) = {x}, overlap is {want}")
    ctx.visit(a, "pair")


def size(n, ctx, build, ou):
    hq = build.hq
    zero, uni = ref.basis("0" * n), np.ones(2**n) / np.sqrt(2.0**n)
    for sparse in (False, True):
        for name, f, want in (("zero_state", hq.zero_state, zero), ("uniform_state", hq.uniform_state, uni)):
            got = f(n, sparse=sparse)
            ctx.check(isinstance(got, build.BCOO) == sparse, f"{name}({n}, sparse={sparse}) is a {type(got).__name__}")
            ctx.close(build.to_np(got, n), want, f"{name}({n}, sparse={sparse})", 1e-12)
            ctx.close(build.to_np(f(n, sparse), n), want, f"{name}({n}, {sparse}) (positional)", 1e-12)
            ctx.trace(2)
    r1 = build.to_np(hq.random_state(n), n)
    r2 = build.to_np(hq.random_state(n), n)
    rs = hq.random_state(n, sparse=True)
    ctx.check(isinstance(rs, build.BCOO), "random_state(sparse=True) is not sparse")
    ctx.check(abs(np.linalg.norm(r1) - 1) < 1e-10, f"random_state({n}) has norm {np.linalg.norm(r1)}")
    ctx.close(r2, r1, f"random_state({n}) repeated", 0)
    ctx.close(build.to_np(rs, n), r1, f"random_state({n}, sparse=True) against the dense one", 1e-12)
    ctx.check(bool(ou.is_normalized(hq.random_state(n))), f"is_normalized(random_state({n}))")
    ctx.check(np.count_nonzero(np.abs(r1) > 1e-12) > 1, f"random_state({n}) is a basis state")
    if n <= 6:
        ctx.close(build.to_np(build.density_mat(hq.random_state(n)), n), ref.outer(r1), f"density_mat(random_state({n}))", 1e-12)
    ctx.close(np.asarray(ou.probabilities(hq.random_state(n))), np.abs(r1) ** 2, f"probabilities(random_state({n}))", 1e-10)
    ctx.visit(r1)
    ctx.trace(6)
    ctx.step(7)


def order(case, ctx, build):
    """The constructors do not depend on what was constructed before."""
    hq = build.hq
    calls = [lambda: hq.random_state(3), lambda: hq.random_state(2), lambda: hq.uniform_state(3), lambda: hq.product_state("101"), lambda: hq.zero_state(3), lambda: hq.random_state(3, sparse=True)]
    base = [build.dense(f()) for f in calls]
    for i, j in itertools.product(range(6), repeat=2):
        for k in (case["first"], i, j):
            ctx.close(build.dense(calls[k]()), base[k], f"constructor {k} after {case['first'], i, j}", 0)
        ctx.step(3)
        ctx.trace()
        ctx.visit_key((case["first"], i, j))


def mix(case, ctx, build, ou):
    """Mixed states: diagonal, conversions are the identity; states reached by circuits have the same helpers."""
    hq = build.hq
    n = case["n"]
    rho = ref.generic_dm(n, ctx.seed, case["i"])
    r = build.dm(rho, n)
    ctx.close(np.asarray(ou.probabilities(r)), np.diag(rho).real, "probabilities of a mixed state", 1e-10)
    ctx.close(build.to_np(build.density_mat(r), n), rho, "density_mat of a mixed state", 1e-12)
    ctx.check(ou.num_qubits(r) == n, "num_qubits of a mixed state")
    descs = [dict(g="RX", t=[case["i"] % n], p=0.7), dict(g="H", t=[n - 1]), dict(g="T", t=[0])]
    if n > 1:
        descs.append(dict(g="X", t=[0], c=[n - 1]))
    psi = ref.generic_vec(n, ctx.seed, case["i"])
    out = hq.run(hq.QuantumCircuit(n, build.obj(descs)), build.vec(psi, n))
    f = ref.run_vec(descs, {}, psi, n)
    ctx.close(build.to_np(build.density_mat(out), n), ref.outer(f), "density_mat of a circuit's output", 1e-10)
    ctx.close(np.asarray(ou.probabilities(out)), np.abs(f) ** 2, "probabilities of a circuit's output", 1e-10)
    ctx.close(np.asarray(hq.overlap(out, build.vec(psi, n))), abs(np.vdot(f, psi)) ** 2, "overlap with a circuit's output", 1e-10)
    ctx.check(bool(hq.equivalent_state(out, build.vec(f * np.exp(0.7j), n))), "a circuit's output is not equivalent to the same state up to a phase")
    ctx.trace(7)
    ctx.visit(f)
    ctx.step(4)
