"""Every gate of the library, in every ordered target/control layout of a register of up to N qubits, with
every angle of the grid (named and numeric) and every accepted spelling of the qubit indices, is applied by
the real code to every basis state (one vmapped call) and to a generic state (eager, jit, call syntax), and
compared with an independently written dense simulator.  The basis states fix the linear map completely.
A second part explores the whole reachable state space of the gates {I,X,Y,Z,H,S,CX,CZ,CY,SWAP,ISWAP,...}
on 2 qubits (states of norm 1, global phase included) breadth first, each transition being replayed on the
real code; the reachable set is closed, so words of any length over these gates are covered."""
from __future__ import annotations

import numpy as np

from .. import core, gen, ref

PROPERTY = "C01"
ASSUMPTIONS = [
    "matrix entries depend on the angle through cos/sin/exp as on the grid (the grid has special and seed-dependent generic angles)",
    "double precision; tolerance 1e-10",
]
N = {"quick": 4, "thorough": 5}


def bounds(tier):
    return dict(
        qubits=N[tier], layouts="all ordered targets x all ordered control tuples", angles=_angles(tier),
        index_forms=["int", "tuple", "np", "nptuple", "np32"], big_registers=[9, 10, 12], number_kinds=list(gen.KINDS), many_controls=[4, 5, 6, 7, 8],
        closed_bfs="2 qubits, Clifford alphabet, unbounded word length",
    )


def _angles(tier):
    return gen.ANGLES + gen.rnd(3 if tier == "quick" else 6, -6, 6, 1)


def units(tier):
    us = []
    for n in range(1, N[tier] + 1):
        for k in (1, 2):
            lay = list(gen.layouts(n, k))
            for chunk in gen.chunks(lay, 4 if n < 5 else 3):
                cs = []
                for t, c in chunk:
                    names = ref.TWOQ if k == 2 else ref.ONEQ + ref.PARAM
                    for name in names:
                        cs.append(dict(kind="lay", n=n, g=name, t=t, c=c))
                us.append(cs)
    # spellings of indices
    cs = []
    for n, t, c in [(2, [1], []), (2, [1], [0]), (3, [0], [2, 1]), (3, [2, 0], []), (3, [2, 0], [1]), (2, [0], [1])]:
        for name in (("SWAP", "ISWAP") if len(t) == 2 else ("X", "H", "T", "RX", "PHASE")):
            for form in ("tuple", "np", "nptuple", "np32"):
                cs.append(dict(kind="form", n=n, g=name, t=t, c=c, form=form))
    us.insert(2, cs)
    # registers with two-digit and hash-unordered qubit numbers
    for n in (9, 10, 12):
        cs = []
        qs = [0, 1, n - 2, n - 1]
        for t in qs:
            for c in ([], [qs[0]], [8], [8, 1], [1, 8], [n - 1, 0, 4]):
                if t not in c:
                    for name in ("H", "RY", "PHASE"):
                        cs.append(dict(kind="big", n=n, g=name, t=[t], c=c))
        for t in ([8, 1], [1, 8], [n - 1, 0], [3, 7]):
            for c in ([], [2], [5, 4]):
                for name in ("ISWAP", "SQRTSWAP"):
                    cs.append(dict(kind="big", n=n, g=name, t=t, c=c))
        if n == 12:
            cs = cs[::3] + [dict(kind="big", n=n, g=name, t=[t], c=c) for name in ("H", "RX") for t, c in ((10, []), (11, []), (10, [11]), (11, [10, 0]), (5, [11, 9, 10]))]
        us += gen.chunks(cs, 20)
    # many controls
    for n, m in ((6, 4), (7, 6), (9, 5), (10, 7), (9, 8)):
        cs = []
        for t in ([1], [n - 1]) if n < 10 else ([9],):
            qs = [q for q in range(n) if q not in t]
            for c in (qs[:m], qs[::-1][:m], (qs[1::2] + qs[::2])[:m]):
                cs += [dict(kind="big", n=n, g=name, t=t, c=c) for name in ("Y", "RX", "PHASE")]
        cs += [dict(kind="big", n=n, g="ISWAP", t=[n - 1, 2], c=c) for c in ([q for q in range(n - 1) if q != 2][:m - 1],)]
        us.append(cs)
    us += gen.chunks([dict(kind="num", g=g, t=t, c=c, num=k) for g in ref.PARAM for t, c in (([0], []), ([0], [1])) for k in gen.KINDS], 22)
    us += [[dict(kind="bfs", alphabet=a)] for a in range(len(BFS))]
    return us


def num(case, ctx):
    """The angle as an integer, a numpy or jax number of any precision."""
    import jax

    from .. import build

    kind, n = case["num"], 2
    tol = gen.KIND_TOL.get(kind, 1e-10)
    psi = ref.generic_vec(n, ctx.seed, 3)
    st = build.vec(psi, n)
    for x in gen.kind_values(kind):
        want = ref.act_vec(dict(case, p=float(x)), {}, psi, n)
        ctx.visit(want)
        v = {"a": gen.number(kind, x)}
        named, fixed = build.gate(dict(case, p="a")), build.gate(dict(case, p=gen.number(kind, x)))
        for what, got in (
            ("by name", build.hq.apply_gates(st, named, v)), ("as a number", build.hq.apply_gates(st, fixed)), ("by name, called", named(st, v)),
            ("as a number in a list", build.hq.apply_gates(st, [fixed])), ("by name, in jit", jax.jit(lambda s, w: build.hq.apply_gates(s, named, w))(st, v)),
            ("as a number, in jit", jax.jit(lambda s: build.hq.apply_gates(s, fixed))(st)),
        ):
            ctx.close(build.to_np(got, n), want, f"{case['g']} on {case['t']} controlled by {case['c']} with the angle {kind}({x}) {what}", tol)
            ctx.trace()
        ctx.step()


BFS = [
    [("H", [0], []), ("S", [0], []), ("X", [1], [0]), ("H", [1], []), ("S", [1], [])],
    [("X", [0], []), ("Y", [1], []), ("Z", [0], [1]), ("H", [1], []), ("SWAP", [1, 0], []), ("S", [0], [1])],
    [("H", [0], []), ("Y", [1], [0]), ("ISWAP", [0, 1], []), ("Z", [1], []), ("I", [0], []), ("SWAP", [0, 1], [])],
    [("X", [0], []), ("SQRTSWAP", [0, 1], []), ("ISQRTSWAP", [1, 0], []), ("T", [0], []), ("T", [1], [])],
]


def run_case(case, ctx):
    import jax
    import jax.numpy as jnp

    from .. import build

    kind = case["kind"]
    if kind == "bfs":
        return bfs(case, ctx)
    if kind == "num":
        return num(case, ctx)
    n, name, t, c = case["n"], case["g"], case["t"], case["c"]
    form = case.get("form", "int")
    psi = ref.generic_vec(n, ctx.seed, tag=len(c))
    jpsi = build.vec(psi, n)
    grid = [None]
    if name in ref.PARAM:
        grid = _angles(ctx.tier) if kind == "lay" else gen.rnd(2, -3, 3, 2)
    for i, th in enumerate(grid):
        variants = [("num", th), ("name", "theta")] if th is not None else [("fix", None)]
        for how, p in variants:
            g = dict(g=name, t=t, c=c, p=p)
            values = {"theta": th} if how == "name" else {}
            gate = build.gate(g, form=form)
            want = ref.act_vec(g, values, psi, n)
            jvalues = {k: jnp.asarray(v) for k, v in values.items()} if i % 2 else values
            got = build.to_np(build.hq.apply_gates(jpsi, gate, jvalues), n)
            ctx.close(got, want, f"apply_gates {g} {values}", 1e-10)
            ctx.step()
            ctx.trace()
            ctx.visit(want)
            if kind == "big" or (kind == "lay" and i > 3 and how == "num"):
                continue
            got = build.to_np(gate(jpsi, values), n)
            ctx.close(got, want, f"gate(state) {g} {values}", 1e-10)
            got = build.to_np(build.hq.apply_gates(jpsi, [gate], values), n)
            ctx.close(got, want, f"apply_gates(list) {g} {values}", 1e-10)
            ctx.trace(2)
            if n <= 5:
                M = ref.gate_matrix(g, values, n)
                f = jax.vmap(lambda s: build.hq.apply_gates(s, gate, values))
                basis = jnp.eye(2**n, dtype=complex).reshape((2**n,) + (2,) * n)
                got = np.asarray(f(basis)).reshape(2**n, 2**n).T
                ctx.close(got, M, f"map on all basis states {g} {values}", 1e-10)
                ctx.step(2**n)
                ctx.trace(2**n)
                if kind == "lay" and i == 0:
                    # compiled, with the angle traced
                    f = jax.jit(lambda s, v: build.hq.apply_gates(s, gate, v))
                    got = build.to_np(f(jpsi, {k: jnp.asarray(v) for k, v in values.items()}), n)
                    ctx.close(got, want, f"jit {g} {values}", 1e-10)
                    ctx.trace()
    # no argument: the zero state on the gate's own qubits
    if kind == "lay" and sorted(t + c) == list(range(n)):
        g = dict(g=name, t=t, c=c, p=gen.rnd(1)[0])
        z = np.zeros(2**n, complex)
        z[0] = 1
        ctx.close(build.to_np(build.gate(g)(), n), ref.act_vec(g, {}, z, n), f"gate() {g}", 1e-10)
        ctx.trace()


def bfs(case, ctx):
    """Closed reachable set of an alphabet (bounded at 4000 states for the non-Clifford one)."""
    import jax
    import jax.numpy as jnp

    from .. import build

    n = 2
    alphabet = [dict(g=a, t=t, c=c) for a, t, c in BFS[case["alphabet"]]]
    gates = [build.gate(g) for g in alphabet]
    fs = [jax.jit(jax.vmap(lambda s, gate=gate: build.hq.apply_gates(s, gate))) for gate in gates]
    mats = [ref.gate_matrix(g, {}, n) for g in alphabet]
    seen = {}
    start = ref.basis("00")
    key = lambda v: tuple((np.round(v, 6) + 0.0).tolist())
    seen[key(start)] = ()
    frontier = [start]
    limit = 1500 if ctx.tier == "quick" else 20000
    B = 128
    depth = 0
    while frontier and len(seen) < limit:
        depth += 1
        nxt = []
        for lo in range(0, len(frontier), B):
            block = np.array(frontier[lo : lo + B])
            pad = np.concatenate([block, np.zeros((B - len(block), 2**n), complex)])
            for g, f, M in zip(alphabet, fs, mats):
                got = np.asarray(f(jnp.asarray(pad).reshape((B, 2, 2)))).reshape(B, -1)[: len(block)]
                want = block @ M.T
                ctx.close(got, want, f"transition {g} from a reachable state", 1e-10)
                ctx.step(len(block))
                ctx.trace(len(block))
                for v in want:
                    k = key(v)
                    if k not in seen:
                        seen[k] = 1
                        nxt.append(v)
                        ctx.visit(v)
        frontier = nxt
    ctx.count("bfs_states", len(seen))
    ctx.count("bfs_depth", depth)
    ctx.count("bfs_closed", int(not frontier))
