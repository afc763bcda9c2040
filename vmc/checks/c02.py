"""Every word of gates up to the bound over each alphabet (colliding targets, shared parameters, controls,
two-qubit gates, repeated objects), in every nesting of OpSequence/QuantumCircuit, is executed by the real
code through every entry point and compared with the model that multiplies the gate matrices in listed order;
the flattened iteration must list the gates in the same order."""
from __future__ import annotations

import numpy as np

from .. import fp, gen, ref

PROPERTY = "C02"
ASSUMPTIONS = ["one generic (asymmetric) input state per register size decides equality of linear maps up to measure zero; basis states for words of length <= 1"]

G = lambda g, t, c=(), p=None: dict(g=g, t=list(t), c=list(c), p=p)
HAM = [[1, 0.5 - 0.2j, 0, 0.1], [0.5 + 0.2j, -1, 0.3, 0.4j], [0, 0.3, 2, 1j], [0.1, -0.4j, -1j, 0.4]]
ALPH = {
    "mixed3": (3, [
        G("H", [0]), G("RX", [1], p="a"), G("X", [2], [0]), G("SWAP", [2, 0]), G("RY", [2], [1, 0], "b"),
        G("PHASE", [0], [2], "a"), G("ISWAP", [1, 2]), G("T", [1]), G("RZ", [0], p=0.7), G("RX", [0], p="b"),
        G("Y", [1], [0]),
    ]),
    "collide2": (2, [
        G("RX", [0], p="a"), G("RY", [0], p="a"), G("X", [0], [1]), G("X", [1], [0]), G("ISQRTSWAP", [0, 1]),
        G("SQRTSWAP", [1, 0]), G("S", [1]),
    ]),
    "one": (1, [G("H", [0]), G("RX", [0], p="a"), G("RZ", [0], p="b"), G("T", [0]), G("PHASE", [0], p="a")]),
    "wide4": (4, [
        G("H", [3]), G("RY", [0], [3], "a"), G("SWAP", [1, 3]), G("ISWAP", [3, 0], [2]), G("RX", [2], p="b"),
        G("Z", [1], [0, 2, 3]),
    ]),
    # one operator whose matrix depends on the order of its targets, in several orders
    "evo3": (3, [
        G("HEVO", [0, 1]), G("HEVO", [1, 0]), G("HEVO", [2, 0]), G("HEVO", [1, 0], [2]), G("ISWAP", [1, 0]), G("RX", [0], p="a"), G("HEVO", [0, 2]),
    ]),
}
DEPTH = {
    "quick": {"mixed3": 3, "collide2": 4, "one": 4, "wide4": 3, "evo3": 3},
    "thorough": {"mixed3": 4, "collide2": 5, "one": 6, "wide4": 5, "evo3": 4},
}


def bounds(tier):
    return dict(
        alphabets={k: [g["g"] + str(g["t"]) + str(g["c"]) for g in v[1]] for k, v in ALPH.items()},
        depth=DEPTH[tier], nestings="all (Catalan/Schroeder) nestings of words of length <= 3, 3 patterns beyond",
        routes=["run", "call", "OpSequence", "apply_gates merge on/off", "gate by gate", "iter", "jit"],
    )


def units(tier):
    us = []
    for name, (n, alph) in ALPH.items():
        ws = list(gen.words(alph, 0, DEPTH[tier][name]))
        us += gen.chunks([dict(a=name, w=w) for w in ws], 40)
    us.append([dict(a="empty", w=[i]) for i in range(6)])
    us.append([dict(a="long", w=[s]) for s in range(4)])
    us.sort(key=lambda u: len(u[0]["w"]))
    return us


def nest(shape, gates, mk):
    if isinstance(shape, int):
        return gates[shape]
    return mk([nest(s, gates, mk) for s in shape])


def run_case(case, ctx):
    import jax
    import jax.numpy as jnp

    from .. import build

    hq = build.hq
    if case["a"] == "empty":
        return empty(case, ctx, build)
    if case["a"] == "long":
        return long_word(case, ctx, build)
    n, alph = ALPH[case["a"]]
    w = case["w"]
    descs = [alph[i] for i in w]
    a, b = gen.rnd(2, tag=3)
    values = {"a": a, "b": b, "unused": 9.0}
    if case["a"] == "evo3":
        values.update(hamiltonian=jnp.asarray(HAM), time_evolution=0.7)
    psi = ref.generic_vec(n, ctx.seed)
    state = build.vec(psi, n)
    want = ref.run_vec(descs, values, psi, n)
    ctx.visit(want)
    shared = {}
    gates = [shared.setdefault(i, build.gate(alph[i])) for i in w]  # repeated letters share one object

    def same(got, what):
        ctx.close(build.to_np(got, n), want, f"{what} of {descs}", 1e-10)
        ctx.trace()

    qc = hq.QuantumCircuit(n, gates)
    same(hq.run(qc, state, values), "run")
    same(qc(state, {k: jnp.asarray(v) for k, v in values.items()}), "call")
    same(hq.apply_gates(state, gates, values), "apply_gates")
    same(hq.apply_gates(state, gates, values, merge_ops=False), "apply_gates(merge_ops=False)")
    same(hq.apply_gates(state, list(iter(qc)), values), "apply_gates(iter(circuit))")
    s = state
    for g in gates:
        s = hq.apply_gates(s, g, values)
    same(s, "gate by gate")
    ctx.step(len(w) + 1)
    if len(w) <= 3:
        for shape in gen.shapes(len(w)):
            for mk in ("seq", "qc"):
                f = build.OpSequence if mk == "seq" else (lambda ops: hq.QuantumCircuit(n, ops))
                c = hq.QuantumCircuit(n, nest(shape, gates, f).operations if not isinstance(shape, int) else [gates[0]])
                same(c(state, values), f"nesting {shape} of {mk}")
                flat = list(iter(c))
                ctx.check(len(flat) == len(gates) and all(x is y or fp.of(x) == fp.of(y) for x, y in zip(flat, gates)), f"iter of nesting {shape} lists {flat}")
                same(hq.apply_gates(state, flat, values), f"flat list of nesting {shape}")
        if w:
            same(build.OpSequence([build.OpSequence([g]) for g in gates])(state, values), "singletons")
            same(hq.QuantumCircuit(n, build.OpSequence(gates))(state, values), "circuit from a sequence")
    else:
        m = len(w) // 2
        same(build.OpSequence([build.OpSequence(gates[:m]), build.OpSequence(gates[m:])])(state, values), "halves")
        same(hq.QuantumCircuit(n, [gates[0], hq.QuantumCircuit(n, gates[1:])])(state, values), "circuit in circuit")
        same(build.OpSequence([build.OpSequence([hq.QuantumCircuit(n, gates[:-1])]), gates[-1]])(state, values), "deep left")
    if len(w) == 2 or (len(w) == 3 and w[0] == w[2]):
        f = jax.jit(lambda s, v: hq.run(qc, s, v))
        same(f(state, values), "jit(run)")
    if len(w) <= 1:
        for k in range(2**n):
            e = np.eye(2**n)[k]
            got = build.to_np(hq.run(qc, build.vec(e.astype(complex), n), values), n)
            ctx.close(got, ref.run_vec(descs, values, e, n), f"run on basis state {k} of {descs}", 1e-10)
            ctx.trace()
    same(hq.run(qc, state, values), "second run of the same circuit")


def empty(case, ctx, build):
    hq = build.hq
    i = case["w"][0]
    n = 1 + i % 3
    psi = ref.generic_vec(n, ctx.seed)
    state = build.vec(psi, n)
    rho = ref.generic_dm(n, ctx.seed)
    circuits = [hq.QuantumCircuit(n, []), build.OpSequence([]), hq.QuantumCircuit(n, [build.OpSequence([])]),
                hq.QuantumCircuit(n, [hq.QuantumCircuit(n, []), build.OpSequence([build.OpSequence([])])])]
    for c in circuits:
        for got in (hq.run(c, state), c(state), hq.apply_gates(state, list(iter(c))), hq.apply_gates(state, list(iter(c)), merge_ops=False)):
            ctx.close(build.to_np(got, n), psi, "circuit without gates", 1e-12)
            ctx.trace()
        ctx.check(list(iter(c)) == [], "iter of an empty circuit")
        ctx.close(build.to_np(hq.run(c, build.dm(rho, n)), n), rho, "circuit without gates on a density matrix", 1e-12)
    g = G("RX", [n - 1], p="a")
    v = {"a": 0.4}
    c = hq.QuantumCircuit(n, [build.OpSequence([]), build.gate(g), hq.QuantumCircuit(n, [])])
    ctx.close(build.to_np(hq.run(c, state, v), n), ref.run_vec([g], v, psi, n), "empty parts around a gate", 1e-10)
    ctx.trace()


def long_word(case, ctx, build):
    """Words that contain every ordered pair of letters (a de Bruijn-like tour), 3 qubits, deep nesting."""
    hq = build.hq
    n, alph = ALPH["mixed3"]
    k = len(alph)
    w = []
    shift = case["w"][0]
    for i in range(k):
        for j in range(k):
            w += [(i + shift) % k, (j * (1 + shift % 2) + shift) % k]
    descs = [alph[i] for i in w]
    values = dict(zip("ab", gen.rnd(2, tag=4)))
    psi = ref.generic_vec(n, ctx.seed)
    want = ref.run_vec(descs, values, psi, n)
    gates = build.obj(descs)
    qc = hq.QuantumCircuit(n, gates)
    deep = gates[0]
    for g in gates[1:]:
        deep = build.OpSequence([deep, g])
    ctx.step(len(w))
    for got in (hq.run(qc, build.vec(psi, n), values), hq.apply_gates(build.vec(psi, n), gates, values), deep(build.vec(psi, n), values)):
        ctx.close(build.to_np(got, n), want, "long word", 1e-9)
        ctx.trace()
    ctx.visit(want)
