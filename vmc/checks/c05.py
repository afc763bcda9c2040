"""Every noise channel x probability grid (0 and 1 included) x gate x target/control layout, every ordered pair
(and selected triples) of channels on one gate, and every word of noisy and noiseless gates up to the depth
bound, is executed on state vectors, mixed and pure density matrices through the entry points and compared with
the documented channel formulas of the model; trace and positivity of each result are monitored as well."""
from __future__ import annotations

import itertools

import numpy as np

from .. import gen, ref

PROPERTY = "C05"
ASSUMPTIONS = ["noise on gates with one target (multi-target noise is refused, see C19)", "tolerance 1e-10; positivity up to -1e-12"]
N = {"quick": 3, "thorough": 4}
DEPTH = {"quick": 3, "thorough": 4}
PGRID = {
    "BitFlip": [0.0, 0.1, 0.5, 0.83, 1.0],
    "PhaseFlip": [0.0, 0.1, 0.5, 0.83, 1.0],
    "Depolarizing": [0.0, 0.2, 0.75, 1.0],
    "PauliChannel": [(0.0, 0.0, 0.0), (0.1, 0.2, 0.3), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (0.5, 0.25, 0.25)],
    "AmplitudeDamping": [0.0, 0.15, 0.6, 1.0],
    "PhaseDamping": [0.0, 0.15, 0.6, 1.0],
    "GeneralizedAmplitudeDamping": [(0.0, 0.0), (0.3, 0.2), (1.0, 0.4), (0.0, 0.4), (0.5, 1.0), (0.8, 0.0)],
}
ONE = {  # one generic probability per channel
    "BitFlip": 0.23, "PhaseFlip": 0.31, "Depolarizing": 0.4, "PauliChannel": (0.12, 0.07, 0.26), "AmplitudeDamping": 0.35,
    "PhaseDamping": 0.45, "GeneralizedAmplitudeDamping": (0.7, 0.3),
}
EDGE = {k: [v[0], [x for x in v if x in (1.0, (1.0, 0.0, 0.0), (1.0, 0.4))][0]] for k, v in PGRID.items()}  # does nothing; always acts
G = lambda g, t, c=(), p=None, n=(): dict(g=g, t=list(t), c=list(c), p=p, n=[list(x) for x in n])
GATES1 = [("I", None), ("H", None), ("T", None), ("RY", 0.9), ("PHASE", "th"), ("RX", "th")]
ALPH = [
    G("H", [0]), G("RX", [1], p="a", n=[("AmplitudeDamping", 0.3)]), G("X", [1], [0], n=[("BitFlip", 0.2)]), G("X", [0], [1]),
    G("SWAP", [1, 0]), G("RY", [0], [1], "b", n=[("Depolarizing", 0.3), ("GeneralizedAmplitudeDamping", (0.6, 0.4))]),
    G("RZ", [0], p="a"), G("RZ", [1], p="b", n=[("PauliChannel", (0.1, 0.05, 0.2))]), G("H", [1], n=[("PhaseDamping", 0.5)]),
    G("RX", [1], p="b"),
]


def bounds(tier):
    return dict(qubits=N[tier], probabilities=PGRID, edge_pairs="all ordered pairs with a probability 0 or 1", noise_words="all ordered pairs, 21 triples" if tier == "quick" else "all ordered pairs and triples",
                word_depth=DEPTH[tier], inputs=["state vector", "mixed density matrix", "pure density matrix"])


def units(tier):
    us = []
    kinds = list(PGRID)
    for n in range(1, N[tier] + 1):
        for t, c in gen.layouts(n, 1, ordered_controls=n < 4):
            cs = []
            for k in kinds:
                full = n == 1 or (n == 2 and len(c) < 2)
                for p in PGRID[k] if full else [ONE[k]]:
                    for g, a in GATES1 if full else [("RY", 0.9), ("S", None)]:
                        cs.append(dict(kind="g", n=n, gate=G(g, t, c, a, [(k, p)])))
            us.append(cs)
    cs = []
    for k1, k2 in itertools.product(kinds, repeat=2):
        for t, c in [([0], []), ([1], [0])]:
            cs.append(dict(kind="g", n=2, gate=G("RX", t, c, "th", [(k1, ONE[k1]), (k2, ONE[k2])])))
    us += gen.chunks(cs, 25)
    # the same pairs with a probability at the edge of its range (a channel that does nothing, or always acts)
    cs = []
    for k1, k2 in itertools.product(kinds, repeat=2):
        for p1, p2 in itertools.product(EDGE[k1] + [ONE[k1]], EDGE[k2] + [ONE[k2]]) if tier == "thorough" else [(EDGE[k1][0], ONE[k2]), (ONE[k1], EDGE[k2][0]), (EDGE[k1][1], ONE[k2])]:
            cs.append(dict(kind="g", n=1, gate=G("RX", [0], [], "th", [(k1, p1), (k2, p2)])))
    for k in kinds:
        cs.append(dict(kind="g", n=1, gate=G("RX", [0], [], "th", [(k, ONE[k]), (k, ONE[k])])))
        cs.append(dict(kind="g", n=1, gate=G("RX", [0], [], "th", [(k, EDGE[k][0]), (k, EDGE[k][0]), (k, ONE[k])])))
        cs.append(dict(kind="g", n=1, gate=G("RX", [0], [], "th", [(k, ONE[k]), (k, EDGE[k][0]), ("BitFlip", 0.2)])))
    us += gen.chunks(cs, 25)
    triples = list(itertools.product(kinds, repeat=3))
    if tier == "quick":
        triples = [(kinds[i], kinds[(i + j) % 7], kinds[(i + 2 * j) % 7]) for i in range(7) for j in (1, 2, 3)]
    us += gen.chunks([dict(kind="g", n=2, gate=G("H", [1], [], None, [(k, ONE[k]) for k in ks])) for ks in triples], 25)
    us.append([dict(kind="g", n=4, gate=G("RY", t, c, 0.4, [("AmplitudeDamping", 0.4)])) for t, c in [([3], [0]), ([1], [3, 0]), ([2], []), ([0], [2, 1, 3])]])
    us.append([dict(kind="g", n=5, gate=G("RY", t, c, 0.4, [("AmplitudeDamping", 0.4), ("BitFlip", 0.1)])) for t, c in [([4], [1]), ([2], [4, 0])]])
    us += gen.chunks([dict(kind="w", n=2, w=w) for w in gen.words(ALPH, 1, DEPTH[tier]) if any(ALPH[i]["n"] for i in w)], 30)
    return us


def run_case(case, ctx):
    import jax.numpy as jnp

    from .. import build

    hq = build.hq
    n = case["n"]
    psi, rho = ref.generic_vec(n, ctx.seed), ref.generic_dm(n, ctx.seed)
    if case["kind"] == "g":
        descs = [case["gate"]]
    else:
        descs = [ALPH[i] for i in case["w"]]
    values = dict(zip(("a", "b", "th"), gen.rnd(3, tag=9)))
    gates = build.obj(descs)

    def good(got, want, what):
        ctx.check(isinstance(got, build.DensityMatrix), f"{what}: returns {type(got).__name__}, not a density matrix")
        a = build.to_np(got, n)
        ctx.close(a, want, f"{what} {descs}", 1e-10)
        ctx.check(abs(np.trace(a) - np.trace(want)) < 1e-10, f"{what}: trace {np.trace(a)}")
        ctx.check(abs(np.trace(a) - 1) < 1e-10, f"{what}: trace {np.trace(a)}")
        w = np.linalg.eigvalsh((a + a.conj().T) / 2)
        ctx.check(w[0] > -1e-12, f"{what}: eigenvalue {w[0]}")
        ctx.close(a, a.conj().T, f"{what}: hermiticity", 1e-12)
        ctx.trace()

    wv, wd = ref.run_dm(descs, values, ref.outer(psi), n), ref.run_dm(descs, values, rho, n)
    ctx.visit(wv)
    ctx.visit(wd)
    ctx.step(2 * len(descs))
    sv, sd = build.vec(psi, n), build.dm(rho, n)
    if case["kind"] == "g":
        good(hq.apply_gates(sv, gates[0], values), wv, "apply_gates(vector)")
        good(hq.apply_gates(sd, gates[0], values), wd, "apply_gates(density matrix)")
        if n <= 2:
            good(gates[0](build.density_mat(sv), values), wv, "gate(pure density matrix)")
            good(hq.apply_gates(sv, gates, values, merge_ops=False), wv, "apply_gates(list)")
            if n == 1 or (len(descs[0]["n"]) == 1 and not descs[0]["c"]):
                # basis states and the matrix unit |0><1| fix the channel
                for k in range(2**n):
                    e = np.eye(2**n)[k].astype(complex)
                    good(hq.apply_gates(build.vec(e, n), gates[0], values), ref.run_dm(descs, values, ref.outer(e), n), f"basis state {k}")
    else:
        qc = hq.QuantumCircuit(n, gates)
        good(hq.run(qc, sd, values), wd, "run(density matrix)")
        good(hq.run(qc, sv, values), wv, "run(vector)")
        good(hq.apply_gates(sv, list(iter(qc)), values), wv, "apply_gates(vector)")
        if len(descs) == 2:
            good(hq.apply_gates(sd, gates, values, merge_ops=False), wd, "apply_gates(density matrix, merge_ops=False)")
            good(hq.run(hq.QuantumCircuit(n, [build.OpSequence([gates[0]]), build.OpSequence([gates[1]])]), sv, values), wv, "nested")
            m = ref.run_dm(descs[:1], values, ref.outer(psi), n)
            if descs[0]["n"]:
                # noiseless gates after noise stay exact: the step from the intermediate state
                mid = hq.apply_gates(sv, gates[0], values)
                ctx.close(build.to_np(mid, n), m, "intermediate state", 1e-10)
                good(hq.apply_gates(mid, gates[1], values), wv, "second gate on the intermediate state")
