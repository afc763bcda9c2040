"""Every gate list up to the bound over alphabets built to collide (the same qubits in other orders, alternating
targets, controls sharing qubits, two-qubit gates, parameters, repeated objects, noise), on vectors, density matrices
and sparse states, with every combination of merge_ops and group_gates, through lists and tuples, in unitary and
dagger mode: each result equals the model that multiplies the gates in listed order, the caller's container still
holds the same objects in the same order, and grouping by index returns the same objects."""
from __future__ import annotations

import itertools

import numpy as np

from .. import gen, ref
from .c07 import G

PROPERTY = "C20"
ASSUMPTIONS = ["one generic input state per register decides equality of linear maps up to measure zero", "tolerance 1e-10"]
NZ = [("AmplitudeDamping", 0.3)]
NZ2 = [("BitFlip", 0.2), ("PhaseDamping", 0.4)]
HAM = [[1, 0.5 - 0.2j, 0, 0.1], [0.5 + 0.2j, -1, 0.3, 0.4j], [0, 0.3, 2, 1j], [0.1, -0.4j, -1j, 0.4]]
ALPH = {
    "two": (2, [G("RX", [0], p="a"), G("H", [0]), G("RY", [1], p="b"), G("T", [1]), G("X", [1], [0]), G("X", [0], [1]), G("SWAP", [0, 1]), G("ISQRTSWAP", [1, 0]), G("RZ", [1], [0], "a"), G("PHASE", [0], p="b"), G("Z", [0])]),
    "three": (3, [G("H", [2]), G("RX", [0], p="a"), G("SWAP", [0, 2]), G("SWAP", [2, 1]), G("X", [1], [2, 0]), G("Y", [1], [0, 2]), G("RY", [1], p="b"), G("X", [0], [1]), G("ISWAP", [1, 2], [0]), G("T", [0])]),
    "small": (2, [G("RX", [0], p="a"), G("H", [1]), G("X", [1], [0]), G("SWAP", [1, 0]), G("RY", [0], p="b")]),
    "wide": (4, [G("RX", [3], p="a"), G("H", [1]), G("X", [2], [1]), G("ISWAP", [3, 0]), G("RY", [2], p="b"), G("T", [0]), G("Y", [1])]),
    "ctrl": (4, [G("X", [3], [0, 1]), G("Y", [3], [0, 2]), G("RX", [3], [1, 0], "a"), G("H", [3], [1, 2]), G("RY", [3], [2, 1, 0], "b"), G("Z", [3], [0]), G("T", [3], [1]), G("H", [0])]),
    "evo": (3, [G("HEVO", [0, 1]), G("HEVO", [1, 0]), G("HEVO", [2, 0]), G("HEVO", [0, 1], [2]), G("RY", [1], p="a"), G("SWAP", [1, 0])]),
    "noisy": (2, [G("RX", [0], p="a", n=NZ), G("RX", [0], p="b"), G("H", [1]), G("Y", [1], n=NZ2), G("X", [1], [0], n=NZ), G("SWAP", [1, 0]), G("RY", [0], [1], "a")]),
}
DEPTH = {
    "quick": dict(two=3, three=3, small=4, wide=3, ctrl=3, evo=3, noisy=3), "thorough": dict(two=4, three=4, small=6, wide=4, ctrl=4, evo=5, noisy=4),
}
FLAGS = list(itertools.product((False, True), repeat=2))


def bounds(tier):
    return dict(alphabets={k: [g["g"] + str(g["t"]) + str(g["c"]) for g in v[1]] for k, v in ALPH.items()}, depth=DEPTH[tier], flags="merge_ops x group_gates", long_runs="periodic words of every length 5..24 on one or two qubits",
                states=["vector (all words)", "density matrix (one level less)", "sparse (words of length <= 2, and 3 over the small alphabet)"], op_types=["unitary", "dagger (words of length <= 2)"])


def units(tier):
    us = []
    for name, (n, alph) in ALPH.items():
        top = DEPTH[tier][name]
        ws = list(gen.words(alph, 0, top))
        us += gen.chunks([dict(a=name, w=w, sk="vec") for w in ws], 60)
        us += gen.chunks([dict(a=name, w=w, sk="dm") for w in ws if len(w) < top or name == "noisy"], 40)
        if name not in ("noisy", "evo", "ctrl"):
            us += gen.chunks([dict(a=name, w=w, sk="sp") for w in ws if len(w) <= (3 if name == "small" else 2 if name == "two" or tier != "quick" else 1)], 12)
        if name != "wide":
            us += gen.chunks([dict(a=name, w=w, sk=sk, op="dagger") for w in ws if 1 <= len(w) <= 2 for sk in ("vec", "dm")], 60)
    us += [[dict(a=a, w=["tour", s], sk=sk)] for a in ("two", "three", "noisy") for s in range(3) for sk in ("vec", "dm")]
    us += [[dict(a=a, w=w, sk="jit") for w in ([0, 2, 1, 4, 0], [3, 0, 6, 5, 1, 1])] for a in ("two", "three")]
    # long runs on one qubit, and runs on alternating qubits
    for L in range(5, 25 if tier == "quick" else 41):
        us.append([dict(a="two", w=(x * L)[:L], sk=sk) for x in ([0, 1, 10], [1, 3], [5, 4, 4]) for sk in (("vec", "dm") if L % 4 == 1 else ("vec",))])
    us.sort(key=lambda u: (u[0]["sk"] == "sp", len(u[0]["w"])))
    return us


def word(case, alph):
    w = case["w"]
    if w and w[0] == "tour":  # every ordered pair of letters occurs
        k, s = len(alph), w[1]
        return [x for i in range(k) for j in range(k) for x in ((i + s) % k, (j * (1 + s) + s) % k)]
    return w


def model(descs, values, n, psi, rho, sk, op):
    noisy = any(d.get("n") for d in descs)
    if op == "dagger":
        Us = [ref.gate_matrix(d, values, n).conj().T for d in descs]
        if sk == "vec" and not noisy:
            for U in Us:
                psi = U @ psi
            return psi
        rho = ref.outer(psi) if sk == "vec" else rho
        for U, d in zip(Us, descs):
            rho = U @ rho @ U.conj().T
            for k, p in d.get("n", ()):
                rho = ref.apply_channel(rho, k, p, d["t"][0], n)
        return rho
    if sk == "dm" or noisy:
        return ref.run_dm(descs, values, rho if sk == "dm" else ref.outer(psi), n)
    return ref.run_vec(descs, values, psi, n)


def run_case(case, ctx):
    from horqrux.apply import group_by_index
    from horqrux.utils.operator_utils import OperationType

    from .. import build

    hq = build.hq
    n, alph = ALPH[case["a"]]
    sk, op = case["sk"], case.get("op", "unitary")
    w = word(case, alph)
    descs = [alph[i] for i in w]
    values = dict(zip("ab", gen.rnd(2, tag=200)))
    if case["a"] == "evo":
        values.update(hamiltonian=build.jnp.asarray(HAM), time_evolution=0.7)
    psi, rho = ref.generic_vec(n, ctx.seed, 200), ref.generic_dm(n, ctx.seed, 200)
    want = model(descs, values, n, psi, rho, sk, op)
    state = build.dm(rho, n) if sk == "dm" else build.sp(psi, n) if sk == "sp" else build.vec(psi, n)
    shared = {}
    gates = [shared.setdefault(i, build.gate(alph[i], sparse=sk == "sp")) for i in w]
    ctx.visit(want, op)
    kw = dict(op_type=OperationType.DAGGER) if op == "dagger" else {}
    if sk == "jit":
        return jitted(case, ctx, build, gates, descs, values, state, want, n)
    kinds = [list] if sk == "sp" or len(w) > 2 else [list, tuple]
    for merge, group in FLAGS:
        for kind in kinds:
            arg = kind(gates)
            got = hq.apply_gates(state, arg, values, group_gates=group, merge_ops=merge, **kw)
            what = f"{op} of {descs} on {sk} with merge_ops={merge}, group_gates={group}"
            ctx.close(build.to_np(got, n), want, what, 1e-9 if len(w) > 20 else 1e-10)
            ctx.check(len(arg) == len(gates) and all(x is y for x, y in zip(arg, gates)), f"{what}: the gate list was changed to {arg}")
            ctx.trace()
            ctx.step(len(w))
    arg = list(gates)
    grouped = list(group_by_index(arg))
    ctx.check(sorted(map(id, grouped)) == sorted(map(id, gates)), f"grouping {descs} lost or invented gates: {grouped}")
    ctx.check(all(x is y for x, y in zip(arg, gates)), f"grouping {descs} changed the list passed in")
    if sk == "vec" and op == "unitary":
        ctx.close(build.to_np(hq.apply_gates(state, grouped, values, merge_ops=False), n), want, f"grouped list of {descs}", 1e-9 if len(w) > 20 else 1e-10)
        ctx.trace()


def jitted(case, ctx, build, gates, descs, values, state, want, n):
    import jax

    for merge, group in FLAGS:
        f = jax.jit(lambda s, g, v: build.hq.apply_gates(s, g, v, group_gates=group, merge_ops=merge))
        ctx.close(build.to_np(f(state, gates, values), n), want, f"jit of {descs} with merge_ops={merge}, group_gates={group}", 1e-10)
        ctx.trace()
