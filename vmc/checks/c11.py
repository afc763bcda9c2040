"""Sampling with the random source owned by the harness.  For every circuit x state of the family: all answers of
a 256-cell grid of uniform numbers are fed to the real sampler and the histogram must equal the Born
distribution up to the grid resolution; every sequence of representative answers (one per outcome) up to length
3 must give the multiset of its single outcomes; permuted scripts must give the same counts.  Without the
script (jax's own source) counts must sum to n_shots, never contain a bitstring of probability 0, be the same
on every repetition, and lie within a Hoeffding bound (error 1e-10) of the Born probabilities."""
from __future__ import annotations

import itertools
import math

import numpy as np

from .. import gen, ref, rng
from .c07 import G, S

PROPERTY = "C11"
ASSUMPTIONS = [
    "jax.random.uniform answers are the only randomness (checked: exactly n_shots numbers are consumed; otherwise only the unscripted part decides)",
    "unscripted frequencies are compared with a bound violated with probability < 1e-10 per outcome by a correct sampler",
]
CIRC = {
    "id": (1, []),
    "x": (3, [G("X", [0])]),
    "x2": (3, [G("X", [2]), G("X", [1], [2])]),
    "h": (1, [G("H", [0])]),
    "ry": (1, [G("RY", [0], p="a")]),
    "bell": (2, [G("RY", [0], p="a"), G("X", [1], [0])]),
    "prod": (2, [G("RY", [0], p="a"), G("RX", [1], p="b")]),
    "swap": (3, [G("RY", [0], p="a"), S(G("SWAP", [0, 2]), G("RY", [1], p="b"))]),
    "three": (3, [G("RY", [0], p="a"), G("RX", [1], [0], "b"), G("H", [2]), G("PHASE", [2], p="a"), G("H", [2])]),
    "noisy": (2, [G("RY", [0], p="a", n=[("AmplitudeDamping", 0.3)]), G("X", [1], [0], n=[("BitFlip", 0.25)])]),
    "noisyx": (2, [G("X", [1], n=[("BitFlip", 1.0)]), G("X", [0], n=[("PhaseFlip", 0.4)])]),
}
N = 256


def bounds(tier):
    return dict(circuits=list(CIRC), states=["zero", "generic vector", "mixed dm", "pure dm"], grid=N, sequences="all of length <= 3 over one representative per outcome", shots=[1, 2, 7, 1000, 3000], wide="Pearson statistic of up to 40000 shots over up to 4096 outcomes")


def units(tier):
    us = []
    for c in CIRC:
        for sk in ("zero", "gen", "dm", "pure"):
            for pt in range(1 if tier == "quick" else 4):
                us.append([dict(c=c, sk=sk, pt=pt)])
    us.append([dict(c="basis", n=n, k=k) for n in (2, 5, 10, 12) for k in (0, 1, 2**n - 1, 2 ** (n - 1), 3)])
    us += [[dict(c="wide", n=n, sk=sk, shots=s)] for n, sk, s in
           [(10, "flat", 20480), (10, "tilt", 20480), (8, "tilt", 9001), (12, "tilt", 40000), (5, "dm", 9001), (6, "flat", 2048), (6, "dm", 30000), (3, "tilt", 5000), (3, "dm", 4097)]]
    return us


def wide(case, ctx, build, hq):
    """Many outcomes and many shots: Pearson's statistic of the counts, with the Chernoff bound of its tails."""
    n, shots = case["n"], case["shots"]
    angles = [0.0] * n if case["sk"] == "flat" else gen.rnd(n, -0.5, 0.5, 64)
    descs = [G("H", [q]) for q in range(n)] + [G("RY", [q], p=angles[q]) for q in range(n)]
    if case["sk"] == "dm":
        descs[0] = G("H", [0], n=[("AmplitudeDamping", 0.1)])
        descs.append(G("X", [n - 1], [0]))
    st = hq.zero_state(n)
    if case["sk"] == "dm":
        st = build.density_mat(st)
        p = np.real(np.diag(ref.run_dm(descs, {}, ref.outer(ref.basis("0" * n)), n)))
    else:
        psi = ref.basis("0" * n)
        for g in descs:
            psi = ref.act_vec(g, {}, psi, n)
        p = np.abs(psi) ** 2
    qc = hq.QuantumCircuit(n, build.obj(descs))
    cnt = hq.sample(st, qc, {}, shots)
    ctx.check(sum(cnt.values()) == shots and all(len(b) == n and set(b) <= {"0", "1"} for b in cnt), f"{len(cnt)} keys, {sum(cnt.values())} shots of {shots}")
    obs = np.array([cnt.get(format(i, f"0{n}b"), 0) for i in range(2**n)])
    chi, dof = float(((obs - shots * p) ** 2 / (shots * p)).sum()), 2**n - 1
    tail = lambda k: dof / 2 * (math.log(k) + 1 - k)
    k = chi / dof
    ctx.visit(p)
    ctx.outcome((n, case["sk"], shots))
    ctx.trace()
    ctx.step(shots)
    ctx.check(tail(max(k, 1e-12)) > math.log(1e-14), f"{shots} shots over {2**n} outcomes: Pearson statistic {chi:.1f} with {dof} degrees of freedom (independent draws with Born probabilities give this with probability < 1e-14)")


def run_case(case, ctx):
    from .. import build

    hq = build.hq
    if case["c"] == "basis":
        n, k = case["n"], case["k"]
        bits = format(k, f"0{n}b")
        for st in (hq.product_state(bits),) + ((build.density_mat(hq.product_state(bits)),) if n <= 5 else ()):
            got = hq.sample(st, hq.QuantumCircuit(n, []), {}, 13)
            ctx.check(dict(got) == {bits: 13}, f"sample of |{bits}> is {got}")
            got = hq.sample(st, hq.QuantumCircuit(n, [build.gate(G("X", [0]))]), {}, 5)
            ctx.check(dict(got) == {("1" if bits[0] == "0" else "0") + bits[1:]: 5}, f"sample of X0 |{bits}> is {got}")
            ctx.trace(2)
            ctx.visit_key((n, k))
        return
    if case["c"] == "wide":
        return wide(case, ctx, build, hq)
    n, descs = CIRC[case["c"]]
    values = dict(zip("ab", gen.rnd(2, 0.4, 2.4, 60 + case["pt"])))
    psi = ref.basis("0" * n) if case["sk"] == "zero" else ref.generic_vec(n, ctx.seed, 7)
    if case["sk"] == "zero" and case["c"] == "id":
        psi = ref.basis("1")
    rho = ref.generic_dm(n, ctx.seed, 7) if case["sk"] == "dm" else ref.outer(psi)
    st = {"zero": lambda: build.vec(psi, n), "gen": lambda: build.vec(psi, n), "dm": lambda: build.dm(rho, n), "pure": lambda: build.density_mat(build.vec(psi, n))}[case["sk"]]()
    qc = hq.QuantumCircuit(n, build.obj(descs))
    p = np.clip(np.real(np.diag(ref.run_dm(descs, values, rho, n))), 0, 1)
    ctx.visit(p)
    d = 2**n
    label = lambda i: format(i, f"0{n}b")
    possible = {label(i) for i in range(d) if p[i] > 1e-12}

    def shape_ok(cnt, shots):
        ctx.check(sum(cnt.values()) == shots, f"counts {cnt} sum to {sum(cnt.values())}, not {shots}")
        for b, c in cnt.items():
            ctx.check(isinstance(b, str) and len(b) == n and set(b) <= {"0", "1"}, f"key {b!r}")
            ctx.check(int(c) == c and c > 0, f"count {c!r} of {b}")
            ctx.check(b in possible, f"bitstring {b} has probability {p[int(b, 2)]} but was returned: {cnt}")
            ctx.outcome((case["c"], b))
        ctx.trace()
        ctx.step(shots)

    # jax's own source
    for shots in (1, 2, 7, 3000):
        cnt = hq.sample(st, qc, values, shots)
        shape_ok(cnt, shots)
        if shots == 3000:
            again = hq.sample(st, qc, values, shots)
            ctx.check(dict(again) == dict(cnt), f"same call, different counts: {cnt} then {again}")
            eps = rng.hoeffding(shots, 1.0)
            for i in range(d):
                f = cnt.get(label(i), 0) / shots
                ctx.check(abs(f - p[i]) <= eps, f"frequency {f} of {label(i)} with Born probability {p[i]} in {shots} shots")
    cnt = hq.sample(st, qc, values)
    shape_ok(cnt, 1000)
    # scripted source
    grid = [(i + 0.5) / N for i in range(N)]
    scripted = 0

    def script(us):
        nonlocal scripted
        answers, log = rng.queue(us)
        with rng.Source(answers, clear=False) as src:
            cnt = hq.sample(st, qc, values, len(us))
        if log["used"] != len(us):
            return None  # another way of drawing: the script does not apply
        scripted += 1
        shape_ok(cnt, len(us))
        return cnt

    cnt = script(grid)
    if cnt is None:
        ctx.count("unscripted")
        return
    for i in range(d):
        f = cnt.get(label(i), 0) / N
        ctx.check(abs(f - p[i]) <= 2.0 / N + 1e-9, f"{label(i)} is the answer to a share {f} of the uniform numbers; Born probability {p[i]}")
    for perm in (grid[::-1], grid[1::2] + grid[0::2]):
        other = script(perm)
        ctx.check(dict(other) == dict(cnt), f"counts depend on the order of the draws: {cnt} / {other}")
    # representative answers: one per outcome
    reps = {}
    for u in grid[8::16] + grid[::32]:
        c1 = script([u])
        ctx.check(c1 is not None and len(c1) == 1, f"one shot gave {c1}")
        reps.setdefault(next(iter(c1)), u)
        if len(reps) == 3:
            break
    items = sorted(reps.items())[:3]
    for m in (2, 3):
        for seq in itertools.product(items, repeat=m):
            got = script([u for _, u in seq])
            want = {}
            for b, _ in seq:
                want[b] = want.get(b, 0) + 1
            ctx.check(got is not None and dict(got) == want, f"draws {seq} gave {got}")
    # extreme answers of the source
    if all(abs(x - round(x)) < 1e-12 for x in p):
        for u in (0.0, float(np.nextafter(1.0, 0.0)), 2.0**-53):
            script([u, u])
    ctx.count("scripted_runs", scripted)
