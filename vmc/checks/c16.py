"""Hamiltonian evolution.  Every Hamiltonian of a family (zero, diagonal, X/Y/Z strings and sums with non-commuting
terms, degenerate, integer and real dtypes, large norm, seeded generic Hermitian) x every time of a list (0, negative,
tiny, large, integers) x every ordered target tuple x controls on registers of up to 4 qubits, on generic vectors and
mixed density matrices, eagerly and under jit/vmap, among digital gates in every position, and in dagger mode.
Compared with the eigendecomposition of the model; composition U(t1)U(t2) = U(t1+t2) is checked over all pairs."""
from __future__ import annotations

import itertools

import numpy as np

from .. import gen, ref
from .c07 import G, S

PROPERTY = "C16"
ASSUMPTIONS = ["Hamiltonians are Hermitian matrices of the size of the target; every evolution of a circuit shares the values 'hamiltonian' and 'time_evolution' (documented names)",
               "tolerance 1e-9 (times norm for large times)"]
P = {"I": ref.I2, "X": ref.PX, "Y": ref.PY, "Z": ref.PZ}


def string(s):
    m = np.eye(1)
    for c in s:
        m = np.kron(m, P[c])
    return m


def family(k, seed):
    d = 2**k
    r = np.random.RandomState(31 * seed + k)
    g = r.randn(d, d) + 1j * r.randn(d, d)
    out = {
        "zero": np.zeros((d, d), complex), "id": np.eye(d, dtype=complex), "diag": np.diag(np.arange(d) * 0.7 - 1).astype(complex),
        "x0": string("X" + "I" * (k - 1)), "ylast": string("I" * (k - 1) + "Y"), "generic": (g + g.conj().T) / 2, "generic2": (g @ g.conj().T) / d,
        "real": np.real(g + g.T) / 2, "int": np.diag(np.arange(d)).astype(int), "big": 8 * (g + g.conj().T),
        "proj": np.diag([0.0] * (d - 1) + [1.0]).astype(complex), "imag": 1j * (np.triu(np.ones((d, d)), 1) - np.tril(np.ones((d, d)), -1)),
    }
    if k >= 2:
        out["zz"] = string("ZZ" + "I" * (k - 2))
        out["xy"] = string("XY" + "I" * (k - 2)) + 0.5 * string("Z" + "I" * (k - 1))
        out["ising"] = sum(string("".join("Z" if q in (i, (i + 1) % k) else "I" for q in range(k))) for i in range(k)) + 0.8 * sum(string("".join("X" if q == i else "I" for q in range(k))) for i in range(k))
        out["heis"] = sum(string(c * 2 + "I" * (k - 2)) for c in "XYZ")
    return out


TIMES = [0.0, 1.0, -1.0, 0.3, -2.7, 1e-6, np.pi, 13.5, 2]
H_ALL = list(family(2, 1))


def bounds(tier):
    return dict(hamiltonians=H_ALL, times=TIMES, targets="all ordered tuples of 1..3 of up to 4 qubits", controls="0..2", circuits="every position of the evolution in words of 3 digital gates")


def units(tier):
    us = []
    for n in (1, 2, 3, 4):
        for k in range(1, min(3, n) + 1):
            for t in itertools.permutations(range(n), k):
                rest = [q for q in range(n) if q not in t]
                cs = [list(c) for m in range(0, 3) for c in itertools.permutations(rest, m)]
                if n == 4 and tier == "quick":
                    cs = cs[:2] + cs[-1:]
                    if k == 3 and t[0] > t[1]:
                        continue
                us.append([dict(kind="act", n=n, t=list(t), c=c) for c in cs])
    us.append([dict(kind="compose", k=k) for k in (1, 2, 3)])
    us += [[dict(kind="circ", pos=p, t=t, c=c)] for p in range(4) for t, c in (([0, 1], []), ([2, 0], []), ([1], [0]), ([2, 1], [0]))]
    us += [[dict(kind="jit", t=t, c=c)] for t, c in (([0, 1], []), ([2, 0], []), ([1], [0, 2]), ([2, 1, 0], []), ([1, 2], [0]))]
    us.append([dict(kind="forms", k=k) for k in (1, 2)])
    us.append([dict(kind="num", num=k) for k in gen.KINDS])
    return us


def run_case(case, ctx):
    globals()["do_" + case["kind"]](case, ctx)


def tol(H, t):
    return 1e-9 * max(1.0, np.linalg.norm(H, 2) * abs(t))


def do_act(case, ctx):
    from horqrux.utils.operator_utils import OperationType

    from .. import build

    hq = build.hq
    n, t, c = case["n"], case["t"], case["c"]
    d = G("HEVO", t, c)
    ev = build.gate(d)
    psi, rho = ref.generic_vec(n, ctx.seed, 30), ref.generic_dm(n, ctx.seed, 30)
    st, sd = build.vec(psi, n), build.dm(rho, n)
    fam = family(len(t), ctx.seed)
    names = list(fam)
    for hi, name in enumerate(names):
        H = fam[name]
        times = TIMES if ctx.tier != "quick" or (n <= 3 and not c) else [TIMES[(hi + 1 + sum(t)) % len(TIMES)], -0.4]
        for ti, tm in enumerate(times):
            U = ref.embed(ref.expm_herm(H.astype(complex), tm), t, c, n)
            v = {"hamiltonian": build.jnp.asarray(H), "time_evolution": build.jnp.asarray(tm) if ti % 2 else tm}
            ctx.visit(U)
            ctx.step()
            ctx.close(build.to_np(hq.apply_gates(st, ev, v), n), U @ psi, f"evolution under {name} for {tm} on {t} controlled by {c}, {n} qubits", tol(H, tm))
            ctx.trace()
            if ti % 3 == hi % 3:
                ctx.close(build.to_np(hq.apply_gates(sd, ev, v), n), U @ rho @ U.conj().T, f"evolution of a density matrix under {name} for {tm} on {t} controlled by {c}", tol(H, tm))
                ctx.close(build.to_np(hq.apply_gates(st, ev, v, OperationType.DAGGER), n), U.conj().T @ psi, f"backward evolution under {name} for {tm} on {t} controlled by {c}", tol(H, tm))
                back = hq.apply_gates(hq.apply_gates(st, ev, v), ev, v, OperationType.DAGGER)
                ctx.close(build.to_np(back, n), psi, f"evolution there and back under {name} for {tm} on {t}", tol(H, tm))
                ctx.trace(3)
    ctx.check(tuple(ev.qubit_support) == tuple(sorted(t + c)) and ev.n_qubits == len(t + c), f"support of the evolution on {t}, {c}")


def do_compose(case, ctx):
    from .. import build

    hq = build.hq
    k = case["k"]
    n = k + (k < 3)
    t = list(range(n))[::-1][:k]
    ev = build.gate(G("HEVO", t))
    psi = ref.generic_vec(n, ctx.seed, 31)
    st = build.vec(psi, n)
    for name, H in family(k, ctx.seed).items():
        h = build.jnp.asarray(H)
        go = lambda s, tm: hq.apply_gates(s, ev, {"hamiltonian": h, "time_evolution": tm})
        for t1, t2 in itertools.product(TIMES[:7], repeat=2) if k < 3 else [(0.3, -2.7), (1.0, 1.0)]:
            one = go(st, t1 + t2)
            two = go(go(st, t1), t2)
            tl = 1e-9 * max(1.0, np.linalg.norm(H, 2) * (abs(t1) + abs(t2)))
            ctx.close(build.to_np(two, n), build.to_np(one, n), f"evolution under {name} for {t1} then {t2}", tl)
            ctx.close(build.to_np(two, n), ref.embed(ref.expm_herm(H.astype(complex), t1 + t2), t, (), n) @ psi, f"evolution under {name} for {t1} then {t2} against the model", tl)
            ctx.trace(2)
            ctx.step(3)


DIG = [G("H", [0]), G("RX", [1], [0], "a"), G("SWAP", [2, 1]), G("RY", [2], p="b")]


def do_circ(case, ctx):
    from .. import build

    hq = build.hq
    n = 3
    ev = G("HEVO", case["t"], case["c"])
    psi, rho = ref.generic_vec(n, ctx.seed, 32), ref.generic_dm(n, ctx.seed, 32)
    fam = family(len(case["t"]), ctx.seed)
    a, b = gen.rnd(2, tag=120)
    for hi, name in enumerate(("generic", "x0", "diag", "zz" if len(case["t"]) > 1 else "ylast")):
        for tm in (0.8, -1.7):
            mv = {"a": a, "b": b, "hamiltonian": fam[name], "time_evolution": tm}
            v = dict(mv, hamiltonian=build.jnp.asarray(fam[name]))
            for word in itertools.permutations(range(4), 3) if hi == 0 or ctx.tier != "quick" else [(0, 1, 2), (3, 2, 1)]:
                ds = [DIG[i] for i in word]
                ds.insert(case["pos"], ev)
                if hi % 2:
                    ds.append(ev)
                want = ref.run_vec(ds, mv, psi, n)
                ctx.visit(want)
                gates = build.obj(ds)
                qc = hq.QuantumCircuit(n, [gates[0], build.OpSequence(gates[1:])])
                for got, what in ((hq.run(qc, build.vec(psi, n), v), "run"), (hq.apply_gates(build.vec(psi, n), gates, v, merge_ops=False), "apply_gates without merging")):
                    ctx.close(build.to_np(got, n), want, f"{what} of {ds} under {name}", 1e-9)
                    ctx.trace()
                if word[0] == 0:
                    ctx.close(build.to_np(hq.run(qc, build.dm(rho, n), v), n), ref.run_dm(ds, mv, rho, n), f"density matrix through {ds} under {name}", 1e-9)
                    ctx.trace()
                ctx.step(len(ds))
            # an expectation value and its derivative with respect to the time and a digital parameter
            if tm > 0 and hi < 2:
                import jax
                import jax.numpy as jnp

                ds = [DIG[0], DIG[1], DIG[3]]
                ds.insert(case["pos"], ev)
                ob = dict(k="obs", ops=[S(G("Z", [0]), G("X", [2])), G("Y", [1])])
                Om = ref.matrix(ob, mv, n)
                qc = hq.QuantumCircuit(n, build.obj(ds))
                f = lambda th, tt: hq.expectation(build.vec(psi, n), qc, [build.obj(ob)], dict(v, a=th, time_evolution=tt))[0]
                e = lambda th, tt: (lambda o: np.vdot(o, Om @ o).real)(ref.run_vec(ds, dict(mv, a=th, time_evolution=tt), psi, n))
                ctx.close(np.asarray(f(a, tm)), np.array(e(a, tm)), f"expectation after {ds}", 1e-9)
                ga, gt = jax.grad(f, (0, 1))(jnp.asarray(a), jnp.asarray(tm))
                ctx.close(np.asarray(ga), np.array((e(a + np.pi / 2, tm) - e(a - np.pi / 2, tm)) / 2 if not DIG[1]["c"] else central(lambda x: e(x, tm), a)), f"derivative with respect to an angle of {ds}", 1e-6)
                ctx.close(np.asarray(gt), np.array(central(lambda x: e(a, x), tm)), f"derivative with respect to the time of {ds}", 1e-6)
                ctx.trace(3)


def central(f, x, h=1e-4):
    return (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h)


def do_jit(case, ctx):
    import jax
    import jax.numpy as jnp

    from .. import build

    hq = build.hq
    n, t, c = 3, case["t"], case["c"]
    d = G("HEVO", t, c)
    ev = build.gate(d)
    fam = family(len(t), ctx.seed)
    psi = ref.generic_vec(n, ctx.seed, 33)
    st = build.vec(psi, n)
    f = jax.jit(lambda s, h, x: hq.apply_gates(s, ev, {"hamiltonian": h, "time_evolution": x}))
    model = lambda H, x: ref.embed(ref.expm_herm(H.astype(complex), x), t, c, n) @ psi
    for name, H in fam.items():
        for x in TIMES:
            ctx.close(build.to_np(f(st, jnp.asarray(H), float(x)), n), model(H, x), f"jit, {name}, {x}, {t}, {c}", tol(H, x))
            ctx.trace()
            ctx.step()
    xs = jnp.asarray([float(x) for x in TIMES])
    for name in ("generic", "diag", "x0"):
        H = fam[name]
        out = jax.vmap(lambda x: hq.apply_gates(st, ev, {"hamiltonian": jnp.asarray(H), "time_evolution": x}))(xs)
        for i, x in enumerate(TIMES):
            ctx.close(build.to_np(out[i], n), model(H, x), f"vmap over times, {name}", tol(H, x))
        ctx.trace(len(TIMES))
    hs = ("generic", "zero", "real", "ylast")
    out = jax.jit(jax.vmap(lambda h, x: ev(st, {"hamiltonian": h, "time_evolution": x}), in_axes=(0, None)))(jnp.stack([jnp.asarray(fam[h].astype(complex)) for h in hs]), -0.9)
    for i, h in enumerate(hs):
        ctx.close(build.to_np(out[i], n), model(fam[h], -0.9), f"vmap over Hamiltonians, {h}", 1e-9)
    batch = jnp.stack([st, 1j * st, build.vec(ref.basis("010"), n)])
    out = jax.vmap(lambda s: ev(s, {"hamiltonian": jnp.asarray(fam["generic"]), "time_evolution": 0.6}))(batch)
    U = ref.embed(ref.expm_herm(fam["generic"], 0.6), t, c, n)
    for i, p in enumerate((psi, 1j * psi, ref.basis("010"))):
        ctx.close(build.to_np(out[i], n), U @ p, "vmap over states", 1e-9)
    ctx.trace(7)


def do_forms(case, ctx):
    """Accepted spellings of targets and controls, and calls without a state."""
    from .. import build

    from horqrux.analog import HamiltonianEvolution

    hq = build.hq
    k = case["k"]
    H = family(k, ctx.seed)["generic"]
    v = {"hamiltonian": build.jnp.asarray(H), "time_evolution": 0.9}
    psi = ref.generic_vec(3, ctx.seed, 34)
    st = build.vec(psi, 3)
    t = [2] if k == 1 else [2, 0]
    for form in ("int", "tuple", "np", "nptuple", "np32"):
        for c in ([], [1]):
            kw = {"control": build.index(c, form)} if c else {}
            ev = HamiltonianEvolution(build.index(t, form), **kw)
            U = ref.embed(ref.expm_herm(H, 0.9), t, c, 3)
            ctx.close(build.to_np(ev(st, v), 3), U @ psi, f"evolution on {t} ({form}) controlled by {c}", 1e-9)
            ctx.trace()
            ctx.step()
    ev = HamiltonianEvolution(tuple(range(k)))
    ctx.close(build.to_np(ev(None, v), k), ref.expm_herm(H, 0.9)[:, 0], "evolution of the default state", 1e-9)
    ctx.trace()


def do_num(case, ctx):
    """Times as integers, numpy or jax numbers of any precision; hamiltonians of several types; units (a hamiltonian in
    large units evolved for a short time, and the converse)."""
    import jax

    from .. import build

    hq, kind, n = build.hq, case["num"], 2
    jnp = build.jnp
    d, dc = G("HEVO", [1]), G("HEVO", [0], [1])
    psi, rho = ref.generic_vec(n, ctx.seed, 36), ref.generic_dm(n, ctx.seed, 36)
    st, sd = build.vec(psi, n), build.dm(rho, n)
    fam = family(1, ctx.seed)
    H0 = fam["generic"]
    for x in gen.kind_values(kind):
        for g in (d, dc):
            ev = build.gate(g)
            U = ref.embed(ref.expm_herm(H0.astype(complex), float(x)), g["t"], g["c"], n)
            v = {"hamiltonian": jnp.asarray(H0), "time_evolution": gen.number(kind, x)}
            eps = gen.KIND_TOL.get(kind, 1e-9) * 10
            ctx.visit(U)
            ctx.close(build.to_np(hq.apply_gates(st, ev, v), n), U @ psi, f"evolution {g} for {kind}({x})", eps)
            ctx.close(build.to_np(ev(sd, v), n), U @ rho @ U.conj().T, f"evolution {g} of a density matrix for {kind}({x})", eps)
            ctx.close(build.to_np(jax.jit(lambda s, w: hq.apply_gates(s, ev, w))(st, v), n), U @ psi, f"compiled evolution {g} for {kind}({x})", eps)
            ctx.trace(3)
            ctx.step()
    if kind == "int":
        # the product H t is what matters
        for e in (2, 5, 7, 9, 12):
            for sign in (1, -1):
                for x in (0.7, -1.3):
                    for how in ("number", "array", "jit"):
                        H, tm = H0 * 10.0 ** (sign * e), x * 10.0 ** (-sign * e)
                        U = ref.embed(ref.expm_herm(H0.astype(complex), x), d["t"], d["c"], n)
                        ev = build.gate(d)
                        v = {"hamiltonian": jnp.asarray(H), "time_evolution": jnp.asarray(tm) if how != "number" else tm}
                        f = lambda s, w: hq.apply_gates(s, ev, w)
                        got = (jax.jit(f) if how == "jit" else f)(st, v)
                        ctx.close(build.to_np(got, n), U @ psi, f"evolution for {tm} ({how}) under a hamiltonian of size 1e{sign * e}", 1e-8)
                        ctx.trace()
                        ctx.step()
