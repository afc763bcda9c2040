"""Exact expectation values.  (a) every Pauli string on up to 3 qubits, as product in every factor order for 2
factors; (b) every term of an observable grammar (leaves, products, sums, named and numeric scalings) up to
nesting depth 2, with selected depth-3 and -4 terms; (c) every circuit of a family x every mode x state kind x
value layout with lists of observables in every order; (d) registers of 9 and 10 qubits.  Each value returned by
the real code is compared with Re tr(O rho) of the dense model."""
from __future__ import annotations

import itertools

import numpy as np

from .. import gen, ref

PROPERTY = "C07"
ASSUMPTIONS = ["bare OpSequence passed as the container of Add/Observable is treated as a list (documented use is a list)",
               "products that are not Hermitian contribute the real part of their expectation value", "tolerance 1e-10"]
G = lambda g, t, c=(), p=None, n=(): dict(g=g, t=list(t), c=list(c), p=p, n=[list(x) for x in n])
S = lambda *ops: dict(k="seq", ops=list(ops))
A = lambda *ops: dict(k="add", ops=list(ops))
M = lambda p, *ops: dict(k="scale", ops=list(ops), p=p)
O = lambda *ops: dict(k="obs", ops=list(ops))

CIRC = {
    "empty": [],
    "prod": [G("RX", [0], p="a"), G("RY", [1], p="b")],
    "ent": [G("H", [0]), G("X", [1], [0]), G("RZ", [1], p="a"), G("RX", [0], p="b"), G("PHASE", [1], [0], "a")],
    "ctrl": [G("RY", [1], p="a"), G("RX", [0], [1], "b"), G("SWAP", [0, 1]), G("T", [0]), G("ISWAP", [1, 0])],
    "nest": [S(G("RX", [0], p="a"), S(G("X", [1], [0]))), dict(k="qc", nq=2, ops=[G("RY", [1], p="b"), G("Z", [0], [1])])],
    "noisy": [G("RX", [0], p="a", n=[("AmplitudeDamping", 0.3)]), G("X", [1], [0]), G("RY", [1], [0], "b", n=[("BitFlip", 0.2), ("PhaseDamping", 0.4)]), G("H", [0])],
    "onenoise": [G("H", [1], n=[("Depolarizing", 0.3)]), G("RY", [1], p="a")],
}
LEAF = [G("X", [0]), G("Y", [1]), G("Z", [0]), G("Z", [1]), G("I", [0]), G("X", [1], [0]), G("Y", [0])]
VALS = {"a": 0.0, "b": 0.0, "w": 0.0, "v": 0.0}


def level1():
    out = [M("w", x) for x in LEAF] + [M(-0.7, x) for x in LEAF] + [M(1.3, LEAF[0], LEAF[3])] + [M("v", LEAF[1], LEAF[2])]
    for x, y in itertools.product(LEAF, repeat=2):
        out += [S(x, y), A(x, y)]
    return out


def nested():
    # a scaling of a scaling of a scaling: signs, zeros, ones and names in every position
    vals = (-2.0, 3.0, 0.5, -1.0, 0.0, 1.0, "w", "v")
    out = [M(p, M(q, x)) for p in vals for q in vals for x in (LEAF[0], A(LEAF[1], LEAF[3]), S(LEAF[0], LEAF[3]))]
    return out + [M(p, M(q, M(r, LEAF[2]))) for p, q, r in itertools.product((-2.0, 0.5, -1.0, "w"), repeat=3)]


def deep():
    X0, Y1, Z0, Z1 = LEAF[:4]
    return [
        M("w", A(X0, Z1)), M("w", S(X0, Z1)), M(2.0, A(M("v", X0), S(Y1, Z0))), A(M("w", A(X0, Y1)), M("w", A(X0, Y1))),
        S(A(X0, Y1), A(Z0, Z1)), S(M("w", X0), M("v", Z1)), A(S(A(X0, Z0), M(0.5, Y1)), M("v", S(Z0, Z1))),
        M("w", M("v", A(X0, M(3.0, Z1)))), S(S(S(X0), Y1), Z0), A(A(A(X0), Y1), M("w", A(Z0))), M("w", S(A(X0, Z0), A(X0, Z0))),
        A(S(X0, Y1, Z0), S(Z0, Y1, X0), M("w", Z1)), S(M(2.0, A(X0, Z0)), Y1), M(-1.0, A(X0, M("w", S(Y1, A(Z0, X0))))),
        M(0.0, A(X0, Z1)), A(M("w", X0), M("w", X0), M("v", X0)),
    ]


def bounds(tier):
    return dict(pauli_strings="all on <= 3 qubits" if tier == "quick" else "all on <= 4 qubits", grammar_depth=2, circuits=list(CIRC),
                modes=["AD", "ADJOINT", "GPSR"], states=["vector", "mixed dm", "noisy circuit"], layouts=["flat", "circuit/observables"], big=[9, 10, 11], names=NAMES, number_kinds=list(gen.KINDS))


def units(tier):
    us = []
    cs = []
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for s in itertools.product("IXYZ", repeat=n):
            cs.append(dict(kind="pauli", n=n, s="".join(s)))
    us += gen.chunks(cs, 12)
    terms = LEAF + level1()
    us += gen.chunks([dict(kind="term", o=O(t)) for t in terms], 20)
    us += gen.chunks([dict(kind="term", o=O(t)) for t in deep()], 8)
    us += gen.chunks([dict(kind="term", o=O(t)) for t in nested()], 28)
    us += gen.chunks([dict(kind="term", o=O(s, t)) for s, t in itertools.product(deep()[::2] + [LEAF[0]], [LEAF[1], M("w", LEAF[3]), A(LEAF[0], LEAF[3])])], 14)
    l1 = level1()
    d2 = [f(x, y) for x in l1 for y in (LEAF[:4] if tier == "quick" else LEAF) for f in (S, A)] + [f(y, x) for x in l1[::1 if tier != "quick" else 3] for y in LEAF[:3] for f in (S, A)]
    d2 += [M("w", x) for x in l1] + [M(0.5, x, LEAF[0]) for x in l1]
    us += gen.chunks([dict(kind="term", o=O(t)) for t in d2], 40)
    if tier != "quick":
        us += gen.chunks([dict(kind="term", o=O(f(x, y))) for x, y in itertools.product(l1, repeat=2) for f in (S, A)], 60)
    for c in CIRC:
        us.append([dict(kind="circ", c=c, obs=list(p)) for p in itertools.permutations(range(4), 3)])
    for i in range(len(NAMES)):
        us.append([dict(kind="circ", c=c, obs=[0, 2, 3], names=i) for c in CIRC])
    us += gen.chunks([dict(kind="num", num=k, c=c) for k in gen.KINDS for c in ("ent", "ctrl", "noisy")], 8)
    us.append([dict(kind="big", n=n, sup=s) for n, s in [(9, [1, 8]), (9, [8, 1]), (10, [0, 9]), (9, [8]), (9, [0, 8, 4]), (11, [10, 2]), (12, [2, 11, 1])]])
    return us


# other spellings of the parameter names: reserved words, names that extend, equal up to case or blanks, or swap roles
NAMES = [
    dict(a="circuit", b="hamiltonian", w="values", v="state"), dict(a="observables", b="time_evolution", w="circuits", v="param"),
    dict(a="a", b="A", w=" a", v="a "), dict(a="x", b="x1", w="x10", v="x_1"), dict(a="", b=" ", w="0", v="1"), dict(a="b", b="a", w="v", v="w"),
    dict(a="shift", b="param", w="observables", v="shift_0"), dict(a="\u03b8", b="\u03b8_0", w="\u0398", v="theta"),
]


def renamed(x, names):
    """A descriptor with its parameters renamed."""
    if isinstance(x, list):
        return [renamed(y, names) for y in x]
    x = dict(x)
    if isinstance(x.get("p"), str):
        x["p"] = names[x["p"]]
    if "ops" in x:
        x["ops"] = renamed(x["ops"], names)
    return x


OBS = [O(M("w", A(LEAF[0], LEAF[3]))), O(S(LEAF[2], LEAF[1])), O(LEAF[3], M("v", LEAF[0])), O(M(0.4, S(LEAF[0], LEAF[1])), LEAF[2], LEAF[4])]


def run_case(case, ctx):
    import jax.numpy as jnp

    from .. import build

    hq = build.hq
    kind = case["kind"]
    vals = dict(zip(("a", "b", "w", "v"), gen.rnd(4, -2, 2, 13)))
    D = hq.DiffMode if hasattr(hq, "DiffMode") else None
    if D is None:
        from horqrux.utils.operator_utils import DiffMode as D
    if kind == "circ":
        return circ(case, ctx, build, vals, D)
    if kind == "big":
        return big(case, ctx, build, D)
    if kind == "num":
        return num(case, ctx, build, D)
    if kind == "pauli":
        n, s = case["n"], case["s"]
        gates = [G(ch, [q]) for q, ch in enumerate(s)]
        forms = [O(S(*gates))]
        nz = [g for g in gates if g["g"] != "I"]
        if 1 <= len(nz) < n:
            forms.append(O(S(*nz)))
        if len(nz) == 2:
            forms.append(O(S(nz[1], nz[0])))
        if len(nz) == 1:
            forms.append(O(nz[0]))
        circ_d = []
    else:
        n, forms, circ_d = 2, [case["o"]], CIRC["ent"]
    psi, rho = ref.generic_vec(n, ctx.seed), ref.generic_dm(n, ctx.seed)
    qc = hq.QuantumCircuit(n, build.obj(circ_d))
    obs = build.obj(forms)
    fv, fd = ref.run_vec(circ_d, vals, psi, n), ref.run_dm(circ_d, vals, rho, n)
    Ms = [ref.matrix(o, vals, n) for o in forms]
    wv = np.array([np.vdot(fv, m @ fv).real for m in Ms])
    wd = np.array([np.trace(m @ fd).real for m in Ms])
    sv, sd = build.vec(psi, n), build.dm(rho, n)

    def good(got, want, what):
        got = np.asarray(got)
        ctx.check(not np.iscomplexobj(got), f"{what}: complex result")
        ctx.close(got, want, f"{what} of {forms}", 1e-10)
        ctx.trace()

    good(hq.expectation(sv, qc, obs, vals), wv, "expectation(vector)")
    good(hq.expectation(sd, qc, obs, vals), wd, "expectation(density matrix)")
    good(hq.expectation(sv, qc, obs, vals, diff_mode=D.ADJOINT), wv, "adjoint expectation")
    good(hq.expectation(sv, qc, obs, vals, diff_mode=D.GPSR), wv, "parameter-shift expectation")
    nested = {"circuit": {k: vals[k] for k in "ab"}, "observables": {k: vals[k] for k in "wv"}}
    good(hq.expectation(sd, qc, obs, nested), wd, "expectation(density matrix, separate values)")
    for o, d, m in zip(obs, forms, Ms):
        good(o(sv, vals), np.vdot(psi, m @ psi).real, "observable(vector)")
        good(o(sd, vals), np.trace(m @ rho).real, "observable(density matrix)")
    ctx.visit(wv)
    ctx.visit(wd)
    ctx.step(5 + 2 * len(obs))


def circ(case, ctx, build, vals, D):
    hq = build.hq
    n = 2
    descs = CIRC[case["c"]]
    forms = [OBS[i] for i in case["obs"]]
    names = dict(zip("abwv", "abwv"))
    if "names" in case:
        names = NAMES[case["names"]]
        descs, forms, vals = renamed(descs, names), renamed(forms, names), {names[k]: v for k, v in vals.items()}
    psi, rho = ref.generic_vec(n, ctx.seed, 3), ref.generic_dm(n, ctx.seed, 3)
    noisy = ref.has_noise(descs)
    qc = hq.QuantumCircuit(n, build.obj(descs))
    obs = build.obj(forms)
    Ms = [ref.matrix(o, vals, n) for o in forms]
    flat = dict(vals, unused=4.0)
    # the same names mean different things on the two sides when values are given separately
    nested = {"circuit": dict(vals), "observables": {names["w"]: -1.1, names["v"]: 0.6, names["a"]: 5.0}}
    Mn = [ref.matrix(o, nested["observables"], n) for o in forms]
    for sk in ("vec", "dm") if "names" not in case else ("vec",):
        st = build.vec(psi, n) if sk == "vec" else build.dm(rho, n)
        r = ref.run_dm(descs, vals, ref.outer(psi) if sk == "vec" else rho, n)
        for mode in ("AD", "ADJOINT", "GPSR"):
            if mode == "ADJOINT" and (sk == "dm" or noisy):
                continue
            for layout in ("flat", "nested"):
                if mode == "GPSR" and layout == "nested":
                    continue
                v, ms = (flat, Ms) if layout == "flat" else (nested, Mn)
                want = np.array([np.trace(m @ r).real for m in ms])
                got = np.asarray(hq.expectation(st, qc, obs, v, diff_mode=getattr(D, mode)))
                ctx.close(got, want, f"{mode} {layout} {sk} of {case}", 1e-10)
                one = np.asarray(hq.expectation(st, qc, [obs[0]], v, diff_mode=getattr(D, mode)))
                ctx.close(one, want[:1], f"{mode} {layout} {sk}, one observable of {case}", 1e-10)
                ctx.visit(want)
                ctx.trace(2)
                ctx.step(2)


def num(case, ctx, build, D):
    """Angles and scale factors as integers, numpy or jax numbers of any precision."""
    hq, kind, n = build.hq, case["num"], 2
    tol = gen.KIND_TOL.get(kind, 1e-10) * 10
    descs, xs = CIRC[case["c"]], gen.kind_values(kind)
    psi, rho = ref.generic_vec(n, ctx.seed, 3), ref.generic_dm(n, ctx.seed, 3)
    noisy = ref.has_noise(descs)
    for i in range(len(xs)):
        vals = {k: float(xs[(i + j) % len(xs)]) for j, k in enumerate("abwv")}
        v = {k: gen.number(kind, x) for k, x in vals.items()}
        factor = xs[(i + 1) % len(xs)]
        forms = OBS + [O(M(float(factor), A(LEAF[0], LEAF[3])), LEAF[1])]
        obs = build.obj(OBS) + [hq.Observable([hq.Scale(hq.Add([build.gate(LEAF[0]), build.gate(LEAF[3])]), gen.number(kind, factor)), build.gate(LEAF[1])])]
        qc = hq.QuantumCircuit(n, build.obj(descs))
        Ms = [ref.matrix(o, vals, n) for o in forms]
        for sk in ("vec", "dm"):
            r = ref.run_dm(descs, vals, ref.outer(psi) if sk == "vec" else rho, n)
            want = np.array([np.trace(m @ r).real for m in Ms])
            ctx.visit(want)
            st = build.vec(psi, n) if sk == "vec" else build.dm(rho, n)
            for mode in ("AD", "ADJOINT", "GPSR"):
                if mode == "ADJOINT" and (sk == "dm" or noisy):
                    continue
                ctx.close(np.asarray(hq.expectation(st, qc, obs, v, diff_mode=getattr(D, mode))), want, f"{mode} {sk} with {kind} values {vals} and the factor {factor}", tol)
                if mode != "GPSR":
                    got = hq.expectation(st, qc, obs, {"circuit": {k: v[k] for k in "ab"}, "observables": {k: v[k] for k in "wv"}}, diff_mode=getattr(D, mode))
                    ctx.close(np.asarray(got), want, f"{mode} {sk} with separate {kind} values {vals}", tol)
                ctx.trace(2)
                ctx.step(2)


def big(case, ctx, build, D):
    hq = build.hq
    n, sup = case["n"], case["sup"]
    psi = ref.generic_vec(n, ctx.seed)
    terms = [G(("X", "Y", "Z")[i % 3], [q]) for i, q in enumerate(sup)]
    forms = [O(S(*terms)), O(*terms), O(M(0.3, S(*terms[::-1])), G("Z", [sup[0]]))]
    obs = build.obj(forms)
    qc = hq.QuantumCircuit(n, [build.gate(G("RY", [sup[0]], p=0.7))])
    fv = ref.act_vec(G("RY", [sup[0]], p=0.7), {}, psi, n)

    def value(o, v):
        if "g" in o:
            return ref.act_vec(o, {}, v, n)
        if o["k"] in ("add", "obs"):
            return sum(value(x, v) for x in o["ops"])
        for x in o["ops"]:
            v = value(x, v)
        return o.get("p", 1.0) * v

    want = np.array([np.vdot(fv, value(o, fv)).real for o in forms])
    ctx.close(np.asarray(hq.expectation(build.vec(psi, n), qc, obs, {})), want, f"{n}-qubit vector", 1e-10)
    ctx.trace()
    if n <= 9:
        ctx.close(np.asarray(hq.expectation(build.density_mat(build.vec(psi, n)), qc, obs, {})), want, f"{n}-qubit density matrix", 1e-10)
        ctx.trace()
    ctx.visit(want)
    ctx.step(2)
