"""Sparse against dense.  (a) every gate in every layout (targets x ordered controls) on up to 3 qubits, written
sparse, converted to sparse and converted back; (b) every word over an alphabet of colliding gates, flat and
nested; (c) a grammar of sequences, sums, scalings and observables; (d) conversions of every object kind (nested
circuits with feature parameters, register size larger than the support, numeric and named scale factors, noise,
shifted gates) in both directions, twice, with all attributes compared.  Sparse states (generic and basis),
matrices and expectation values of the real code are compared with the dense matrix model."""
from __future__ import annotations

import itertools

import numpy as np

from .. import gen, ref
from .c07 import A, G, LEAF, M, O, S

PROPERTY = "C12"
ASSUMPTIONS = [
    "reverse-mode gradients through sparse arrays raise in the library and are not claimed",
    "noise is attached only to dense programs (sparse noise is refused, see C19); conversions of noisy gates are compared attribute by attribute",
    "tolerance 1e-10",
]
ALPH = [
    G("H", [0]), G("RX", [1], p="a"), G("X", [2], [0]), G("SWAP", [2, 0]), G("RY", [2], [1, 0], "b"), G("PHASE", [0], [2], "a"),
    G("ISWAP", [1, 2]), G("T", [1]), G("RZ", [0], p=0.7), G("SQRTSWAP", [0, 2], [1]), G("Y", [1]),
]
QC = lambda nq, *ops, fp=None: dict(k="qc", nq=nq, ops=list(ops), fp=fp)
TERMS = (
    LEAF
    + [S(x, y) for x, y in itertools.product(LEAF, repeat=2)]
    + [A(x, y) for x, y in itertools.combinations_with_replacement(LEAF, 2)]
    + [M("w", x) for x in LEAF]
    + [M(3.0, M(-2.0, LEAF[0])), M(-0.5, M("w", LEAF[3])), M("w", M(-1.5, S(LEAF[0], LEAF[3]))), M(-2.0, M(-0.5, A(LEAF[0], LEAF[1])))]
    + [M(-0.7, LEAF[0], LEAF[3]), M("w", A(LEAF[0], LEAF[3])), M(2.0, S(LEAF[0], LEAF[1])), A(M("w", LEAF[0]), S(LEAF[2], LEAF[1])),
       S(A(LEAF[0], LEAF[1]), A(LEAF[2], LEAF[3])), M("w", M("v", A(LEAF[0], M(3.0, LEAF[3])))), A(A(A(LEAF[0]), LEAF[1]), M("w", A(LEAF[2]))),
       A(G("SWAP", [0, 1]), M("v", G("RX", [0], [1], 0.3))), S(G("RX", [0], p="a"), G("ISWAP", [1, 0]), G("PHASE", [1], [0], "b"))]
)
CONV = (
    [G("RX", [1], [0], "a"), G("RY", [0], p=0.25), G("PHASE", [2], [1, 0], "b"), G("PHASE", [1], p="a"), G("SWAP", [2, 0], [1]), G("ISQRTSWAP", [0, 1]),
     G("X", [0], n=[("BitFlip", 0.1)]), G("RZ", [1], [0], "a", [("BitFlip", 0.1), ("PauliChannel", [0.1, 0.2, 0.3])]), G("I", [2]), G("HEVO", [1, 0])]
    + TERMS[7:12] + TERMS[-9:]
    + [O(t) for t in TERMS[-9:]]
    + [O(M(0.5, LEAF[0]), LEAF[3]), S(), S(S(LEAF[0]), S()), A(LEAF[0]), M("w", LEAF[1]), M(-2.0, S(LEAF[0], M("v", LEAF[3])))]
    + [QC(2, LEAF[0], LEAF[5]), QC(4, LEAF[0], fp=["x"]), QC(3, G("RX", [0], p="a"), G("RY", [1], p="b"), G("RZ", [2], p="x"), fp=["x", "a"]),
       QC(5, S(G("RX", [0], p="a"), S(G("X", [1], [0]))), QC(3, G("RY", [2], p="f"), fp=["f"]), fp=["a"]), QC(1), QC(3, G("RX", [0], p="a", n=[("Depolarizing", 0.2)]), QC(2, QC(2, LEAF[1], fp=[])), fp=["q", "a"])]
)
GATES = ref.ONEQ + ref.TWOQ + ref.PARAM


def bounds(tier):
    return dict(gates=len(GATES), register=3, words=dict(alphabet=len(ALPH), depth=2 if tier == "quick" else 3), terms=len(TERMS), conversions=len(CONV),
                angles=2 if tier == "quick" else 6)


def units(tier):
    us = []
    for n in (1, 2, 3):
        for k in (1, 2)[: min(n, 2)]:
            for t, c in gen.layouts(n, k):  # one unit per layout: the compiled kernels are shared
                us.append([dict(kind="gate", g=g, n=n, t=t, c=c) for g in GATES if gen.n_targets(g) == k])
    us += gen.chunks([dict(kind="word", w=w) for w in gen.words(ALPH, 0, 2 if tier == "quick" else 3)], 12)
    us += gen.chunks([dict(kind="word", w=[i, j, k]) for i, j, k in itertools.permutations(range(len(ALPH)), 3) if (i + 2 * j + 3 * k) % 30 == 0], 6)
    us += gen.chunks([dict(kind="term", i=i) for i in range(len(TERMS))], 6)
    us += gen.chunks([dict(kind="conv", i=i) for i in range(len(CONV))], 4)
    us.append([dict(kind="array", n=n) for n in (1, 2, 3)] + [dict(kind="shift", i=i) for i in range(4)])
    return us


def vals(k=0):
    a, b, w, v, x = gen.rnd(5, -2.5, 2.8, 80 + k)
    return {"w": w, "b": b, "v": v, "a": a, "x": x, "f": 0.3}


def run_case(case, ctx):
    globals()[case["kind"]](case, ctx)


def is_sparse(ctx, build, x, what):
    ctx.check(isinstance(x, build.BCOO), f"{what} is a {type(x).__name__}, not a sparse array")


def gate(case, ctx):
    from horqrux.utils.conversion import to_dense, to_sparse

    from .. import build, fp

    hq = build.hq
    n = case["n"]
    angles = [None]
    if case["g"] in ref.PARAM:
        angles = (gen.rnd(1, tag=81) + [0.0]) if ctx.tier == "quick" else gen.rnd(3, tag=81) + [0.0, np.pi, -np.pi / 2]
    psi = ref.generic_vec(n, ctx.seed, 12)
    for ai, th in enumerate(angles):
        d = G(case["g"], case["t"], case["c"], "a" if th is not None and ai % 2 == 0 else th)
        values = {"a": th} if th is not None else {}
        U = ref.gate_matrix(d, values, n)
        want = U @ psi
        ctx.visit(want)
        dense_g = build.gate(d)
        sp_g = build.gate(d, sparse=True)
        conv = to_sparse(dense_g)
        ctx.check(fp.of(conv) == fp.of(sp_g), f"to_sparse of {d} differs from the gate written sparse")
        odd = (sum(case["t"]) + len(case["c"]) + ai) % 2
        if ai == 0:
            for g, what in ((sp_g, "sparse gate"), (conv, "converted gate"))[odd : odd + 1]:
                got = hq.apply_gates(build.sp(psi, n), g, values)
                is_sparse(ctx, build, got, "state")
                ctx.close(build.to_np(got, n), want, f"{what} {d} on a sparse state", 1e-10)
            k = 2**n - 1
            ctx.close(build.to_np(sp_g(hq.product_state("1" * n, sparse=True), values), n), U[:, k], f"sparse {d} on |1..1>", 1e-10)
            ctx.trace(3)
        sup = sorted(case["t"] + case["c"])
        rel = {q: i for i, q in enumerate(sup)}
        small = ref.gate_matrix(dict(d, t=[rel[q] for q in case["t"]], c=[rel[q] for q in case["c"]]), values, len(sup))
        for g, what in ((conv, "converted"), (sp_g, "sparse"))[odd : odd + 1]:
            m = g.tensor(values)
            is_sparse(ctx, build, m, "matrix")
            ctx.close(build.dense(m), small, f"matrix of the {what} gate {d}", 1e-10)
        if ai == 0:
            if odd or n < 3:
                ctx.close(build.dense(sp_g.tensor(values, tuple(range(n)))), U, f"expanded matrix of the sparse gate {d}", 1e-10)
            ctx.close(build.dense(sp_g.dagger(values)), ref.base_matrix(case["g"], th).conj().T, f"dagger of the sparse gate {d}", 1e-10)
            if th is not None:
                ctx.close(build.dense(sp_g.jacobian(values)), ref.base_matrix(case["g"], th, 1), f"jacobian of the sparse gate {d}", 1e-10)
            back = to_dense(conv)
            ctx.close(build.to_np(hq.apply_gates(build.vec(psi, n), back, values), n), want, f"{d} converted twice", 1e-10)
            ctx.trace()
        ctx.trace(2)
        ctx.step(4)


def word(case, ctx):
    from horqrux.utils.conversion import to_sparse

    from .. import build

    hq = build.hq
    n = 3
    ds = [ALPH[i] for i in case["w"]]
    values = vals()
    psi = ref.generic_vec(n, ctx.seed, 13)
    want = ref.run_vec(ds, values, psi, n)
    ctx.visit(want)
    st = build.sp(psi, n)
    gates = build.obj(ds, sparse=True)
    qc = hq.QuantumCircuit(n, gates)
    ctx.step(len(ds) + 1)

    def same(got, what):
        is_sparse(ctx, build, got, what)
        ctx.close(build.to_np(got, n), want, f"{what} of {ds}", 1e-10)
        ctx.trace()

    same(hq.run(qc, st, values), "sparse run")
    same(hq.apply_gates(st, gates, values), "sparse apply_gates")
    dense_qc = hq.QuantumCircuit(n, build.obj(ds))
    conv = to_sparse(dense_qc)
    same(conv(st, values), "converted circuit")
    if len(ds) > 1:
        nested = dict(k="qc", nq=n, ops=[ds[0], S(S(*ds[1:]))])
        same(to_sparse(build.obj(nested))(st, values), "converted nested circuit")
    obs = [O(S(LEAF[0], LEAF[1])), O(M("w", A(LEAF[2], G("Y", [2]))), LEAF[3])]
    e = hq.expectation(st, conv, [to_sparse(build.obj(o)) for o in obs], values)
    w = np.array([np.vdot(want, ref.matrix(o, values, n) @ want).real for o in obs])
    ctx.close(build.dense(e).ravel(), w, f"sparse expectation after {ds}", 1e-10)
    ctx.trace()


def term(case, ctx):
    from horqrux.utils.conversion import to_sparse

    from .. import build

    from .. import fp

    hq = build.hq
    t = TERMS[case["i"]]
    values = vals()
    n = 2
    sup = sorted(ref.support(t))
    Mx = ref.matrix(t, values, n)
    psi = ref.generic_vec(n, ctx.seed, 14)
    st = build.sp(psi, n)
    ctx.visit(Mx)
    dense_t = build.obj(t)
    direct, conv = build.obj(t, sparse=True), to_sparse(dense_t)
    ctx.check(fp.of(direct) == fp.of(conv), f"to_sparse of {t} differs from the term written sparse")
    for o, what in ((direct, "written sparse"),):
        got = o.tensor(values, (0, 1))
        is_sparse(ctx, build, got, "matrix")
        ctx.close(build.dense(got), Mx, f"expanded matrix, {what}: {t}", 1e-10)
        if sup == [0, 1] and case["i"] % 2:
            ctx.close(build.dense(o.tensor(values)), Mx, f"matrix, {what}: {t}", 1e-10)
        ctx.trace(2)
    got = conv(st, values)
    is_sparse(ctx, build, got, "state")
    ctx.close(build.to_np(got, n), Mx @ psi, f"{t} on a sparse state", 1e-10)
    ctx.step(3)
    if ctx.tier == "quick" and case["i"] >= 7 and case["i"] < 84 and case["i"] % 3:
        return
    # the same term inside an observable
    o = O(t, M("v", LEAF[3]))
    Om = ref.matrix(o, values, n)
    want = np.vdot(psi, Om @ psi).real
    for ob in (to_sparse(build.obj(o)),):
        ctx.close(build.dense(ob(st, values)).ravel(), np.array([want]), f"value of the sparse observable {o}", 1e-10)
        if case["i"] % 3 == 0:
            ctx.close(build.dense(ob.tensor(values, (0, 1))), Om, f"matrix of the sparse observable {o}", 1e-10)
        ctx.close(build.to_np(ob.forward(st, values), n), Om @ psi, f"sparse observable {o} on a state", 1e-10)
    obs = [to_sparse(build.obj(o)), to_sparse(build.obj(O(LEAF[0], LEAF[1])))]
    qc = to_sparse(hq.QuantumCircuit(n, [build.gate(G("RY", [0], p="a")), build.gate(G("X", [1], [0]))]))
    out = ref.run_vec([G("RY", [0], p="a"), G("X", [1], [0])], values, psi, n)
    w = np.array([np.vdot(out, m @ out).real for m in (Om, ref.matrix(O(LEAF[0], LEAF[1]), values, n))])
    modes = (hq.DiffMode.AD,) if case["i"] % 3 else (hq.DiffMode.AD, hq.DiffMode.ADJOINT, hq.DiffMode.GPSR)
    for m in modes:
        e = hq.expectation(st, qc, obs, values, m)
        ctx.close(build.dense(e).ravel(), w, f"{m} expectation of sparse {o}", 1e-10)
    nested = {"circuit": {"a": values["a"]}, "observables": {k: values[k] for k in ("w", "v", "a", "b")}}
    ctx.close(build.dense(hq.expectation(st, qc, obs, nested)).ravel(), w, f"separate values, sparse {o}", 1e-10)
    ctx.trace(6)
    ctx.step(6)


def all_sparse(o, build):
    if isinstance(o, build.OpSequence):
        return all(all_sparse(x, build) for x in o.operations)
    return bool(o.sparse)


def any_sparse(o, build):
    if isinstance(o, build.OpSequence):
        return any(any_sparse(x, build) for x in o.operations)
    return bool(o.sparse)


def conversions(o, what, ctx):
    """Attribute-level oracle for both conversions; returns the sparse object."""
    from horqrux.utils.conversion import to_dense, to_sparse

    from .. import build, fp

    before = fp.of(o)
    anon = fp.of(o, sparse=False)
    s = to_sparse(o)
    ctx.check(fp.of(o) == before, f"to_sparse changed its argument {what}")
    ctx.check(fp.of(s, sparse=False) == anon, lambda: f"to_sparse of {what}: {fp.of(s, sparse=False)} instead of {anon}")
    ctx.check(all_sparse(s, build), f"to_sparse of {what} left a dense gate")
    snap = fp.of(s)
    d = to_dense(s)
    ctx.check(fp.of(s) == snap, f"to_dense changed its argument {what}")
    ctx.check(fp.of(d) == before, lambda: f"to_dense(to_sparse) of {what}: {fp.of(d)} instead of {before}")
    ctx.check(fp.of(to_sparse(s)) == snap, f"to_sparse twice of {what}")
    ctx.check(fp.of(to_dense(o)) == before, f"to_dense of the dense {what}")
    ctx.check(not any_sparse(to_dense(s), build), f"to_dense of {what} left a sparse gate")
    ctx.check(type(s) is type(o) and type(d) is type(o), f"conversion of {what} changed its class")
    ctx.trace(5)
    ctx.step(5)
    ctx.visit_key(str(before))
    return s, d


def has_empty(d):
    return "g" not in d and (not d["ops"] or any(has_empty(x) for x in d["ops"]))


def conv(case, ctx):
    from .. import build, fp

    desc = CONV[case["i"]]
    o = build.obj(desc)
    s, d = conversions(o, str(desc), ctx)
    values = vals()
    if desc.get("k") == "qc":
        for x, y in ((s, o), (d, o)):
            ctx.check(x.param_names == y.param_names and x.vparams == y.vparams and x.n_vparams == y.n_vparams, f"parameters of the converted {desc}")
            ctx.check(tuple(x.qubit_support) == tuple(y.qubit_support), f"support of the converted {desc}")
        if case["i"] % 2:
            d.fparams = list(d.fparams) + ["zz"]
            s.fparams = list(s.fparams) + ["yy"]
            ctx.check(sorted(o.fparams) == sorted(desc["fp"] or []), "feature parameters of the converted circuit are shared with the original")
    s = __import__("horqrux.utils.conversion", fromlist=["to_sparse"]).to_sparse(o)
    s2 = build.obj(desc, sparse=True) if not str(desc).count("HEVO") and not "'n': [[" in str(desc) and not "BitFlip" in str(desc) and not "Depol" in str(desc) else None
    if s2 is not None:
        ctx.check(fp.of(s) == fp.of(s2), f"to_sparse of {desc} differs from the object written sparse")
        n = 3
        if not has_empty(desc) and "HEVO" not in str(desc):
            Mx = ref.matrix(desc, values, n)
            if ctx.tier != "quick":
                ctx.close(build.dense(s.tensor(values, (0, 1, 2))), Mx, f"matrix of the converted {desc}", 1e-10)
            ctx.close(build.dense(d.tensor(values, (0, 1, 2))), Mx, f"matrix of {desc} converted twice", 1e-10)
            psi = ref.generic_vec(n, ctx.seed, 15)
            if desc.get("k") != "obs":
                ctx.close(build.to_np(d(build.vec(psi, n), values), n), Mx @ psi, f"{desc} converted twice on a state", 1e-10)
            ctx.trace(3)
    elif "HEVO" not in str(desc):
        # noisy programs: the converted-back object gives the same density matrix
        n = 3
        rho = ref.generic_dm(n, ctx.seed, 15)
        ctx.close(build.to_np(d(build.dm(rho, n), values), n), ref.run_dm(desc, values, rho, n), f"noisy {desc} converted twice", 1e-10)
        ctx.trace()
    else:
        h = np.array([[1, 0.5 - 0.2j, 0, 0], [0.5 + 0.2j, -1, 0.3, 0], [0, 0.3, 2, 1j], [0, 0, -1j, 0.4]])
        values = {"hamiltonian": build.jnp.asarray(h), "time_evolution": 0.7}
        psi = ref.generic_vec(2, ctx.seed, 15)
        ctx.close(build.to_np(d(build.vec(psi, 2), values), 2), ref.run_vec(desc, values, psi, 2), "evolution converted twice", 1e-10)
        ctx.trace()


def array(case, ctx):
    from horqrux.utils.conversion import to_dense, to_sparse

    from .. import build

    hq = build.hq
    n = case["n"]
    tiny = np.array([1.0, 5e-8, -1e-13j, 1e-30, 1e-200, 0.0, 1e-9 + 1e-17j, -3e-5])[: 2**n].astype(complex)
    for psi in (ref.generic_vec(n, ctx.seed, 16), ref.basis("1" * n), ref.basis("0" * n), tiny, tiny[::-1], 1e-12 * ref.generic_vec(n, ctx.seed, 16), 1e6 * tiny):
        x = build.vec(psi, n)
        s = to_sparse(x)
        is_sparse(ctx, build, s, "to_sparse(array)")
        ctx.close(np.asarray(s.todense()), np.asarray(x), "to_sparse(array)", 0)
        ctx.close(np.asarray(to_dense(s)), np.asarray(x), "to_dense(to_sparse(array))", 0)
        ctx.visit(psi)
        ctx.trace(2)
        ctx.step(2)
    mat = ref.generic_dm(n, ctx.seed, 16)
    ctx.close(np.asarray(to_dense(to_sparse(build.jnp.asarray(mat)))), mat, "matrix to sparse and back", 0)
    ctx.trace()


def shift(case, ctx):
    """Gates that carry a shift (as the parameter-shift code builds them)."""
    from .. import build

    base = build.gate([G("RX", [1], [0], "a"), G("PHASE", [0], p="a"), G("RY", [0], p=0.4), G("PHASE", [1], [2, 0], 0.3)][case["i"]])
    g = type(base)(base.generator_name, base.target[0], base.control[0], base.noise, False, base.param, 0.77)
    s, d = conversions(g, f"{g!r}", ctx)
    s2, d2 = conversions(build.hq.QuantumCircuit(3, [g, base]), "circuit with a shifted gate", ctx)
    values = {"a": 0.5}
    ctx.close(build.dense(s.tensor(values)), build.dense(g.tensor(values)), "matrix of a shifted gate", 1e-10)
    ctx.trace()
