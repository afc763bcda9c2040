"""Objects under JAX.  A family of objects of every kind, built so that members differ in exactly one attribute
(target, control, order of controls, angle, parameter name, shift, noise kind, strength or order, dense/sparse,
operation order, container kind, scale factor, register size, feature parameters).  (a) flatten/unflatten,
tree_map, jit identity and containers give back an object with the same attributes that acts like the original;
(b) two members have the same tree structure exactly when they have the same attributes; (c) one jit-compiled
function is called with every member (twice, in two orders, and every ordered pair of neighbours in the family on
fresh functions) and must return what the model says for that member; (d) closures, vmap over values, states and
density matrices, scan/cond carries and returned objects give the same results as direct calls."""
from __future__ import annotations

import itertools

import numpy as np

from .. import gen, ref
from .c07 import A, G, M, O, S

PROPERTY = "C14"
ASSUMPTIONS = ["fixed angles and scale factors are Python floats (as documented)", "tolerance 1e-10"]
BF, PF = ("BitFlip", 0.21357924680123), ("PhaseFlip", 0.30864213579)
QC = lambda nq, *ops, fp=None: dict(k="qc", nq=nq, ops=list(ops), fp=fp)
HEVO = lambda t, c=(): G("HEVO", t, c)
GATES = [
    G("X", [0]), G("X", [1]), G("Y", [0]), G("X", [0], [1]), G("X", [1], [0]), G("X", [0], [1, 2]), G("X", [0], [2, 1]), G("X", [2], [0]),
    G("SWAP", [0, 1]), G("ISWAP", [0, 1]), G("ISQRTSWAP", [1, 0]), G("SWAP", [0, 1], [2]), G("SWAP", [0, 2], [1]),
    G("RX", [0], p="a"), G("RX", [0], p="b"), G("RX", [0], p=0.712345678912), G("RX", [0], p=-0.712345678912), G("RY", [0], p="a"), G("RX", [0], [1], "a"), G("RX", [1], p="a"), G("RX", [0], [1], 0.712345678912),
    G("PHASE", [0], p="a"), G("PHASE", [0], p=0.712345678912), G("PHASE", [0], [1], "a"), G("RZ", [0], p="a"), G("I", [0]), G("T", [0]), G("S", [0]), G("H", [2]),
    G("X", [0], n=[BF]), G("X", [0], n=[PF]), G("X", [0], n=[("BitFlip", 0.4)]), G("X", [0], n=[BF, ("AmplitudeDamping", 0.3)]), G("X", [0], n=[("AmplitudeDamping", 0.3), BF]),
    G("RX", [0], p="a", n=[BF]), G("RX", [0], [1], "a", [BF]), G("RY", [1], p="b", n=[("PauliChannel", (0.1123456789, 0.2, 0.3123456789))]), G("RY", [1], p="b", n=[("PauliChannel", (0.3, 0.2, 0.1))]),
    G("PHASE", [0], p="a", n=[("GeneralizedAmplitudeDamping", (0.4, 0.2))]), HEVO([0, 1]), HEVO([1, 0]), HEVO([2, 0]), HEVO([0, 1], [2]),
    dict(G("RX", [0], p="a"), s=0.4), dict(G("RX", [0], p="a"), s=-0.4), dict(G("PHASE", [1], [0], "a"), s=0.4), dict(G("RX", [0], p=0.712345678912), s=0.4), dict(G("RZ", [2], [1, 0], "b"), s=1.3),
]
X0, Y1, CX, RA, RB = G("X", [0]), G("Y", [1]), G("X", [1], [0]), G("RX", [0], p="a"), G("RX", [0], p="b")
COMP = [
    S(X0, Y1), S(RA, CX), S(CX, RA), S(RA, RB), S(RB, RA), S(RA, RA), S(S(RA), CX), S(RA), A(RA, CX), A(CX, RA), A(RA), A(RA, CX, RB), A(S(RA, CX)), S(A(RA, CX)),
    M("w", RA, CX), M("v", RA, CX), M(0.512345678912, RA, CX), M(2.0, RA, CX), M("w", A(RA, CX)), M("w", S(RA, CX)), M("w", M(0.512345678912, RA)), M(0.512345678912, M("w", RA)), M(2.0, M(-2.0, RA)), M(2.0, M(2.0, RA)),
    O(RA, CX), O(X0, Y1), O(M("w", X0), Y1), O(M("v", X0), Y1), O(M("w", A(X0, Y1))), O(M("w", S(X0, Y1))), O(M(0.512345678912, X0), Y1), O(S(X0, Y1)), O(A(X0, Y1)),
    QC(2, RA, CX), QC(3, RA, CX), QC(2, CX, RA), QC(2, RA, CX, fp=["a"]), QC(2, RA, CX, fp=["b"]), QC(2, RA, CX, fp=["a", "b"]), QC(2, S(RA, CX)), QC(2, S(RA), CX), QC(2, QC(2, RA), CX), QC(2), S(),
    QC(3, G("RX", [0], p="a", n=[BF]), CX), QC(3, G("RX", [0], p="a", n=[PF]), CX), QC(3, HEVO([0, 1]), RA), QC(3, RA, HEVO([1, 0])), S(G("RX", [0], p=0.712345678912), G("RX", [0], p=0.712345678912)), S(G("RX", [0], p=0.712345678912), G("RX", [0], p=-0.712345678912)),
]
FAM = GATES + COMP
SPARSE = [0, 3, 4, 13, 15, 18, 21, 23, len(GATES) + 1, len(GATES) + 2, len(GATES) + 8, len(GATES) + 14, len(GATES) + 24, len(GATES) + 32]
HAM = np.array([[1, 0.5 - 0.2j, 0, 0.1], [0.5 + 0.2j, -1, 0.3, 0], [0, 0.3, 2, 1j], [0.1, 0, -1j, 0.4]])
N = 3


def bounds(tier):
    return dict(objects=len(FAM), sparse=len(SPARSE), transformations=["flatten/unflatten", "tree_map", "jit(object argument)", "jit(closure)", "jit returning the object", "vmap", "scan", "cond", "eval_shape", "matrices under jit and vmap"],
                call_sequences="all members in two orders on one compiled function; all ordered pairs of members of one kind on fresh functions" if tier != "quick" else "all members in two orders on one compiled function; ordered pairs of neighbours on fresh functions")


def kind_of(d):
    return d["k"] if "k" in d else ("n" if d.get("n") else "g")


def units(tier):
    us = gen.chunks([dict(kind="flat", i=i) for i in range(len(FAM))], 8)
    us.append([dict(kind="flatsp", i=i) for i in SPARSE] + [dict(kind="struct"), dict(kind="noise")])
    us += [[dict(kind="seq", lo=lo, hi=min(lo + 12, len(FAM)))] for lo in range(0, len(FAM), 6)]
    pairs = []
    for i in range(len(FAM) - 1):
        for j in range(i + 1, len(FAM) if tier != "quick" else min(i + 2, len(FAM))):
            if kind_of(FAM[i]) == kind_of(FAM[j]) and (tier != "quick" or i % 2 == 0):
                pairs.append(dict(kind="pair", i=i, j=j))
    us += gen.chunks(pairs, 6)
    us += gen.chunks([dict(kind="vmap", i=i) for i in range(len(FAM)) if i % (2 if tier == "quick" else 1) == 0], 6)
    us += [[dict(kind="dm", i=i)] for i in range(6)]
    us += [[dict(kind="exp", m=m, st=st)] for m in ("ad", "adjoint", "gpsr") for st in ("vec", "dm") if (m, st) != ("adjoint", "dm")]
    return us


def vals(build=None, k=0):
    a, b, w, v = gen.rnd(4, -2.5, 2.8, 100 + k)
    out = {"w": w, "b": b, "v": v, "a": a}
    if build is not None:
        out.update(hamiltonian=build.jnp.asarray(HAM), time_evolution=0.7 + 0.1 * k)
    return out


def mvals(k=0):
    return dict(vals(k=k), hamiltonian=HAM, time_evolution=0.7 + 0.1 * k)


def has_noise(d):
    return bool(d.get("n")) if "g" in d else any(has_noise(x) for x in d["ops"])


def no_noise(d):
    return dict(d, n=[]) if "g" in d else dict(d, ops=[no_noise(x) for x in d["ops"]])


def is_obs(d):
    return d.get("k") == "obs"


def model(d, psi, k=0):
    """Result of calling the object on a state vector."""
    v = mvals(k)
    if is_obs(d):
        return np.vdot(psi, ref.matrix(d, v, N) @ psi).real
    if has_noise(d):
        return ref.run_dm(d, v, ref.outer(psi), N)
    return ref.matrix(d, v, N) @ psi


def flatres(r, build):
    """numpy view of the result of a call."""
    if isinstance(r, build.DensityMatrix):
        return build.to_np(r, N)
    a = build.dense(r)
    return a.reshape(-1) if a.ndim == N else a


def same(got, d, psi, ctx, build, what, k=0):
    want = model(d, psi, k)
    got = flatres(got, build)
    if got.shape != np.shape(want) and got.size == np.size(want):
        got = got.reshape(np.shape(want))
    ctx.close(got, want, f"{what}: {d}", 1e-10)
    ctx.trace()
    ctx.step()


def run_case(case, ctx):
    globals()["do_" + case["kind"]](case, ctx)


def do_flat(case, ctx, sparse=False):
    import jax

    from .. import build, fp

    d = FAM[case["i"]]
    o = build.obj(d, sparse=sparse)
    psi = ref.generic_vec(N, ctx.seed, 20)
    st = build.sp(psi, N) if sparse else build.vec(psi, N)
    v = vals(build)
    snap = fp.of(o)
    ctx.visit_key(str(snap))
    leaves, tree = jax.tree_util.tree_flatten(o)
    copies = {
        "unflatten": jax.tree_util.tree_unflatten(tree, leaves),
        "tree_map": jax.tree_util.tree_map(lambda x: x, o),
        "container": jax.tree_util.tree_map(lambda x: x, {"x": [o, (o,)]})["x"][1][0],
        "jit identity": jax.jit(lambda x: x)(o),
        "jit container": jax.jit(lambda x: {"y": [x["o"], x["s"]]})({"o": o, "s": st})["y"][0],
    }
    leaves2, tree2 = jax.tree_util.tree_flatten(copies["unflatten"])
    copies["twice"] = jax.tree_util.tree_unflatten(tree2, leaves2)
    ctx.check(tree == tree2 and len(leaves) == len(leaves2), f"{d}: the structure changes when rebuilt")
    for what, c in copies.items():
        ctx.check(type(c) is type(o), f"{what} of {d} is a {type(c).__name__}")
        ctx.check(fp.of(c) == snap, lambda: f"{what} of {d}: {fp.of(c)} instead of {snap}")
        if sparse and what not in ("twice", "jit identity"):
            continue
        same(c(st, v), d, psi, ctx, build, what)
        if isinstance(o, build.OpSequence):
            ctx.check(c.param_names == o.param_names, f"parameters of {what} of {d}")
            ctx.check(c.n_vparams == o.n_vparams, f"number of parameters of {what} of {d}")
        ctx.check(tuple(c.qubit_support) == tuple(o.qubit_support), f"support of {what} of {d}")
    if "g" in d and d["g"] in ref.PARAM:
        c = copies["unflatten"]
        ctx.close(build.dense(c.jacobian(v)), build.dense(o.jacobian(v)), f"jacobian of the rebuilt {d}", 1e-12)
    if "g" in d:
        c = copies["jit identity"]
        ctx.close(build.dense(c.dagger(v)), build.dense(o.dagger(v)), f"dagger of the rebuilt {d}", 1e-12)
    ctx.check(fp.of(o) == snap, f"{d} changed")
    # a gate with a shift, as the parameter-shift code builds them
    if "g" in d and d["g"] in ref.PARAM and not sparse:
        g = type(o)(o.generator_name, o.target[0], o.control[0], o.noise, False, o.param, 0.61)
        c = jax.jit(lambda x: x)(g)
        ctx.check(fp.of(c) == fp.of(g), f"shifted gate {g!r} became {c!r}")
        ctx.close(build.dense(c.tensor(v)), build.dense(g.tensor(v)), f"matrix of the rebuilt shifted {d}", 1e-12)
        ctx.check(jax.tree_util.tree_structure(g) != tree, f"{g!r} and {o!r} have the same structure")
        ctx.trace()


def do_flatsp(case, ctx):
    do_flat(case, ctx, sparse=True)


def do_struct(case, ctx):
    """Same structure exactly when same attributes, over all pairs of the family (dense and sparse)."""
    import jax

    from .. import build, fp

    objs = [build.obj(d) for d in FAM] + [build.obj(FAM[i], sparse=True) for i in SPARSE]
    again = [build.obj(d) for d in FAM] + [build.obj(FAM[i], sparse=True) for i in SPARSE]
    trees = [jax.tree_util.tree_structure(o) for o in objs]
    prints = [fp.of(o) for o in objs]
    for i, o in enumerate(again):
        t = jax.tree_util.tree_structure(o)
        ctx.check(t == trees[i], f"two equal objects {prints[i]} have different structures")
        ctx.check(hash(t) == hash(trees[i]), f"two equal objects {prints[i]} have different hashes")
    for (i, t), (j, u) in itertools.combinations(list(enumerate(trees)), 2):
        ctx.step()
        if prints[i] != prints[j]:
            ctx.check(t != u, f"different objects have the same structure: {prints[i]} and {prints[j]}")
    ctx.trace(len(objs))


def do_noise(case, ctx):
    import jax

    from .. import build, fp

    ns = [("BitFlip", 0.2), ("BitFlip", 0.20000001), ("GeneralizedAmplitudeDamping", (0.212345678901, 0.512345678901)), ("BitFlip", 0.3), ("PhaseFlip", 0.2), ("PauliChannel", (0.1, 0.2, 0.3)), ("PauliChannel", (0.2, 0.1, 0.3)), ("Depolarizing", 0.2), ("AmplitudeDamping", 0.2),
          ("PhaseDamping", 0.2), ("GeneralizedAmplitudeDamping", (0.2, 0.5)), ("GeneralizedAmplitudeDamping", (0.5, 0.2))]
    f = jax.jit(lambda n: list(n.kraus))
    for _ in range(2):
        for k, p in ns:
            o = build.noise([(k, p)])[0]
            leaves, tree = jax.tree_util.tree_flatten(o)
            c = jax.tree_util.tree_unflatten(tree, leaves)
            ctx.check(fp.of(c) == fp.of(o), f"noise {o!r} rebuilt as {c!r}")
            ctx.check(fp.of(jax.jit(lambda x: x)(o)) == fp.of(o), f"noise {o!r} through jit")
            for got in (f(o), c.kraus):
                want = sum(K.conj().T @ K for K in ref.kraus(k, p))
                ctx.close(sum(np.asarray(K).conj().T @ np.asarray(K) for K in got), want, f"Kraus operators of {o!r}", 1e-10)
                rho = ref.generic_dm(1, ctx.seed, 21)
                ctx.close(sum(np.asarray(K) @ rho @ np.asarray(K).conj().T for K in got), ref.apply_channel(rho, k, p, 0, 1), f"channel {o!r} under jit", 1e-10)
                ctx.trace()
                ctx.step()


def do_seq(case, ctx):
    """One compiled function, all members of a window of the family, twice, forwards and backwards."""
    import jax

    from .. import build

    psi = ref.generic_vec(N, ctx.seed, 20)
    st = build.vec(psi, N)
    f = jax.jit(lambda o, s, v: o(s, v))
    idx = list(range(case["lo"], case["hi"]))
    objs = {i: build.obj(FAM[i]) for i in idx}
    for k, order in enumerate((idx, idx[::-1], idx[1::2] + idx[::2])):
        for i in order:
            o = objs[i] if k != 1 else build.obj(FAM[i])  # equal but distinct objects in the second round
            same(f(o, st, vals(build, k)), FAM[i], psi, ctx, build, f"call of one compiled function (round {k})", k)


def do_pair(case, ctx):
    import jax

    from .. import build

    psi = ref.generic_vec(N, ctx.seed, 20)
    st = build.vec(psi, N)
    for i, j in ((case["i"], case["j"]), (case["j"], case["i"])):
        f = jax.jit(lambda o, s, v: o(s, v))
        a, b = build.obj(FAM[i]), build.obj(FAM[j])
        same(f(a, st, vals(build)), FAM[i], psi, ctx, build, "first call")
        same(f(b, st, vals(build)), FAM[j], psi, ctx, build, f"call after {FAM[i]}")
        same(f(a, st, vals(build, 1)), FAM[i], psi, ctx, build, f"third call", 1)
    # both in one argument
    g = jax.jit(lambda os, s, v: [o(s, v) for o in os])
    for os in ((a, b), (b, a), (a, a)):
        for o, r in zip(os, g(list(os), st, vals(build))):
            same(r, FAM[i] if o is a else FAM[j], psi, ctx, build, "list of objects")


def do_vmap(case, ctx):
    import jax
    import jax.numpy as jnp

    from .. import build

    d = FAM[case["i"]]
    o = build.obj(d)
    psis = [ref.generic_vec(N, ctx.seed, 20 + k) for k in range(3)]
    states = jnp.stack([build.vec(p, N) for p in psis])
    v = [vals(build, k) for k in range(3)]
    vv = {k: (jnp.stack([jnp.asarray(x[k]) for x in v])) for k in v[0]}
    same(jax.jit(lambda s, w: o(s, w))(states[0], v[1]), d, psis[0], ctx, build, "closure under jit", 1)

    def pick(r, k):
        return jax.tree_util.tree_map(lambda x: x[k], r)

    r = jax.vmap(lambda w: o(states[0], w))(vv) if True else None
    for k in range(3):
        same(pick(r, k), d, psis[0], ctx, build, "vmap over values", k)
    r = jax.vmap(lambda s: o(s, v[0]))(states)
    for k in range(3):
        same(pick(r, k), d, psis[k], ctx, build, "vmap over states")
    r = jax.jit(jax.vmap(lambda x, s, w: x(s, w), in_axes=(None, 0, 0)))(o, states, vv)
    for k in range(3):
        same(pick(r, k), d, psis[k], ctx, build, "jit of vmap with the object as argument", k)
    if ref.support(d):
        sup = tuple(range(N))
        strip = no_noise(d)
        t = jax.jit(lambda x, w: (x.tensor(w), x.tensor(w, sup)))(o, v[1])
        ctx.close(np.asarray(t[1]), ref.matrix(strip, mvals(1), N), f"matrix under jit of {d}", 1e-10)
        ctx.close(np.asarray(t[0]), build.dense(o.tensor(v[1])), f"matrix on its own qubits under jit of {d}", 1e-10)
        t = jax.vmap(lambda w: o.tensor(w, sup))(vv)
        for k in range(3):
            ctx.close(np.asarray(t[k]), ref.matrix(strip, mvals(k), N), f"matrix under vmap of {d}", 1e-10)
        ctx.trace(5)
    shape = jax.eval_shape(lambda x: x(states[0], v[0]), o)
    ctx.check(jax.tree_util.tree_structure(shape) == jax.tree_util.tree_structure(o(states[0], v[0])), f"eval_shape of {d}")


def do_dm(case, ctx):
    """Density matrices as arguments, results, carries and batches."""
    import jax
    import jax.numpy as jnp

    from .. import build

    hq = build.hq
    i = case["i"]
    progs = [
        [RA, CX], [G("RX", [0], p="a", n=[BF]), CX], [G("SWAP", [2, 0]), G("RY", [1], [2], "b")], [HEVO([1, 0])],
        [G("RY", [2], p="a", n=[PF, ("AmplitudeDamping", 0.4)]), G("X", [2], [0])], [],
    ]
    ds = progs[i]
    qc = hq.QuantumCircuit(N, build.obj(ds))
    rhos = [ref.generic_dm(N, ctx.seed, 22 + k) for k in range(3)]
    v = vals(build)
    want = [ref.run_dm(ds, mvals(), r, N) for r in rhos]
    leaves, tree = jax.tree_util.tree_flatten(build.dm(rhos[0], N))
    back = jax.tree_util.tree_unflatten(tree, leaves)
    ctx.close(build.to_np(back, N), rhos[0], "rebuilt density matrix", 0)
    ctx.check(type(back) is build.DensityMatrix, "class of the rebuilt density matrix")
    f = jax.jit(lambda c, s, w: hq.run(c, s, w))
    for k in range(3):
        r = f(qc, build.dm(rhos[k], N), v)
        ctx.check(type(r) is build.DensityMatrix, f"jit returned {type(r).__name__}")
        ctx.close(build.to_np(r, N), want[k], f"density matrix through jit, {ds}", 1e-10)
        # the same function on a vector and on a density matrix
        psi = ref.generic_vec(N, ctx.seed, 20 + k)
        ctx.close(build.to_np(f(qc, build.density_mat(build.vec(psi, N)), v), N), ref.run_dm(ds, mvals(), ref.outer(psi), N), "pure density matrix through jit", 1e-10)
        got = flatres(f(qc, build.vec(psi, N), v), build)
        ctx.close(got, ref.run_dm(ds, mvals(), ref.outer(psi), N) if has_noise(S(*ds)) else ref.run_vec(ds, mvals(), psi, N), "vector after a density matrix", 1e-10)
        ctx.trace(3)
        ctx.visit(want[k])
    batch = build.DensityMatrix(jnp.stack([build.dm(r, N).array for r in rhos]))
    r = jax.vmap(lambda s: qc(s, v))(batch)
    ctx.check(type(r) is build.DensityMatrix, "vmap over density matrices")
    for k in range(3):
        ctx.close(np.asarray(r.array[k]).reshape(8, 8), want[k], f"vmap over density matrices, {ds}", 1e-10)
    # carry of scan and branches of cond
    out, _ = jax.lax.scan(lambda s, w: (qc(s, dict(v, a=w)), None), build.dm(rhos[0], N), jnp.asarray([0.3, -0.8]))
    w2 = rhos[0]
    for x in (0.3, -0.8):
        w2 = ref.run_dm(ds, dict(mvals(), a=x), w2, N)
    ctx.close(build.to_np(out, N), w2, f"scan over {ds}", 1e-10)
    r = jax.lax.cond(True, lambda s: qc(s, v), lambda s: s, build.dm(rhos[1], N))
    ctx.close(build.to_np(r, N), want[1], "cond, first branch", 1e-10)
    r = jax.lax.cond(False, lambda s: qc(s, v), lambda s: s, build.dm(rhos[1], N))
    ctx.close(build.to_np(r, N), rhos[1], "cond, second branch", 1e-10)
    ctx.trace(6)
    ctx.step(12)


def do_exp(case, ctx):
    """Expectation values and gradients with circuits and observables passed through jit."""
    import jax
    import jax.numpy as jnp

    from .. import build

    hq = build.hq
    D = {"ad": hq.DiffMode.AD, "adjoint": hq.DiffMode.ADJOINT, "gpsr": hq.DiffMode.GPSR}[case["m"]]
    circs = [QC(N, RA, CX, G("RY", [1], p="b")), QC(N, RA, G("RX", [0], p=0.712345678912), CX, G("RY", [1], p="b")), QC(N, RB, CX, G("RY", [1], p="a")), QC(N, RA, CX, G("RY", [1], [0], "b"))]
    obss = [[O(G("Z", [0])), O(M("w", A(X0, Y1)))], [O(M("w", A(X0, Y1))), O(G("Z", [0]))], [O(CX), O(M("w", S(X0, Y1)), G("Z", [2], [1]))]]
    psi = ref.generic_vec(N, ctx.seed, 20)
    rho = ref.outer(psi) if case["st"] == "vec" else ref.generic_dm(N, ctx.seed, 22)
    st = build.vec(psi, N) if case["st"] == "vec" else build.dm(rho, N)
    v = {k: jnp.asarray(x) for k, x in vals().items() if k != "v"}
    f = jax.jit(lambda c, os, s, w: hq.expectation(s, c, os, w, D))
    h = jax.jit(lambda c, os, s, w: hq.expectation(s, c, os, w, D, 60, jax.random.PRNGKey(4)))
    g = jax.jit(jax.jacrev(lambda w, c, os, s: hq.expectation(s, c, os, w, D)))
    for c, os in itertools.product(circs, obss):
        qc, obs = build.obj(c), [build.obj(o) for o in os]
        jets = [ref.expectation_jet(c, o, mvals(), mvals(), rho, N, ["a", "b"], []) for o in os]
        want = np.array([j[((), ())] for j in jets])
        ctx.close(np.asarray(f(qc, obs, st, v)), want, f"jit of {case['m']} expectation with {c}, {os}", 1e-10)
        if case["m"] != "adjoint":
            ctx.close(np.asarray(h(qc, obs, st, v)), np.asarray(hq.expectation(st, qc, obs, v, D, 60, jax.random.PRNGKey(4))), f"finite shots under jit with {c}, {os}", 1e-9)
        ctx.trace(2)
        ctx.step(2)
        ctx.visit(want)
        if case["m"] != "gpsr" and os is not obss[1]:
            J = g(v, qc, obs, st)
            for k in "ab":
                ctx.close(np.asarray(J[k]), np.array([j.get(((k,), ()), 0.0) for j in jets]), f"jit of the {case['m']} gradient d/d{k} with {c}, {os}", 1e-9)
                ctx.trace()
