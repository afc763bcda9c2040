"""Finite-shot expectation values with the random source owned by the harness.  For every circuit x state x ordered
list of observables: a single shot is evaluated for every cell of a 512-cell grid of uniform numbers (compiled
once, with the number as input): each answer must give an eigenvalue, and the measure of the answers giving each
eigenvalue must be its Born probability up to the grid resolution, for every observable of the list; every
sequence of representative answers of length 3 must give the mean of its single outcomes.  With jax's own source:
same key -> same estimates, keys matter, estimates within a Hoeffding bound (1e-10).  The parameter-shift
gradients with shots (forward and backward functions) are run with a representative (stratified) answer for every
request, for which every estimate is exact up to the resolution, and compared with the exact derivative; and
with jax's own source within a Hoeffding bound.  Many shots: for every number of shots of a list the estimates of
200 keys are made; their mean squared deviation must be that of n_shots independent outcomes (chi-square bound
1e-13), in both modes, and the same for the gradient."""
from __future__ import annotations

import itertools

import numpy as np

from .. import gen, ref, rng
from .c07 import A, G, LEAF, M, O, S

PROPERTY = "C10"
ASSUMPTIONS = [
    "observables are Hermitian",
    "jax.random.uniform answers are the only randomness (if a run asks for another number of values, only the unscripted part decides)",
    "unscripted estimates are compared with a bound violated with probability < 1e-10 by a correct sampler",
]
X0, Y1, Z0, Z1, I0, CX, Y0 = LEAF
X1 = G("X", [1])
OBS = [
    O(Z0), O(X0), O(S(Z0, Z1)), O(A(Z0, Z1)), O(M("w", A(X0, Z1)), Y0), O(M(-2.0, Z0), M(0.5, Z1)), O(S(X0, X1)), O(CX),
    O(I0, M(0.3, Y1)), O(A(S(Z0, X1), S(X0, Z1))), O(M(-1.0, Z0)), O(Z1),
]
LISTS = [[i] for i in range(12)] + [
    [0, 1], [1, 0], [0, 10], [10, 0], [0, 11], [11, 0], [2, 6], [6, 2], [3, 5], [5, 3, 0], [0, 2, 11], [4, 7], [7, 4, 8], [8, 0, 1, 2], [9, 2], [2, 9, 6], [1, 8, 0], [5, 5], [3, 2, 10],
]
CIRC = {
    "empty": [],
    "ent": [G("RY", [0], p="a"), G("X", [1], [0]), G("RX", [1], p="b"), G("PHASE", [0], p="a")],
    "ctrl": [G("H", [0]), G("RY", [1], [0], "a"), G("T", [0]), G("RX", [0], p="b")],
    "noisy": [G("RY", [0], p="a", n=[("AmplitudeDamping", 0.3)]), G("X", [1], [0], n=[("BitFlip", 0.25)]), G("RX", [1], p="b")],
    "near": [G("RY", [0], p=0.06), G("RX", [1], p=3.06)],
    "nearnoise": [G("RY", [0], p=0.2, n=[("AmplitudeDamping", 0.3), ("BitFlip", 0.002)]), G("RX", [1], p=3.06, n=[("Depolarizing", 0.004)])],
    "rep": [G("RY", [0], p="a"), G("X", [1], [0]), G("RX", [1], p="a"), G("RZ", [0], [1], "b"), G("RX", [0], p="b")],
}
GRID = 512
GRID_NEAR = 16384  # for outcomes of probability below 0.001


def bounds(tier):
    return dict(observable_lists=len(LISTS), circuits=list(CIRC), states=["vector", "mixed dm", "basis", "basis dm"], grid=[GRID, GRID_NEAR], sequence_length=3,
                gradient_routes=["jax.jacrev(expectation GPSR n_shots)", "finite_shots_gpsr_backward"], gradient_shots=4096, spread=dict(keys=KEYS, shots=SHOTS[tier]))


def units(tier):
    us = []
    for li, l in enumerate(LISTS):
        for ci, c in enumerate(list(CIRC)[:4]):
            for si, sk in enumerate(("vec", "dm", "basis")):
                if tier == "quick" and (li + ci + si) % 3 and not (c == "ent" and sk == "vec"):
                    continue
                us.append([dict(kind="est", l=l, c=c, sk=sk)])
    us += [[dict(kind="est", l=l, c="three", sk=sk)] for l in ([0, 11], [9], [2, 4]) for sk in ("vec", "dm")]
    us += [[dict(kind="est", l=l, c=c, sk=sk)] for l in ([0, 11], [2, 3], [4, 0]) for c, sk in (("near", "basis"), ("near", "bdm"), ("nearnoise", "basis"))]
    for c in ("ent", "ctrl", "noisy", "rep"):
        for sk in ("vec", "dm"):
            for l in ([0, 4], [9]) if tier == "quick" else ([0, 4], [9], [1, 2, 5], [7, 8]):
                if tier == "quick" and sk == "dm" and l == [9]:
                    continue
                us.append([dict(kind="grad", l=l, c=c, sk=sk, route=r) for r in ("bwd",)])
                us.append([dict(kind="grad", l=l, c=c, sk=sk, route=r) for r in ("fwd",)])
    us += [[dict(kind="keys", c=c, sk=sk)] for c in ("ent", "noisy") for sk in ("vec", "dm")]
    for sk in ("vec", "dm"):
        for m in ("AD", "GPSR"):
            us.append([dict(kind="spread", c="ent", sk=sk, l=[0, 4, 2], m=m, shots=s) for s in SHOTS[tier]])
    us += [[dict(kind="gspread", c="ent", sk="vec", l=[0, 4], shots=s)] for s in (3000, 20000)]
    us += [[dict(kind="gspread", c=c, sk="vec", l=[0, 3], shots=2000, route=r)] for c, r in (("ent", "bwd"), ("rep", "bwd"), ("rep", "fwd"))]
    return us


SHOTS = {"quick": [600, 1100, 2500, 5000, 20480], "thorough": [300, 600, 1100, 2500, 5000, 9000, 20480, 70000]}
KEYS = 200


def spread(case, ctx, build, D):
    """Estimates of KEYS keys with n shots against the variance of n independent outcomes."""
    import jax

    hq = build.hq
    n, descs, values, rho, st, qc = setup_case(case, ctx, build)
    forms = [OBS[i] for i in case["l"]]
    obs = build.obj(forms)
    out = ref.run_dm(descs, values, rho, n)
    mats = [ref.matrix(o, values, n) for o in forms]
    mean = np.array([np.trace(m @ out).real for m in mats])
    var = np.array([np.trace(m @ m @ out).real for m in mats]) - mean**2
    shots = case["shots"]
    f = jax.jit(lambda k: hq.expectation(st, qc, obs, values, diff_mode=D[case["m"]], n_shots=shots, key=k))
    est = np.array([np.asarray(f(jax.random.PRNGKey(1000 + k))) for k in range(KEYS)])
    jax.clear_caches()
    z = (est - mean) * np.sqrt(shots / var)
    limit = KEYS + 2 * np.sqrt(30.0 * KEYS) + 60  # P(chi2_k >= k + 2 sqrt(k x) + 2 x) <= exp(-x)
    for j, q in enumerate((z**2).sum(axis=0)):
        ctx.check(q <= limit, f"{KEYS} estimates of {forms[j]} with {shots} shots deviate {q / KEYS:.3g} times as much (squared) as means of independent outcomes; limit {limit / KEYS:.3g}")
        m = abs(z[:, j].sum()) / np.sqrt(KEYS)
        ctx.check(m <= 8, f"the mean of {KEYS} estimates of {forms[j]} is {m} standard deviations away from the expectation value")
        ctx.check(len(set(est[:, j].tolist())) > 10, f"{KEYS} keys give only {len(set(est[:, j].tolist()))} different estimates of {forms[j]} with {shots} shots")
    ctx.trace(KEYS)
    ctx.step(KEYS * shots)


def gspread(case, ctx, build, D):
    """Gradients of 60 keys against the variance bound (sum of absolute coefficients x range)^2 / (4 n)."""
    import jax
    import jax.numpy as jnp

    hq = build.hq
    n, descs, values, rho, st, qc = setup_case(case, ctx, build)
    forms = [OBS[i] for i in case["l"]]
    obs = build.obj(forms)
    jets = [ref.expectation_jet(descs, o, values, values, rho, n, ["a", "b"], [], 1) for o in forms]
    want = {k: np.array([j.get(((k,), ()), 0.0) for j in jets]) for k in "ab"}
    arg = {k: jnp.asarray(v) for k, v in values.items()}
    width = np.array([np.ptp(np.linalg.eigvalsh(ref.matrix(o, values, n))) for o in forms])
    mult = {k: sum(1 for g in ref.flat(descs) if g.get("p") == k) for k in "ab"}
    shots = case["shots"]
    bwd = case.get("route") == "bwd"
    if bwd:
        from horqrux.differentiation.gpsr import finite_shots_gpsr_backward

        ab = {k: arg[k] for k in "ab"}
        g = jax.jit(lambda v, k: finite_shots_gpsr_backward(st, list(iter(qc)), obs, v, n_shots=shots, key=k))
        f = lambda v, k: dict(zip("ab", np.asarray(g(ab, k))[:, None]))
        want, width = {k: x.sum()[None] for k, x in want.items()}, width.sum()[None]
    else:
        f = jax.jit(jax.jacrev(lambda v, k: hq.expectation(st, qc, obs, v, diff_mode=D.GPSR, n_shots=shots, key=k)))
    got = [f(arg, jax.random.PRNGKey(k)) for k in range(60)]
    jax.clear_caches()
    limit = (60 + 2 * np.sqrt(30.0 * 60) + 60) / 60
    coef = 1.5 if any(g.get("c") and g.get("p") for g in ref.flat(descs)) else 1.0
    for k in "ab":
        g = np.array([np.asarray(x[k]) for x in got])
        ms = ((g - want[k]) ** 2).mean(axis=0)
        # at most: all shifted estimates fully correlated, absolute coefficients summing to 1 per gate
        one = (mult[k] * coef * width) ** 2 / (4 * shots)
        ctx.check(bool(np.all(ms <= limit * one)), f"gradients d/d{k} of 60 keys with {shots} shots have mean squared error {ms}, bound {limit * one}")
        off = np.abs((g - want[k]).mean(axis=0))
        ctx.check(bool(np.all(off <= 8 * np.sqrt(one / 60))), f"the mean of the gradients d/d{k} of 60 keys with {shots} shots is off by {off}, bound {8 * np.sqrt(one / 60)}")
        for j in range(g.shape[1]):
            # (a derivative that is exactly 0 or +-1 may come out the same for all keys)
            few = len(set(np.round(g[:, j], 12).tolist()))
            ctx.check(few > 10, f"60 keys give only {few} different gradients d/d{k} of {forms[j] if not bwd else forms} with {shots} shots")
        ctx.visit(g)
    ctx.trace(60)
    ctx.step(60 * shots)


def spectrum(Mx):
    w, v = np.linalg.eigh(Mx)
    out = []
    for i in range(len(w)):
        P = np.outer(v[:, i], v[:, i].conj())
        if out and abs(out[-1][0] - w[i]) < 1e-7:
            out[-1][1] = out[-1][1] + P
        else:
            out.append([w[i], P])
    return out


def setup_case(case, ctx, build):
    hq = build.hq
    n = 3 if case["c"] == "three" else 2
    descs = CIRC["ent"] + [G("RY", [2], [0], "b")] if case["c"] == "three" else CIRC[case["c"]]
    values = {"b": 0.0, "w": 0.8, "a": 0.0}
    values["a"], values["b"] = gen.rnd(2, 0.3, 2.6, 70)
    psi = ref.basis("0" * n) if case["sk"] in ("basis", "bdm") else ref.generic_vec(n, ctx.seed, 8)
    rho = ref.generic_dm(n, ctx.seed, 8) if case["sk"] == "dm" else ref.outer(psi)
    st = build.dm(rho, n) if case["sk"] in ("dm", "bdm") else build.vec(psi, n)
    qc = hq.QuantumCircuit(n, build.obj(descs))
    return n, descs, values, rho, st, qc


def run_case(case, ctx):
    import jax
    import jax.numpy as jnp
    from horqrux.utils.operator_utils import DiffMode as D

    from .. import build

    hq = build.hq
    if case["kind"] == "grad":
        return grad(case, ctx, build, D)
    if case["kind"] == "spread":
        return spread(case, ctx, build, D)
    if case["kind"] == "gspread":
        return gspread(case, ctx, build, D)
    if case["kind"] == "keys":
        return keys(case, ctx, build, D)
    n, descs, values, rho, st, qc = setup_case(case, ctx, build)
    forms = [OBS[i] for i in case["l"]]
    N = GRID_NEAR if case["c"].startswith("near") else GRID
    obs = build.obj(forms)
    out = ref.run_dm(descs, values, rho, n)
    specs = [spectrum(ref.matrix(o, values, n)) for o in forms]
    probs = [[(lam, float(np.trace(P @ out).real)) for lam, P in s] for s in specs]
    ctx.visit([x for s in probs for _, x in s])
    d = 2**n
    exact = np.array([sum(l * p for l, p in s) for s in probs])
    width = np.array([max(l for l, _ in s) - min(l for l, _ in s) for s in probs])
    key = jax.random.PRNGKey(5)
    f = lambda k, shots: np.asarray(hq.expectation(st, qc, obs, values, n_shots=shots, key=k))
    # own source of jax
    shots = 4000
    e1 = f(key, shots)
    ctx.check(e1.shape == (len(obs),) and not np.iscomplexobj(e1), f"estimates {e1!r}")
    eps = np.array([rng.hoeffding(shots, w) for w in width]) + 1e-9
    ctx.check(bool(np.all(np.abs(e1 - exact) <= eps)), f"estimates {e1} with {shots} shots, exact values {exact}, bound {eps} for {forms} after {descs}")
    ctx.trace()
    ctx.step(shots)

    # single shots over all cells of the grid: one compiled run
    def estimate(U):
        with rng.Source(rng.fixed(U), clear=False):
            return hq.expectation(st, qc, obs, values, n_shots=U.shape[0], key=key)

    try:
        jax.clear_caches()
        table = np.asarray(jax.jit(jax.vmap(lambda u: estimate(u[None])))(jnp.asarray((np.arange(N) + 0.5) / N)))
        jax.clear_caches()
    except LookupError:
        ctx.count("unscripted")
        return
    ctx.check(table.shape == (N, len(obs)), f"shape {table.shape}")
    ctx.step(N)
    ctx.trace(N)
    for j, s in enumerate(probs):
        lam = np.array([l for l, _ in s])
        idx = np.argmin(np.abs(table[:, j][:, None] - lam[None, :]), axis=1)
        off = np.abs(table[:, j] - lam[idx])
        ctx.check(off.max() < 1e-7, f"a single shot of {forms[j]} gave {table[int(off.argmax()), j]}, eigenvalues are {lam}")
        share = np.bincount(idx, minlength=len(lam)) / N
        ctx.close(share, np.array([p for _, p in s]), f"share of the answers giving each eigenvalue {lam} of {forms[j]} (list {forms}) after {descs}", (d + 0.5) / N)
        for i in set(idx.tolist()):
            ctx.outcome((case["l"], j, i))
    # every sequence of representative answers: the mean of the single outcomes
    reps = sorted({tuple(np.round(table[i], 6)): i for i in range(3, N, 5)}.values())[:4]
    seqs = np.array([[(r + 0.5) / N for r in q] for q in itertools.product(reps, repeat=3)])
    want = np.array([np.mean([table[r] for r in q], axis=0) for q in itertools.product(reps, repeat=3)])
    got = np.asarray(jax.jit(jax.vmap(estimate))(jnp.asarray(seqs)))
    jax.clear_caches()
    ctx.close(got, want, f"mean over each sequence of 3 draws for {forms}", 1e-8)
    ctx.step(len(seqs))
    ctx.trace(len(seqs))


def keys(case, ctx, build, D):
    import jax

    hq = build.hq
    n, descs, values, rho, st, qc = setup_case(case, ctx, build)
    obs = [build.obj(OBS[i]) for i in (4, 2)]
    f = lambda k, m=D.AD: tuple(np.round(np.asarray(hq.expectation(st, qc, obs, values, diff_mode=m, n_shots=500, key=k)), 12).tolist())
    for m in (D.AD, D.GPSR):
        ks = [jax.random.PRNGKey(i) for i in range(6)]
        first = [f(k, m) for k in ks]
        second = [f(k, m) for k in reversed(ks)][::-1]
        ctx.check(first == second, f"the same key gave different estimates: {first} / {second}")
        ctx.check(len(set(first)) > 1, f"six different keys gave the same estimates {first[0]}")
        ctx.check(len({x[0] for x in first}) > 1 and len({x[1] for x in first}) > 1, f"six different keys gave equal estimates of an observable {first}")
        default = np.asarray(hq.expectation(st, qc, obs, values, diff_mode=m, n_shots=500))
        default2 = np.asarray(hq.expectation(st, qc, obs, values, diff_mode=m, n_shots=500))
        ctx.close(default, default2, "two calls without a key", 0)
        ctx.trace(14)
        ctx.step(14)
        for x in first:
            ctx.visit(x)
    # every form of a key and of the number of shots
    data = jax.random.key_data(jax.random.key(3))
    for m in (D.AD, D.GPSR):
        forms = [f(k, m) for k in (jax.random.PRNGKey(3), jax.random.key(3), np.asarray(data), data)]
        ctx.check(len(set(forms)) == 1, f"the same key in several forms gave {forms}")
        for shots in (np.int64(500), np.int32(500)):
            got = np.asarray(hq.expectation(st, qc, obs, values, diff_mode=m, n_shots=shots, key=jax.random.PRNGKey(3)))
            ctx.close(got, np.array(forms[0]), f"{type(shots).__name__} shots", 1e-11)
        ctx.trace(6)
        ks = jax.random.split(jax.random.key(8), 3)
        want = np.array([f(k, m) for k in ks])
        got = np.asarray(jax.jit(jax.vmap(lambda k: hq.expectation(st, qc, obs, values, diff_mode=m, n_shots=500, key=k)))(ks))
        ctx.close(got, want, "estimates for a batch of keys", 1e-11)
        ctx.trace(4)
    nested = {"circuit": {"a": values["a"], "b": values["b"]}, "observables": {"w": values["w"]}}
    k = jax.random.PRNGKey(3)
    got = np.asarray(hq.expectation(st, qc, obs, nested, n_shots=200, key=k))
    ctx.close(got, np.asarray(hq.expectation(st, qc, obs, values, n_shots=200, key=k)), "separate values with shots", 1e-12)
    ctx.trace(2)


def grad(case, ctx, build, D):
    import jax
    import jax.numpy as jnp
    from horqrux.differentiation.gpsr import finite_shots_gpsr_backward

    hq = build.hq
    n, descs, values, rho, st, qc = setup_case(case, ctx, build)
    forms = [OBS[i] for i in case["l"]]
    obs = build.obj(forms)
    if not any("w" == x.get("p") for o in forms for x in o["ops"]):
        values.pop("w")
    jets = [ref.expectation_jet(descs, o, values, values, rho, n, ["a", "b"], [], 1) for o in forms]
    want = {k: np.array([j.get(((k,), ()), 0.0) for j in jets]) for k in "ab"}
    arg = {k: jnp.asarray(v) for k, v in values.items()}
    width = np.array([np.ptp(np.linalg.eigvalsh(ref.matrix(o, values, n))) for o in forms])
    # sum over gates of the absolute coefficients of the (two-term or four-term) rule
    gates = [g for g in ref.flat(descs) if isinstance(g.get("p"), str)]
    four = any(g.get("c") for g in gates)
    coef = 2 * ((2 + 2**0.5) / (4 * 2**0.5) + (2 - 2**0.5) / (4 * 2**0.5)) if four else 1.0
    coef = max(coef, 1.5 if four else 1.0)
    mult = {k: sum(1 for g in gates if g["p"] == k) for k in "ab"}
    mult = {k: max(m, max(mult.values())) for k, m in mult.items()}

    def run(shots, key):
        # compiled whole: an eager run compiles every operation on its own
        if case["route"] == "bwd":
            r = np.asarray(jax.jit(lambda v, k: finite_shots_gpsr_backward(st, list(iter(qc)), obs, {x: v[x] for x in arg}, n_shots=shots, key=k))(arg, key))
            ctx.check(r.shape == (len(arg),), f"backward gradient has shape {r.shape}")
            return {k: r[i : i + 1] for i, k in enumerate(arg)}
        J = jax.jit(jax.jacrev(lambda v, k: hq.expectation(st, qc, obs, {x: v[x] for x in arg}, diff_mode=D.GPSR, n_shots=shots, key=k)))(arg, key)
        return {k: np.asarray(x) for k, x in J.items()}

    def compare(got, tol_of, what):
        for k in "ab":
            w, wd = (want[k].sum()[None], width.sum()[None]) if case["route"] == "bwd" else (want[k], width)
            tol = tol_of(k, wd)
            ctx.check(bool(np.all(np.abs(got[k] - w) <= tol)), f"{what}: d/d{k} = {got[k]}, derivative {w}, bound {tol}; {descs} with {forms}")
        ctx.trace()
        ctx.step()

    shots = 4096
    with rng.Source(rng.stratified) as src:
        got = run(shots, jax.random.PRNGKey(1))
    if src.requests and all(int(np.prod(s)) == shots for s in src.requests):
        compare(got, lambda k, wd: 2 * coef * mult[k] * wd * (2**n) / shots + 1e-9, "representative answers")
        ctx.visit(np.concatenate([got[k] for k in "ab"]))
    else:
        ctx.count("unscripted")
    # jax's own source: same key, same gradient; Hoeffding per estimate and union over estimates
    jax.clear_caches()
    k1 = jax.random.PRNGKey(2)
    shots = 20000
    g1 = run(shots, k1)
    compare(g1, lambda k, wd: 2 * coef * mult[k] * rng.hoeffding(shots, 1.0, 1e-12) * wd + 1e-9, "own source")
    if case["c"] in ("ent", "rep"):
        g2 = run(shots, k1)
        for k in g1:
            ctx.close(g2[k], g1[k], f"the same key, second gradient {k}", 1e-12)
    jax.clear_caches()
