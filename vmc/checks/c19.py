"""The whole product of configurations: entry point (run, sample, expectation, its Jacobian, the dedicated gradient
functions) x differentiation mode (valid and invalid spellings) x state kind (vector, density matrix, sparse) x gate
representation (dense, sparse, mixed) x observable representation x noise (none, on one-qubit gates, on a two-qubit
gate) x shot count (negative, zero, positive) x value layout (flat, extra names, separate, missing names in each
part, empty) x circuits with sums and scaled operations.  In every configuration the real code either returns the
model's result or raises; the documented restrictions must raise, with the documented exception where nothing else
is wrong.  Shot counts are combined with circuits whose outcomes are certain, so that any estimate is exact."""
from __future__ import annotations

import itertools

import numpy as np

from .. import gen, ref
from ..core import Violation
from .c07 import A, G, M, O, S

PROPERTY = "C19"
ASSUMPTIONS = [
    "the gradient of an automatic-mode estimate with shots is not claimed (the documentation says that it does not apply)",
    "derivatives with respect to observable parameters are not claimed in parameter-shift mode, except as listed in known_findings.json",
    "any exception type is accepted where several things are wrong at once or values are missing", "tolerance 1e-9",
]
N = 2
BF = [("BitFlip", 1.0)]
# generic circuits (exact results) and certain ones (any number of shots gives the exact value)
CIRC = {
    "gen": [G("RX", [0], p="a"), G("X", [1], [0]), G("RY", [1], p="b"), G("RZ", [0], [1], "a")],
    "swap": [G("RY", [0], p="a"), G("SWAP", [1, 0]), G("RX", [0], p="b"), G("H", [1])],
    "noisy": [G("RX", [0], p="a", n=[("AmplitudeDamping", 0.3)]), G("X", [1], [0]), G("RY", [1], p="b", n=[("BitFlip", 0.2), ("PhaseDamping", 0.4)])],
    "lastnoise": [G("RX", [0], p="a"), G("RY", [1], p="b"), G("Z", [1], n=[("Depolarizing", 0.2)])],
    "sure": [G("RX", [0], p="a"), G("X", [1], [0]), G("RY", [1], p="b")],
    "surenoisy": [G("RX", [0], p="a", n=BF), G("X", [1], [0], n=BF), G("RY", [1], p="b")],
}
BADNOISE = [G("RX", [0], p="a"), G("SWAP", [0, 1], n=[("BitFlip", 0.2)]), G("RY", [1], p="b")]
OBS = [O(M("w", A(G("Z", [0]), G("Z", [1])))), O(S(G("Z", [0]), G("Z", [1])))]
OBSX = [O(M("w", G("X", [0])), G("Z", [1])), O(S(G("Y", [0]), G("X", [1])))]
LAYOUTS = ["flat", "extra", "nested", "nested_extra", "no_b", "no_w", "empty", "nested_no_b", "nested_no_w", "only_circuit", "nested_swapped"]
MODES = ["AD", "ADJOINT", "GPSR", "ad", "adjoint", "gpsr"]
BAD_MODES = ["AD", "psr", "", "Adjoint", "finite_diff", None, 0, "GPSR", "gp", "adj", " ad", "gpsr ", "a", "adjoints", 1.5, True]
SHOTS = [-1000, -1, 0, 1, 30]
COMP = {  # circuits that are not sequences of gates: what run does with them is well defined
    "scale": [G("RX", [0], p="a"), M(-1.0, G("X", [1])), G("RY", [1], p="b")],
    "named": [G("RX", [0], p="a"), M("w", G("X", [1])), G("RY", [1], p="b")],
    "add": [G("RX", [0], p="a"), A(G("X", [1]), G("Z", [1])), G("RY", [1], p="b")],
    "deep": [S(G("RX", [0], p="a"), S(M(0.5, S(G("X", [1]), G("H", [0]))))), G("RY", [1], p="b")],
    "addseq": [S(A(S(G("X", [0]), G("RX", [1], p="a")), G("Z", [0]))), G("RY", [1], p="b")],
}


def bounds(tier):
    return dict(circuits=list(CIRC) + ["noise on SWAP"] + list(COMP), value_layouts=LAYOUTS, modes=MODES, invalid_modes=[str(m) for m in BAD_MODES], shots=SHOTS, sample_shots=[-1000, -1, 0, 1, 7],
                states=["vector", "dm", "sparse"], gates=["dense", "sparse", "mixed"], observables=["dense", "sparse"], gradients="every mode x state x circuit x layout, with and without shots")


def units(tier):
    us = []
    reps = ["dense", "sparse", "mixed"]
    for sk, rep in itertools.product(("vec", "dm", "sp"), reps):
        for c in CIRC:
            for orep in ("dense", "sparse"):
                us.append([dict(kind="exp", sk=sk, rep=rep, c=c, orep=orep, mode=m, shots=s, lay=l) for m in MODES for s in SHOTS for l in LAYOUTS
                           if (s == 0 or s < 0 or c.startswith("sure")) and (tier != "quick" or l == "flat" or MODES.index(m) < 3) and (s >= 0 or l in ("flat", "nested", "empty"))
                           and (s != 1 or l == "flat") and (s != 30 or l in ("flat", "extra", "nested", "no_b", "no_w"))
                           and (tier != "quick" or consistent(sk, rep, orep) or l in ("flat", "nested_extra", "empty"))])
            us.append([dict(kind="run", sk=sk, rep=rep, c=c, lay=l) for l in LAYOUTS] + [dict(kind="sample", sk=sk, rep=rep, c=c, lay=l, shots=s) for l in ("flat", "extra", "nested", "no_b", "empty") for s in (-1000, -1, 0, 1, 7)])
        us.append([dict(kind="badmode", sk=sk, rep=rep, mode=m, shots=s) for m in BAD_MODES for s in SHOTS])
        us.append([dict(kind="badnoise", sk=sk, rep=rep, ep=e) for e in ("run", "sample", "AD", "ADJOINT", "GPSR", "shots")])
        us.append([dict(kind="qubits", sk=sk, rep=rep, ep=e) for e in ("run", "sample", "AD", "ADJOINT", "GPSR", "shots")])
    for c in COMP:
        for sk in ("vec", "dm", "sp"):
            us.append([dict(kind="comp", c=c, sk=sk, rep=r) for r in (["dense"] if sk != "sp" else ["sparse"])])
    for sk in ("vec", "dm", "sp"):
        for c in ("gen", "noisy", "swap") if tier == "quick" else CIRC:
            for mode in ("AD", "ADJOINT", "GPSR"):
                us.append([dict(kind="grad", sk=sk, c=c, mode=mode, lay=l) for l in (("flat", "nested") if sk == "sp" and tier == "quick" else ("flat", "extra", "nested", "no_b", "no_w"))])
    us.append([dict(kind="gshots", sk=sk, mode="ADJOINT", shots=s) for sk in ("vec", "dm", "sp") for s in (5, -1)] + [dict(kind="gshots", sk=sk, mode=m, shots=-1) for sk in ("vec", "dm") for m in ("AD", "GPSR")])
    us += [[dict(kind="obsgrad", route=r, shared=s)] for r in ("fwd", "bwd") for s in (False, True)]
    us += [[dict(kind="alias", i=i)] for i in range(3)]
    us.sort(key=lambda u: (u[0].get("sk") == "sp" or u[0].get("rep") != "dense", u[0]["kind"] == "grad"))
    return us


# ------------------------------------------------------------------ construction


def point(c):
    a, b, w = gen.rnd(3, 0.3, 2.6, 190)
    if c.startswith("sure"):
        a, b = np.pi, -3 * np.pi
    return dict(a=a, b=b, w=w)


def values(v, lay):
    """(values passed, circuit part or None, observable part or None); None: something is missing."""
    c, o = {"a": v["a"], "b": v["b"]}, {"w": v["w"]}
    full = {"w": v["w"], "b": v["b"], "a": v["a"]}
    if lay == "flat":
        return full, c, o
    if lay == "extra":
        return {**full, "zz": 9.0, "a0": -1.0}, c, o
    if lay == "nested":
        return {"circuit": c, "observables": o}, c, o
    if lay == "nested_extra":  # the other side's names, with other values
        return {"observables": {**o, "a": 7.0, "b": -7.0}, "circuit": {**c, "w": 5.0}}, c, o
    if lay == "no_b":
        return {"a": v["a"], "w": v["w"]}, None, o
    if lay == "no_w":
        return dict(c), c, None
    if lay == "empty":
        return {}, None, None
    if lay == "nested_no_b":
        return {"circuit": {"a": v["a"]}, "observables": {**o, "b": v["b"]}}, None, o
    if lay == "nested_no_w":
        return {"circuit": {**c, "w": v["w"]}, "observables": {}}, c, None
    if lay == "only_circuit":
        return {"circuit": {**c, **o}}, None, None
    if lay == "nested_swapped":
        return {"circuit": o, "observables": c}, None, None
    raise KeyError(lay)


def start(sk, c, ctx, build):
    """(state, its density matrix)"""
    if c.startswith("sure"):
        psi = ref.basis("01")
        rho = ref.outer(psi)
    else:
        psi = ref.generic_vec(N, ctx.seed, 90)
        rho = ref.generic_dm(N, ctx.seed, 90) if sk == "dm" else ref.outer(psi)
    st = dict(vec=lambda: build.vec(psi, N), dm=lambda: build.dm(rho, N), sp=lambda: build.sp(psi, N))[sk]()
    return st, rho, psi


_OBJ = {}


def circuit(c, rep, build):
    if (c, rep) not in _OBJ:
        d = {**CIRC, **COMP, "badnoise": BADNOISE}[c]
        if rep == "mixed":
            ops = [build.obj(x, sparse=i % 2 == 0) for i, x in enumerate(d)]
        else:
            ops = build.obj(d, sparse=rep == "sparse")
        _OBJ[c, rep] = build.hq.QuantumCircuit(N, ops)
    return _OBJ[c, rep]


def observables(sk, c, orep, build):
    forms = OBS if c.startswith("sure") else OBSX
    key = ("obs", forms is OBS, orep)
    if key not in _OBJ:
        _OBJ[key] = [build.obj(o, sparse=orep == "sparse") for o in forms]
    return forms, _OBJ[key]


def attempt(ctx, fn, want, what, must=None, tol=1e-9):
    """want: None if there is no right answer (any return value is wrong)."""
    try:
        got = fn()
        got = {k: np.asarray(x) for k, x in got.items()} if isinstance(got, dict) else np.asarray(got)
    except Violation:
        raise
    except Exception as e:
        ctx.outcome((what.split(" of ")[0][:60], type(e).__name__))
        ctx.count("refused")
        if must is not None:
            ctx.check(isinstance(e, must), f"{what}: raised {type(e).__name__} ({str(e)[:200]}) instead of {must}")
        return
    finally:
        ctx.step()
        ctx.trace()
    if must is not None or want is None:
        ctx.fail(f"{what}: returned {got} instead of raising{' ' + str(must) if must else ''}")
    if isinstance(want, dict):
        for k in want:
            ctx.close(got[k], want[k], f"{what}, derivative {k}", tol)
    else:
        ctx.close(got, want, what, tol)
    ctx.count("answered")
    ctx.outcome((what.split(" of ")[0][:60], "ok"))


def final(c, cv, rho):
    return ref.run_dm(CIRC[c], cv, rho, N)


def run_case(case, ctx):
    from horqrux.utils.operator_utils import DiffMode as D

    from .. import build

    ctx.visit_key(sorted((k, str(v)) for k, v in case.items()))
    globals()["do_" + case["kind"]](case, ctx, build, D)


def mode_of(m, D):
    return getattr(D, m) if m in ("AD", "ADJOINT", "GPSR") else m


def consistent(sk, rep, orep="dense"):
    """dense objects on dense states, sparse objects on sparse states"""
    want = "sparse" if sk == "sp" else "dense"
    return rep == want and orep == want


# ------------------------------------------------------------------ cases


def do_exp(case, ctx, build, D):
    sk, rep, c, orep, shots = case["sk"], case["rep"], case["c"], case["orep"], case["shots"]
    st, rho, _ = start(sk, c, ctx, build)
    passed, cv, ov = values(point(c), case["lay"])
    forms, obs = observables(sk, c, orep, build)
    qc = circuit(c, rep, build)
    noisy = ref.has_noise(CIRC[c])
    adj = case["mode"].lower() == "adjoint"
    want = None
    if cv is not None and ov is not None:
        r = final(c, cv, rho)
        want = np.array([np.trace(ref.matrix(o, ov, N) @ r).real for o in forms])
        ctx.visit(want)
    must = None
    if shots < 0:
        must = ValueError if not (adj and sk == "dm") else (TypeError, ValueError)
    elif adj and sk == "dm":
        must = TypeError if shots == 0 else (TypeError, ValueError)
    elif adj and shots > 0:
        must = Exception
    elif sk == "sp" and noisy and cv is not None and ov is not None and consistent(sk, rep, orep) and not (case["lay"].startswith("nested") and case["mode"].lower() == "gpsr"):
        must = NotImplementedError
    def call():
        x = build.hq.expectation(st, qc, obs, passed, diff_mode=mode_of(case["mode"], D), n_shots=shots)
        return build.dense(x)

    attempt(ctx, call, want, f"expectation of {case}", must)


def do_run(case, ctx, build, D):
    sk, rep, c = case["sk"], case["rep"], case["c"]
    st, rho, psi = start(sk, c, ctx, build)
    passed, cv, _ = values(point(c), case["lay"])
    if case["lay"].startswith("nested"):
        cv = None  # separate values are for expectations only
        passed = {k: passed[k] for k in passed}
    noisy = ref.has_noise(CIRC[c])
    qc = circuit(c, rep, build)
    want = None
    if cv is not None:
        want = final(c, cv, rho) if sk == "dm" or noisy else ref.run_vec(CIRC[c], cv, psi, N)
    must = NotImplementedError if sk == "sp" and noisy and cv is not None and rep == "sparse" else None
    attempt(ctx, lambda: build.to_np(build.hq.run(qc, st, passed), N), want, f"run of {case}", must)
    attempt(ctx, lambda: build.to_np(build.hq.apply_gates(st, list(iter(qc)), passed), N), want, f"apply_gates of {case}", must)


def do_sample(case, ctx, build, D):
    sk, rep, c, shots = case["sk"], case["rep"], case["c"], case["shots"]
    st, rho, _ = start(sk, c, ctx, build)
    passed, cv, _ = values(point(c), case["lay"])
    if case["lay"] == "nested":
        cv = None
    qc = circuit(c, rep, build)
    must = ValueError if shots < 1 else NotImplementedError if sk == "sp" and ref.has_noise(CIRC[c]) and cv is not None and rep == "sparse" else None
    want = p = None
    if cv is not None and shots > 0:
        p = np.diag(final(c, cv, rho)).real
        want = np.rint(p) * shots if c.startswith("sure") else p
    def call():
        k = build.hq.sample(st, qc, passed, shots)
        x = np.array([k.get(format(i, "02b"), 0) for i in range(4)], float)
        ctx.check(sum(k.values()) == shots and x.sum() == shots, f"sample of {case} returned {dict(k)}")
        if p is not None and not c.startswith("sure"):  # generic outcomes: only impossible bitstrings are ruled out here
            ctx.check(all(p[i] > 1e-12 for i in range(4) if x[i]), f"sample of {case} returned {dict(k)}, probabilities are {p}")
            return p
        return x

    attempt(ctx, call, want, f"sample of {case}", must)


def do_badmode(case, ctx, build, D):
    sk, rep = case["sk"], case["rep"]
    st, _, _ = start(sk, "sure", ctx, build)
    passed, _, _ = values(point("sure"), "flat")
    _, obs = observables(sk, "sure", "sparse" if sk == "sp" else "dense", build)
    m = case["mode"]
    attempt(ctx, lambda: build.dense(build.hq.expectation(st, circuit("sure", rep, build), obs, passed, diff_mode=m, n_shots=case["shots"])), None, f"expectation of {case}", ValueError)


def entry(ep, st, qc, obs, v, build, D):
    hq = build.hq
    if ep == "run":
        return build.to_np(hq.run(qc, st, v))
    if ep == "sample":
        k = hq.sample(st, qc, v, 5)
        return np.array([k.get(format(i, "02b"), 0) for i in range(4)])
    if ep == "shots":
        return build.dense(hq.expectation(st, qc, obs, v, n_shots=5))
    return build.dense(hq.expectation(st, qc, obs, v, diff_mode=getattr(D, ep)))


def do_badnoise(case, ctx, build, D):
    """A noise channel on a two-qubit gate has no documented meaning."""
    sk, rep = case["sk"], case["rep"]
    st, _, _ = start(sk, "gen", ctx, build)
    _, obs = observables(sk, "gen", "dense", build)
    v, _, _ = values(point("gen"), "flat")
    attempt(ctx, lambda: entry(case["ep"], st, circuit("badnoise", rep, build), obs, v, build, D), None, f"{case['ep']} of a noisy SWAP, {case}", None)


def do_qubits(case, ctx, build, D):
    """A gate outside of the register."""
    sk, rep = case["sk"], case["rep"]
    st, _, _ = start(sk, "gen", ctx, build)
    _, obs = observables(sk, "gen", "dense", build)
    v, _, _ = values(point("gen"), "flat")
    for t, c in (([2], []), ([0], [2]), ([3], [1]), ([5], [])):
        d = [G("RX", [0], p="a"), G("X", t, c), G("RY", [1], p="b")]
        qc = build.hq.QuantumCircuit(N, build.obj(d, sparse=rep != "dense"))
        attempt(ctx, lambda: entry(case["ep"], st, qc, obs, v, build, D), None, f"{case['ep']} of a gate outside the register {t, c}, {case}", None)
    if case["ep"] not in ("run", "sample"):
        bad = [build.obj(O(G("Z", [2])), sparse=sk == "sp")]
        attempt(ctx, lambda: entry(case["ep"], st, circuit("gen", rep, build), bad, v, build, D), None, f"{case['ep']} of an observable outside the register, {case}", None)


def do_comp(case, ctx, build, D):
    """Circuits holding sums and scaled operations: run means the linear map; everything else agrees or refuses."""
    sk, c = case["sk"], case["c"]
    st, rho, psi = start(sk, "gen", ctx, build)
    v, cv, ov = values(point("gen"), "flat")
    Mx = ref.matrix(S(*COMP[c]), v, N)
    f = Mx @ psi
    r = Mx @ rho @ Mx.conj().T
    qc = circuit(c, case["rep"], build)
    forms, obs = observables(sk, "gen", "sparse" if sk == "sp" else "dense", build)
    attempt(ctx, lambda: build.to_np(build.hq.run(qc, st, v), N), r if sk == "dm" else f, f"run of {case}")
    attempt(ctx, lambda: build.to_np(build.hq.apply_gates(st, list(iter(qc)), v), N), r if sk == "dm" else f, f"apply_gates of {case}")
    want = np.array([np.trace(ref.matrix(o, v, N) @ r).real for o in forms])
    for m in ("AD", "ADJOINT", "GPSR"):
        attempt(ctx, lambda: build.dense(build.hq.expectation(st, qc, obs, v, diff_mode=getattr(D, m))), want, f"{m} expectation of {case}")
    for m in ("AD", "GPSR"):
        if c in ("named", "add", "deep", "addseq"):  # not norm preserving: no estimate is right
            attempt(ctx, lambda: build.dense(build.hq.expectation(st, qc, obs, v, diff_mode=getattr(D, m), n_shots=10)), None, f"{m} estimate of {case}")


def do_grad(case, ctx, build, D):
    import jax
    import jax.numpy as jnp

    sk, c, mode = case["sk"], case["c"], case["mode"]
    st, rho, _ = start(sk, c, ctx, build)
    passed, cv, ov = values(point(c), case["lay"])
    rep = "sparse" if sk == "sp" else "dense"
    forms, obs = observables(sk, c, rep, build)
    qc = circuit(c, rep, build)
    want = None
    if cv is not None and ov is not None:
        jets = [ref.expectation_jet(CIRC[c], o, cv, ov, rho, N, ["a", "b"], ["w"], 1) for o in forms]
        dc = {k: np.array([j.get(((k,), ()), 0.0) for j in jets]) for k in "ab"}
        do = {"w": np.array([j.get(((), ("w",)), 0.0) for j in jets])}
        if case["lay"] == "nested":
            want = {**dc, **do}
        else:
            want = {**dc, **(do if mode != "GPSR" else {})}
            if case["lay"] == "extra":
                want["zz"] = np.zeros(len(forms))
    arg = jax.tree_util.tree_map(jnp.asarray, passed)

    def call():
        J = jax.jacrev(lambda v: as_array(build.hq.expectation(st, qc, obs, v, diff_mode=getattr(D, mode)), build))(arg)
        return {**J["circuit"], **J["observables"]} if case["lay"] == "nested" else J

    must = TypeError if mode == "ADJOINT" and sk == "dm" else None
    attempt(ctx, call, want, f"gradient of {case}", must, 1e-8)
    if mode == "GPSR" and case["lay"] in ("flat", "extra", "no_b"):
        from horqrux.differentiation.gpsr import analytical_gpsr_bwd

        def back():
            g = np.asarray(analytical_gpsr_bwd(st, list(iter(qc)), obs, arg))
            return dict(zip(arg, g))

        w = None if want is None else {k: x.sum() for k, x in want.items()}
        attempt(ctx, back, w, f"backward gradient of {case}", None, 1e-8)


def as_array(x, build):
    return x.todense() if isinstance(x, build.BCOO) else x


def do_gshots(case, ctx, build, D):
    """Gradients with unsupported shot counts."""
    import jax
    import jax.numpy as jnp

    sk = case["sk"]
    st, _, _ = start(sk, "gen", ctx, build)
    passed, _, _ = values(point("gen"), "flat")
    rep = "sparse" if sk == "sp" else "dense"
    _, obs = observables(sk, "gen", rep, build)
    qc = circuit("gen", rep, build)
    arg = {k: jnp.asarray(x) for k, x in passed.items()}
    attempt(ctx, lambda: jax.jacrev(lambda v: as_array(build.hq.expectation(st, qc, obs, v, diff_mode=getattr(D, case["mode"]), n_shots=case["shots"]), build))(arg), None, f"gradient of {case}", Exception)


def do_obsgrad(case, ctx, build, D):
    """Derivative with respect to an observable's parameter (or one that a gate and an observable share) in
    parameter-shift mode."""
    import jax
    import jax.numpy as jnp
    from horqrux.differentiation.gpsr import analytical_gpsr_bwd

    st, rho, _ = start("vec", "gen", ctx, build)
    v, _, _ = values(point("gen"), "flat")
    name = "b" if case["shared"] else "w"
    o = O(M(name, G("X", [0])), G("Z", [1]))
    j = ref.expectation_jet(CIRC["gen"], o, v, v, rho, N, ["b"], [name], 1)
    want = j.get(((), (name,)), 0.0) + (j.get((("b",), ()), 0.0) if case["shared"] else 0.0)
    obs, qc = [build.obj(o)], circuit("gen", "dense", build)
    arg = {k: jnp.asarray(x) for k, x in v.items()}
    if case["route"] == "fwd":
        attempt(ctx, lambda: jax.jacrev(lambda v: build.hq.expectation(st, qc, obs, v, diff_mode=D.GPSR))(arg)[name][0], want, f"parameter-shift derivative of {case}", None, 1e-8)
    else:
        attempt(ctx, lambda: dict(zip(arg, np.asarray(analytical_gpsr_bwd(st, list(iter(qc)), obs, arg))))[name], want, f"backward derivative of {case}", None, 1e-8)


def do_alias(case, ctx, build, D):
    """Names that are spelled like the reserved keys of separate values."""
    names = [("circuit", "b"), ("a", "observables"), ("circuit", "x")][case["i"]]
    d = [G("RX", [0], p=names[0]), G("RY", [1], p=names[1])]
    v = dict(zip(names, gen.rnd(2, 0.3, 2.6, 191)))
    psi = ref.generic_vec(N, ctx.seed, 91)
    qc = build.hq.QuantumCircuit(N, build.obj(d))
    o = O(G("X", [0]), S(G("Z", [0]), G("Y", [1])))
    f = ref.run_vec(d, v, psi, N)
    want = np.array([np.vdot(f, ref.matrix(o, v, N) @ f).real])
    attempt(ctx, lambda: build.to_np(build.hq.run(qc, build.vec(psi, N), v), N), f, f"run of a circuit with parameters {names}")
    for m in ("AD", "ADJOINT", "GPSR"):
        attempt(ctx, lambda: np.asarray(build.hq.expectation(build.vec(psi, N), qc, [build.obj(o)], v, diff_mode=getattr(D, m))), want, f"{m} expectation with parameters {names}")
