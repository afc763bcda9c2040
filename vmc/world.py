"""A set of shared objects (states, circuits, gates, observables, value dictionaries) and every kind of API call
on them, with the result each call must have (numpy model, or the first-call answer for sampled results).  Used for
call histories (C17) and thread schedules (C21)."""
from __future__ import annotations

import numpy as np

from . import build, fp, gen, ref
from .checks.c07 import A, G, M, O, S

hq = build.hq
jax, jnp = build.jax, build.jnp

N = 2
C1 = [G("RY", [0], p="a"), S(G("X", [1], [0]), G("RX", [1], p="a")), G("PHASE", [0], [1], "b"), G("RZ", [1], p=0.3), G("RY", [1], p="b")]
C2 = [G("RX", [0], p="b"), G("X", [1], [0]), G("RY", [1], p="a")]
NOISY = [G("RY", [0], p="a", n=[("AmplitudeDamping", 0.3)]), G("X", [1], [0], n=[("BitFlip", 0.2), ("PhaseDamping", 0.1)]), G("RX", [1], p="b")]
GATES = [G("RX", [1], p="a"), G("H", [0]), G("RX", [1], p="b"), G("SWAP", [1, 0]), G("T", [0]), G("RY", [0], p="a"), G("RX", [1], p="a")]
OBS = [O(M("w", A(G("X", [0]), G("Z", [1]))), G("Y", [0])), O(S(G("Z", [0]), G("Z", [1]))), O(G("Z", [1]))]
EXTRA = G("RX", [0], p="b")
EXTRA1, R1, R2 = G("RZ", [1], p="b"), G("RY", [1], p="b"), G("RX", [0], p="a")
CF = [G("RY", [0], p=0.8), G("X", [1], [0]), G("RX", [1], p=1.9)]
TMP = [O(G("Z", [0])), O(G("X", [1])), O(S(G("X", [0]), G("Z", [1]))), O(G("Y", [1]))]
HAM = np.array([[1, 0.5 - 0.2j, 0, 0.1], [0.5 + 0.2j, -1, 0.3, 0], [0, 0.3, 2, 1j], [0.1, 0, -1j, 0.4]])
TOGGLES = ("tv", "tc", "tx")
WRT = ("a", "b")


class World:
    """Fresh shared objects.  `bits` are the user's own in-place edits (a value, replacements, extensions)."""

    def __init__(self, seed):
        self.seed = seed
        a, b, w = gen.rnd(3, 0.3, 2.6, 130)
        self.bits = dict(tv=False, tc=False, tx=False)
        self.psi = ref.generic_vec(N, seed, 40)
        self.rho = ref.generic_dm(N, seed, 40)
        self.ob = dict(
            vec=build.vec(self.psi, N), dm=build.dm(self.rho, N), sp=build.sp(self.psi, N), vec2=build.vec(ref.generic_vec(N, seed, 41), N),
            v={"w": w, "b": jnp.asarray(b), "a": jnp.asarray(a)}, v2={"a": 0.25, "w": -0.4, "b": -1.3}, vc={"b": jnp.asarray(b), "a": jnp.asarray(a)},
            nested={"circuit": {"b": b, "a": a}, "observables": {"w": w}}, vh={"hamiltonian": jnp.asarray(HAM), "time_evolution": 0.6, "a": a},
            c1=hq.QuantumCircuit(N, build.obj(C1), ["b"]), c2=hq.QuantumCircuit(N, build.obj(C2)), noisy=hq.QuantumCircuit(N, build.obj(NOISY)),
            csp=hq.QuantumCircuit(N, build.obj(C2, sparse=True)), ch=hq.QuantumCircuit(N, build.obj([G("HEVO", [1, 0]), G("RY", [0], p="a")])),
            cf=hq.QuantumCircuit(N, build.obj(CF)), nest_e={"circuit": {}, "observables": {"w": -0.8}}, nest_o={"circuit": {"b": -0.6, "a": 1.1}, "observables": {}},
            gates=build.obj(GATES), obs=[build.obj(o) for o in OBS], osp=[build.obj(o, sparse=True) for o in OBS[:2]], single=build.gate(G("RY", [1], [0], "a")),
        )

    # ---- the user's own edits
    def toggle(self, t):
        o = self.ob
        self.bits[t] = on = not self.bits[t]
        if t == "tv":
            o["v"]["a"] = o["v"]["a"] + (0.9 if on else -0.9)
        elif t == "tc":
            # gates and a factor of an observable are replaced: all numbers of operations stay
            ops = o["c1"].operations
            ops[2] = build.gate(R2 if on else C1[2])
            ops[1].operations[1] = build.gate(R1 if on else C1[1]["ops"][1])
            o["obs"][1].operations[0].operations[0] = build.gate(G("X" if on else "Z", [0]))
        else:
            # a circuit, a sequence nested in it and an observable become longer
            ops = o["c1"].operations
            if on:
                ops.append(build.gate(EXTRA))
                ops[1].operations.append(build.gate(EXTRA1))
                o["obs"][2].operations.append(build.gate(G("X", [1])))
            else:
                ops.pop()
                ops[1].operations.pop()
                o["obs"][2].operations.pop()

    def key(self):
        return tuple(self.bits.values())

    def prints(self):
        return {k: fp.of(x) for k, x in self.ob.items()}

    # ---- the model's view
    def values(self):
        a, b, w = gen.rnd(3, 0.3, 2.6, 130)
        return {"w": w, "b": b, "a": a + (0.9 if self.bits["tv"] else 0)}

    def c1(self):
        c, x = self.bits["tc"], self.bits["tx"]
        inner = [C1[1]["ops"][0], R1 if c else C1[1]["ops"][1]] + [EXTRA1] * x
        return [C1[0], S(*inner), R2 if c else C1[2], *C1[3:]] + [EXTRA] * x

    def obs(self):
        o = list(OBS)
        if self.bits["tc"]:
            o[1] = O(S(G("X", [0]), G("Z", [1])))
        if self.bits["tx"]:
            o[2] = O(*o[2]["ops"], G("X", [1]))
        return o


def jets(desc, obs, values, rho):
    js = [ref.expectation_jet(desc, o, values, values, rho, N, list(WRT), [], 1) for o in obs]
    e = np.array([j[((), ())] for j in js])
    g = {k: np.array([j.get(((k,), ()), 0.0) for j in js]) for k in WRT}
    return e, g


def _np(x):
    return build.to_np(x, N)


def ex(w, circ, obs, values, mode=None, **kw):
    st = kw.pop("st", "vec")
    return np.asarray(build.dense(hq.expectation(w.ob[st], w.ob[circ] if isinstance(circ, str) else circ, obs, values, **({"diff_mode": mode} if mode else {}), **kw))).ravel()


def jac(w, circ, obs, mode, st="vec"):
    J = jax.jacrev(lambda v: hq.expectation(w.ob[st], w.ob[circ], obs, v, diff_mode=mode))(w.ob["v"] if mode != "gpsr" else {k: jnp.asarray(x) for k, x in w.ob["v"].items()})
    return np.array([np.asarray(J[k]) for k in WRT])


def _gpsr(w, circ, obs, fn, **kw):
    return np.asarray(fn(w.ob["vec"], list(iter(w.ob[circ])), obs, w.ob["vc"] if not w.bits["tv"] else dict(w.ob["vc"], a=w.ob["v"]["a"]), **kw))


def _bwd(w):
    from horqrux.differentiation.gpsr import analytical_gpsr_bwd

    return _gpsr(w, "c1", w.ob["obs"][1:], analytical_gpsr_bwd)


def _fbwd(w):
    from horqrux.differentiation.gpsr import finite_shots_gpsr_backward

    return _gpsr(w, "c1", w.ob["obs"][1:], finite_shots_gpsr_backward, n_shots=30, key=jax.random.PRNGKey(2))


def _conv(w):
    from horqrux.utils.conversion import to_dense, to_sparse

    s = to_sparse(w.ob["c1"])
    d = to_dense(w.ob["csp"])
    v = {k: float(x) for k, x in w.ob["v"].items()}
    return np.stack([build.dense(s.tensor(v)).ravel(), build.dense(d.tensor(v)).ravel()])


def _tens(w):
    v = w.ob["v"]
    return np.concatenate([build.dense(w.ob["single"].tensor(v, (0, 1, 2))).ravel(), build.dense(w.ob["c1"].tensor(v)).ravel(), build.dense(w.ob["obs"][0].tensor(v, (0, 1))).ravel()])


def _jit(w):
    return _np(jax.jit(lambda c, s, v: hq.run(c, s, v))(w.ob["c1"], w.ob["vec"], w.ob["v"]))


def _vmap(w):
    xs = jnp.asarray([0.1, -0.7])
    return np.asarray(jax.vmap(lambda x: hq.run(w.ob["c2"], w.ob["vec"], {"a": x, "b": 0.2}))(xs)).ravel()


def _misc(w):
    from horqrux.utils.operator_utils import density_mat

    r = density_mat(w.ob["vec"])
    return np.concatenate([_np(r).ravel(), [float(hq.overlap(w.ob["vec"], w.ob["vec2"])), float(hq.equivalent_state(w.ob["vec"], w.ob["vec"])), float(hq.equivalent_state(w.ob["vec"], w.ob["vec2"]))]])


def _tmp(w):
    """Circuits made of the shared gates, thrown away afterwards."""
    out = []
    for k in (1, 2):
        c = hq.QuantumCircuit(N, w.ob["gates"][k:] + [w.ob["single"]])
        out.append(_np(hq.run(c, w.ob["vec"], w.ob["v2"])))
    return np.concatenate(out)


def _states(w):
    """States made anew at every call, and measurement probabilities."""
    from horqrux.utils.operator_utils import probabilities

    return np.concatenate([_np(hq.zero_state(N)), _np(hq.product_state("10")), _np(hq.uniform_state(N)), _np(hq.product_state("01", sparse=True)), _np(hq.random_state(N)), _np(hq.random_state(N, sparse=True)),
                           np.asarray(probabilities(w.ob["vec"])), np.asarray(probabilities(w.ob["dm"]))])


_RANDOM = _np(hq.random_state(N))


def _m_states(w):
    e = np.eye(4)
    r = _RANDOM
    return np.concatenate([e[0], e[2], np.full(4, 0.5), e[1], r, r, abs(w.psi) ** 2, np.diag(w.rho).real])


def _kraus(w):
    """Channels of the noise instances of the shared circuit, and the dagger of the shared gates."""
    ks = [k for g in w.ob["noisy"] for n in (g.noise or ()) for k in n.kraus]
    return np.concatenate([build.dense(k).ravel() for k in ks] + [build.dense(g.dagger(w.ob["v"])).ravel() for g in w.ob["gates"]])


def _m_kraus(w):
    ks = [k for g in NOISY for kind, p in g["n"] for k in ref.kraus(kind, p)]
    v = w.values()
    return np.concatenate([k.ravel() for k in ks] + [ref.base_matrix(g["g"], v[g["p"]] if g["p"] else None).conj().T.ravel() for g in GATES])


def _tmpobs(w):
    """Observables made for one call and thrown away, on a circuit without parameters, exact and with shots."""
    out = []
    c = hq.QuantumCircuit(N, build.obj(CF))
    for o in TMP:
        out.append(np.asarray(hq.expectation(w.ob["vec"], c, [build.obj(o)], {})))
        e = np.asarray(hq.expectation(w.ob["vec"], c, [build.obj(o)], {}, n_shots=200, key=jax.random.PRNGKey(4)))
        # estimates of an observable with eigenvalues +1, -1: 200 shots resolve the wrong observable
        out.append(np.where(np.abs(e - out[-1]) < 0.5, out[-1], e))
    for k in range(2):
        e = np.asarray(hq.expectation(w.ob["vec"], c, w.ob["obs"][1:2], {}, n_shots=200, key=jax.random.PRNGKey(4)))
        out.append(np.where(np.abs(e - np.asarray(hq.expectation(w.ob["vec"], c, w.ob["obs"][1:2], {}))) < 0.5, 0.0, e))
    return np.concatenate(out)


def _m_tmpobs(w):
    e = [ref.expectation_jet(CF, o, {}, {}, ref.outer(w.psi), N, [], [], 0)[((), ())] for o in TMP]
    return np.concatenate([np.repeat(e, 2), np.zeros(2)])


def _m_misc(w):
    p, q = w.psi, ref.generic_vec(N, w.seed, 41)
    return np.concatenate([ref.outer(p).ravel(), [abs(np.vdot(p, q)) ** 2, 1.0, 0.0]])


def _m_tens(w):
    v = w.values()
    return np.concatenate([ref.gate_matrix(G("RY", [1], [0], "a"), v, 3).ravel(), ref.matrix(S(*w.c1()), v, N).ravel(), ref.matrix(OBS[0], v, N).ravel()])


def _counter(c):
    return np.array([c.get(format(i, "02b"), 0) for i in range(4)], float)


V2 = {"a": 0.25, "w": -0.4, "b": -1.3}
D = hq.DiffMode
K = lambda i: jax.random.PRNGKey(i)
# name -> (call, model or None (None: the first answer in a fresh world is the reference), tolerance)
OPS = {
    "run": (lambda w: _np(hq.run(w.ob["c1"], w.ob["vec"], w.ob["v"])), lambda w: ref.run_vec(w.c1(), w.values(), w.psi, N)),
    "run_v2": (lambda w: _np(hq.run(w.ob["c1"], w.ob["vec"], w.ob["v2"])), lambda w: ref.run_vec(w.c1(), V2, w.psi, N)),
    "run_vc": (lambda w: _np(hq.run(w.ob["c1"], w.ob["vec"], w.ob["vc"])), lambda w: ref.run_vec(w.c1(), dict(zip("ab", gen.rnd(3, 0.3, 2.6, 130))), w.psi, N)),
    "run_st2": (lambda w: _np(hq.run(w.ob["c1"], w.ob["vec2"], w.ob["v"])), lambda w: ref.run_vec(w.c1(), w.values(), ref.generic_vec(N, w.seed, 41), N)),
    "run_c2": (lambda w: _np(w.ob["c2"](w.ob["vec"], w.ob["v"])), lambda w: ref.run_vec(C2, w.values(), w.psi, N)),
    "run_dm": (lambda w: _np(hq.run(w.ob["c1"], w.ob["dm"], w.ob["v"])), lambda w: ref.run_dm(w.c1(), w.values(), w.rho, N)),
    "noisy": (lambda w: _np(hq.run(w.ob["noisy"], w.ob["vec"], w.ob["v"])), lambda w: ref.run_dm(NOISY, w.values(), ref.outer(w.psi), N)),
    "noisy_dm": (lambda w: _np(hq.run(w.ob["noisy"], w.ob["dm"], w.ob["v2"])), lambda w: ref.run_dm(NOISY, V2, w.rho, N)),
    "evolve": (lambda w: _np(hq.run(w.ob["ch"], w.ob["vec"], w.ob["vh"])), lambda w: ref.run_vec([G("HEVO", [1, 0]), G("RY", [0], p="a")], {"hamiltonian": HAM, "time_evolution": 0.6, "a": gen.rnd(3, 0.3, 2.6, 130)[0]}, w.psi, N)),
    "group": (lambda w: _np(hq.apply_gates(w.ob["vec"], w.ob["gates"], w.ob["v"], group_gates=True)), lambda w: ref.run_vec(GATES, w.values(), w.psi, N)),
    "nomerge": (lambda w: _np(hq.apply_gates(w.ob["dm"], w.ob["gates"], w.ob["v"], merge_ops=False)), lambda w: ref.run_dm(GATES, w.values(), w.rho, N)),
    "groupdm": (lambda w: _np(hq.apply_gates(w.ob["dm"], w.ob["gates"], w.ob["v2"], group_gates=True)), lambda w: ref.run_dm(GATES, V2, w.rho, N)),
    "temp": (_tmp, lambda w: np.concatenate([ref.run_vec(GATES[k:] + [G("RY", [1], [0], "a")], V2, w.psi, N) for k in (1, 2)])),
    "misc": (_misc, _m_misc),
    "tmpobs": (_tmpobs, _m_tmpobs),
    "tensor": (_tens, _m_tens),
    "sample": (lambda w: _counter(hq.sample(w.ob["vec"], w.ob["c1"], w.ob["v"], 25)), None),
    "sample_dm": (lambda w: _counter(hq.sample(w.ob["dm"], w.ob["noisy"], w.ob["v2"], 25)), None),
    "ad": (lambda w: ex(w, "c1", w.ob["obs"], w.ob["v"]), lambda w: jets(w.c1(), w.obs(), w.values(), ref.outer(w.psi))[0]),
    "ad_rev": (lambda w: ex(w, "c2", w.ob["obs"][::-1], w.ob["v"], st="dm"), lambda w: jets(C2, w.obs()[::-1], w.values(), w.rho)[0]),
    "ad_v2": (lambda w: ex(w, "c2", w.ob["obs"], w.ob["v2"], st="dm"), lambda w: jets(C2, w.obs(), V2, w.rho)[0]),
    "adj": (lambda w: ex(w, "c1", w.ob["obs"], w.ob["v2"], D.ADJOINT), lambda w: jets(w.c1(), w.obs(), V2, ref.outer(w.psi))[0]),
    "gpsr": (lambda w: ex(w, "noisy", w.ob["obs"], w.ob["v"], D.GPSR), lambda w: jets(NOISY, w.obs(), w.values(), ref.outer(w.psi))[0]),
    "nested": (lambda w: ex(w, "c2", w.ob["obs"], w.ob["nested"]), lambda w: jets(C2, w.obs(), {**w.values(), "a": gen.rnd(3, 0.3, 2.6, 130)[0]}, ref.outer(w.psi))[0]),
    "nest_e": (lambda w: ex(w, w.ob["cf"], w.ob["obs"][:1], w.ob["nest_e"]), lambda w: jets(CF, OBS[:1], {"w": -0.8}, ref.outer(w.psi))[0]),
    "nest_o": (lambda w: ex(w, "c2", w.ob["obs"][1:], w.ob["nest_o"]), lambda w: jets(C2, w.obs()[1:], {"a": 1.1, "b": -0.6}, ref.outer(w.psi))[0]),
    "novals": (lambda w: np.concatenate([_np(hq.run(w.ob["cf"], w.ob["vec"])), np.asarray(hq.expectation(w.ob["vec"], w.ob["cf"], w.ob["obs"][1:]))]), lambda w: np.concatenate([ref.run_vec(CF, {}, w.psi, N), jets(CF, w.obs()[1:], {}, ref.outer(w.psi))[0]])),
    "states": (_states, _m_states),
    "kraus": (_kraus, _m_kraus),
    "shots": (lambda w: ex(w, "c1", w.ob["obs"], w.ob["v"], n_shots=40, key=K(1)), None),
    "shots_k": (lambda w: ex(w, "c2", w.ob["obs"][::-1], w.ob["v"], D.GPSR, n_shots=40, key=K(7)), None),
    "sparse": (lambda w: np.concatenate([_np(hq.run(w.ob["csp"], w.ob["sp"], w.ob["v"])), ex(w, "csp", w.ob["osp"], w.ob["v"], st="sp")]), lambda w: np.concatenate([ref.run_vec(C2, w.values(), w.psi, N), jets(C2, OBS[:2], w.values(), ref.outer(w.psi))[0]])),
    "conv": (_conv, lambda w: np.stack([ref.matrix(S(*w.c1()), w.values(), N).ravel(), ref.matrix(S(*C2), w.values(), N).ravel()])),
    "jit": (_jit, lambda w: ref.run_vec(w.c1(), w.values(), w.psi, N)),
    "vmap": (_vmap, lambda w: np.concatenate([ref.run_vec(C2, {"a": x, "b": 0.2}, w.psi, N) for x in (0.1, -0.7)])),
    "g_ad": (lambda w: jac(w, "c1", w.ob["obs"], D.AD), lambda w: np.array([jets(w.c1(), w.obs(), w.values(), ref.outer(w.psi))[1][k] for k in WRT])),
    "g_adj": (lambda w: jac(w, "c2", w.ob["obs"], D.ADJOINT), lambda w: np.array([jets(C2, w.obs(), w.values(), ref.outer(w.psi))[1][k] for k in WRT])),
    "g_gpsr": (lambda w: jac(w, "c1", w.ob["obs"], D.GPSR), lambda w: np.array([jets(w.c1(), w.obs(), w.values(), ref.outer(w.psi))[1][k] for k in WRT])),
    "g_gpsr2": (lambda w: jac(w, "noisy", w.ob["obs"], D.GPSR, "dm"), lambda w: np.array([jets(NOISY, w.obs(), w.values(), w.rho)[1][k] for k in WRT])),
    "bwd": (_bwd, lambda w: np.array([jets(w.c1(), w.obs()[1:], w.values(), ref.outer(w.psi))[1][k].sum() for k in ("b", "a")])),
    "fbwd": (_fbwd, None),
}
CHEAP = ["run", "run_v2", "run_vc", "run_c2", "run_dm", "noisy", "group", "nomerge", "temp", "misc", "tensor", "ad", "ad_rev", "ad_v2", "adj", "gpsr", "nested", "nest_e", "nest_o", "novals", "states", "kraus", "run_st2", "evolve", "groupdm"]
HEAVY = [o for o in OPS if o not in CHEAP]


def _grad_missing(w):
    v = {k: jnp.asarray(x) for k, x in w.ob["vc"].items() if k != "b"}
    return jax.jacrev(lambda v: hq.expectation(w.ob["vec"], w.ob["c1"], w.ob["obs"][1:], v, diff_mode=D.GPSR))(v)


# calls that must raise
FAILS = {
    "f_missing": lambda w: hq.run(w.ob["c1"], w.ob["vec"], {"a": 0.3}),
    "f_missing_obs": lambda w: hq.expectation(w.ob["vec"], w.ob["c1"], w.ob["obs"], w.ob["vc"]),
    "f_none": lambda w: hq.expectation(w.ob["vec"], w.ob["cf"], w.ob["obs"]),
    "f_empty": lambda w: hq.expectation(w.ob["vec"], w.ob["c2"], w.ob["obs"][1:], {}),
    "f_run_none": lambda w: hq.run(w.ob["c2"], w.ob["vec"]),
    "f_sample0": lambda w: hq.sample(w.ob["vec"], w.ob["c1"], w.ob["v"], 0),
    "f_negshots": lambda w: hq.expectation(w.ob["vec"], w.ob["c1"], w.ob["obs"], w.ob["v"], n_shots=-2),
    "f_adjdm": lambda w: hq.expectation(w.ob["dm"], w.ob["c1"], w.ob["obs"], w.ob["v"], diff_mode=D.ADJOINT),
    "f_mode": lambda w: hq.expectation(w.ob["vec"], w.ob["c1"], w.ob["obs"], w.ob["v"], diff_mode="nope"),
    "f_support": lambda w: w.ob["obs"][0].tensor(w.ob["v"], (1, 2)),
    "f_spnoise": lambda w: hq.apply_gates(w.ob["sp"], build.gate(G("X", [0], n=[("BitFlip", 0.1)]), sparse=True), {}),
    "f_grad": _grad_missing,
    "f_qubit": lambda w: hq.run(hq.QuantumCircuit(5, [w.ob["single"], build.gate(G("X", [4]))]), w.ob["vec"], w.ob["v"]),
}
