"""Gradients in the automatic and adjoint modes.  Circuits are templates with k angle slots; every set partition
of the slots into shared names (and fixed numbers) is enumerated, for state vectors, mixed density matrices and
noisy templates, with flat and separate parameter values, values that nothing uses, and names shared between
circuit and observables.  The Jacobian returned by jax on the real code is compared with the exact product-rule
derivative of the model (jets); Hessians and jit-compiled evaluation on sub-families."""
from __future__ import annotations

import itertools

import numpy as np

from .. import gen, ref
from .c07 import A, G, LEAF, M, O, S

PROPERTY = "C08"
ASSUMPTIONS = ["derivatives are compared at 2 (quick) or 4 parameter points, one with zeros", "tolerance 1e-9",
               "gradients through sparse arrays are not supported by the library (they raise) and not claimed"]
SL = "SLOT"
T = {  # angle slots are the gates with p == SLOT
    "one": (1, [G("RX", [0], p=SL), G("RY", [0], p=SL), G("PHASE", [0], p=SL)]),
    "rot2": (2, [G("RX", [0], p=SL), G("X", [1], [0]), G("RY", [1], p=SL), G("RZ", [0], p=SL), G("H", [0])]),
    "ctrl2": (2, [G("H", [0]), G("RX", [1], [0], SL), G("RY", [0], p=SL), G("PHASE", [1], [0], SL), G("H", [1])]),
    "ctrl3": (3, [G("H", [2]), G("RY", [0], [2, 1], SL), G("RX", [1], p=SL), G("RZ", [2], [0], SL), G("ISWAP", [2, 0])]),
    "same": (2, [G("RX", [0], p=SL), G("RY", [0], p=SL), G("RX", [0], p=SL), G("X", [1], [0])]),
    "nest": (2, [S(G("RX", [0], p=SL), S(G("X", [1], [0]))), dict(k="qc", nq=2, ops=[G("RY", [1], p=SL), G("PHASE", [0], p=SL)])]),
    "noisy": (2, [G("RX", [0], p=SL, n=[("AmplitudeDamping", 0.3)]), G("RY", [1], [0], SL, [("BitFlip", 0.1)]), G("X", [0], [1], n=[("Depolarizing", 0.2)]), G("RX", [1], p=SL)]),
    "four": (2, [G("RY", [0], p=SL), G("RX", [1], p=SL), G("X", [0], [1]), G("RY", [1], [0], SL), G("RZ", [0], p=SL)]),
    "shift": (2, [dict(G("RX", [0], p=SL), s=0.7), G("X", [1], [0]), G("RY", [0], p=SL), dict(G("PHASE", [1], [0], SL), s=-0.4), G("H", [1])]),
    "evo": (3, [G("RX", [0], p=SL), G("HEVO", [2, 0]), G("RY", [1], [0], SL), G("HEVO", [0, 1], [2])]),
}
HAM = np.array([[1, 0.5 - 0.2j, 0, 0.1], [0.5 + 0.2j, -1, 0.3, 0.4j], [0, 0.3, 2, 1j], [0.1, -0.4j, -1j, 0.4]])
TE = "time_evolution"
OBS = {
    "plain": [O(S(LEAF[2], LEAF[1])), O(LEAF[3], LEAF[0])],
    "par": [O(M("w", A(LEAF[0], LEAF[3]))), O(M("v", LEAF[2]), M("w", S(LEAF[0], LEAF[1])))],
    "shared": [O(M("a", LEAF[3]), LEAF[0]), O(M("w", M("a", LEAF[2])))],
    "num": [O(M(-0.7, A(LEAF[0], LEAF[3])), LEAF[1]), O(M(2.5, M(-1.5, LEAF[2]))), O(M(0.0, LEAF[3])), O(M(-3.0, S(LEAF[1], LEAF[0])))],
}
OBS1 = {
    "plain": [O(G("Z", [0])), O(G("X", [0]), G("Y", [0]))],
    "par": [O(M("w", A(G("X", [0]), G("Z", [0])))), O(M("v", G("Y", [0])))],
    "shared": [O(M("a", G("X", [0])), G("Z", [0]))],
    "num": [O(M(-0.7, A(G("X", [0]), G("Z", [0])))), O(M(2.5, M(-1.5, G("Y", [0]))))],
}
# names which sort differently by text and by number, which extend each other, or which look like reserved words
NM = [
    {},
    dict(a="p10", b="p9", c="p1", d="p", w="p11", v="p0", zz="p100"),
    dict(a="circuits", b="observable", c="value", d="param", w="theta", v="thet", zz="Theta"),
]


def rename(d, nm):
    if isinstance(d, (list, tuple)):
        return type(d)(rename(x, nm) for x in d)
    if not isinstance(d, dict):
        return d
    return {k: nm.get(x, x) if k == "p" and isinstance(x, str) else rename(x, nm) if k == "ops" else x for k, x in d.items()}


def partitions(k):
    """Restricted growth strings; -1 = fixed number."""

    def rec(prefix, mx):
        if len(prefix) == k:
            yield list(prefix)
            return
        for v in range(-1, mx + 2):
            yield from rec(prefix + [v], max(mx, v))

    return list(rec([], -1))


def slots(d):
    if isinstance(d, list):
        return sum(slots(x) for x in d)
    if "g" in d:
        return int(d["p"] == SL)
    return slots(d["ops"])


def fill(d, ps):
    if isinstance(d, list):
        return [fill(x, ps) for x in d]
    if "g" in d:
        return dict(d, p=ps.pop(0)) if d["p"] == SL else d
    return dict(d, ops=[fill(x, ps) for x in d["ops"]])


def bounds(tier):
    return dict(templates=list(T), sharing="all set partitions of the slots, with and without fixed numbers (the template with evolutions, quick tier: three of seven)",
                observables=list(OBS), names="three alphabets (text order against number order, names extending each other, near-reserved words)", states=["vector", "mixed dm"], modes=["AD", "ADJOINT"], layouts=["flat", "separate"],
                hessians="all partitions of one template per kind" if tier == "quick" else "all", points=2 if tier == "quick" else 4)


def units(tier):
    us = []
    for t, (n, d) in T.items():
        k = slots(d)
        for part in partitions(k):
            if tier == "quick" and (k >= 4 and -1 in part or t == "evo" and part not in ([0, 0], [0, 1], [-1, 0])):
                continue
            cs = []
            for ob in OBS:
                for sk in ("vec", "dm"):
                    for mode in ("AD", "ADJOINT"):
                        if mode == "ADJOINT" and (sk == "dm" or t == "noisy"):
                            continue
                        for layout in ("flat", "nested"):
                            if tier == "quick" and layout == "nested" and ob in ("plain", "num"):
                                continue
                            # quick: each combination appears with at least every third sharing pattern
                            i = len(us) + (sk == "dm")
                            if tier == "quick" and ob == "num" and (sk, mode) != (("vec", "AD"), ("vec", "ADJOINT"), ("dm", "AD"))[len(us) % 3]:
                                continue
                            if tier == "quick" and sk == "dm" and ob != "num" and (ob, layout) not in (("par", "flat"), ("shared", "nested"), ("plain", "flat"))[i % 3 : i % 3 + 1] + (() if k > 3 else (("par", "flat"),)):
                                continue
                            if tier == "quick" and k > 3 and ob != "num" and (ob, layout, mode) not in (("par", "flat", "AD"), ("shared", "nested", "ADJOINT"), ("par", "nested", "AD"), ("shared", "flat", "ADJOINT"))[2 * (i % 2) : 2 * (i % 2) + 2]:
                                continue
                            cs.append(dict(t=t, part=part, ob=ob, sk=sk, mode=mode, lay=layout, nm=(len(us) + len(cs)) % 3))
            us.append(cs)
    us.sort(key=lambda u: len(u[0]["part"]))
    return us


def run_case(case, ctx):
    import jax
    import jax.numpy as jnp
    from horqrux.utils.operator_utils import DiffMode as D

    from .. import build

    hq = build.hq
    n, tmpl = T[case["t"]]
    part = case["part"]
    fixed = gen.rnd(6, -2, 2, 40)
    evo = case["t"] == "evo"
    ps = [("abcd"[v] if v >= 0 else fixed[i]) for i, v in enumerate(part)]
    descs = fill(tmpl, list(ps))
    forms = (OBS1 if n == 1 else OBS)[case["ob"]]
    used_c = sorted({p for p in ps if isinstance(p, str)} | ({TE} if evo else set()))
    psi, rho0 = ref.generic_vec(n, ctx.seed, 5), ref.generic_dm(n, ctx.seed, 5)
    rho = ref.outer(psi) if case["sk"] == "vec" else rho0
    st = build.vec(psi, n) if case["sk"] == "vec" else build.dm(rho0, n)
    nm = NM[case.get("nm", 0)]
    nam = lambda k: nm.get(k, k)
    qc = hq.QuantumCircuit(n, build.obj(rename(descs, nm)))
    obs = build.obj(rename(forms, nm))
    mode = getattr(D, case["mode"])
    names_o = sorted({"w", "v"} if case["ob"] == "par" else {"a", "w"} if case["ob"] == "shared" else set())
    hess = ctx.tier == "thorough" or (case["ob"] == "par" and case["t"] in ("one", "rot2", "ctrl2", "noisy") and case["lay"] == "flat" and case["ob"] != "plain" and 0 in part and part.count(-1) < 2)
    points = [gen.rnd(8, -2, 2, 41)]
    points.append([0.0, np.pi / 2, 0.0, -np.pi, 1.0, 0.0, 0.4, 2.0])
    if ctx.tier != "quick":
        points += [gen.rnd(8, -5, 5, 42), gen.rnd(8, -1, 1, 43)]
    order = 2 if hess else 1
    thorough = ctx.tier == "thorough"
    if not thorough and not (case["lay"] == "flat" and case["ob"] == "par" and case["sk"] == "vec"):
        points = points[:1]
    out = lambda d: {nam(k): out(x) if isinstance(x, dict) else x for k, x in d.items()}
    ham = {"hamiltonian": jnp.asarray(HAM)} if evo else {}
    more = lambda v: dict(v, circuit=dict(v["circuit"], **ham)) if "circuit" in v else dict(v, **ham)
    f = lambda v: hq.expectation(st, qc, obs, more(out(v)), diff_mode=mode)
    for pi, pt in enumerate(points):
        if case["lay"] == "flat":
            allv = dict(zip("abcd", pt[:4]), **{TE: pt[7]})
            keys = sorted(set(used_c) | set(names_o) | {"zz"})
            vals = {k: (allv[k] if k in allv else {"w": pt[4], "v": pt[5], "zz": pt[6]}[k]) for k in keys}
            if pi % 2:
                vals = dict(reversed(list(vals.items())))
            vc = vo = dict(vals, hamiltonian=HAM)
            arg = {k: jnp.asarray(x) for k, x in vals.items()}
        else:
            vc = {k: x for k, x in zip("abcd", pt[:4]) if k in used_c}
            vc["zz"] = 0.7
            if evo:
                vc[TE] = pt[7]
            vo = {k: {"w": pt[4], "v": pt[5], "a": pt[7]}[k] for k in names_o}
            vo["zz"] = 0.2
            arg = {"circuit": {k: jnp.asarray(x) for k, x in vc.items()}, "observables": {k: jnp.asarray(x) for k, x in vo.items()}}
        jets = [ref.expectation_jet(descs, o, dict(vc, hamiltonian=HAM), vo, rho, n, used_c, names_o, order) for o in forms]
        want = np.array([j[((), ())] for j in jets])
        if thorough or pi == 1:
            ctx.close(np.asarray(f(arg)), want, "value", 1e-10)
        J = jax.jacrev(f)(arg)
        ctx.step()
        ctx.trace()
        d = lambda j, a, b: j.get((tuple(sorted(a)), tuple(sorted(b))), 0.0)
        if case["lay"] == "flat":
            for k in arg:
                w = np.array([d(j, [k], []) + d(j, [], [k]) for j in jets])
                ctx.close(np.asarray(J[k]), w, f"d/d{k} of {descs} with {forms}", 1e-9)
                ctx.visit(w, k)
        else:
            for k in arg["circuit"]:
                ctx.close(np.asarray(J["circuit"][k]), np.array([d(j, [k], []) for j in jets]), f"circuit gradient {k} of {descs} with {forms}", 1e-9)
            for k in arg["observables"]:
                ctx.close(np.asarray(J["observables"][k]), np.array([d(j, [], [k]) for j in jets]), f"observable gradient {k} of {descs} with {forms}", 1e-9)
            ctx.visit(want)
        if pi == 0 and (thorough or case["ob"] == "shared"):
            g = jax.grad(lambda v: f(v).sum())(arg)
            jax.tree_util.tree_map(lambda x, y: ctx.close(np.asarray(x), np.asarray(y).sum(0), "grad of the sum", 1e-9), g, J)
            ctx.trace()
        if pi == 0:
            if case["ob"] == "par" and case["lay"] == "flat" and (thorough or -1 not in part and case["t"] in ("one", "ctrl2", "noisy", "ctrl3", "evo")):
                Jj = jax.jit(jax.jacrev(f))(arg)
                for k in arg:
                    ctx.close(np.asarray(Jj[k]), np.asarray(J[k]), f"jit gradient {k}", 1e-9)
                Jf = jax.jacfwd(f)(arg)
                for k in arg:
                    ctx.close(np.asarray(Jf[k]), np.asarray(J[k]), f"forward-mode gradient {k}", 1e-9)
                ctx.trace(2)
        if hess and case["lay"] == "flat" and pi == 0:
            H = jax.hessian(f)(arg)
            for k1, k2 in itertools.product(arg, repeat=2):
                w = np.array([d(j, [k1, k2], []) + d(j, [k1], [k2]) + d(j, [k2], [k1]) + d(j, [], [k1, k2]) for j in jets])
                ctx.close(np.asarray(H[k1][k2]), w, f"d2/d{k1}d{k2} of {descs} with {forms}", 1e-8)
            ctx.trace()
            ctx.count("hessians")
