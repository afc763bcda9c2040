"""Parameter-shift gradients without shots.  Same template x sharing-pattern space as C08 (rotation and phase
gates, controlled, nested, noisy, fixed angles), for the differentiable forward function (through
expectation(diff_mode=GPSR) and jax.jacrev / jax.jvp) and the dedicated backward function, on state vectors and
mixed density matrices, with values that only observables or nobody uses, in several key orders.  Every
derivative with respect to a circuit parameter is compared with the exact product-rule derivative of the model;
second derivatives on a sub-family."""
from __future__ import annotations

import itertools

import numpy as np

from .. import gen, ref
from .c07 import A, G, LEAF, M, O, S
from .c08 import OBS, OBS1, SL, fill, partitions, slots

PROPERTY = "C09"
ASSUMPTIONS = ["derivatives with respect to observable parameters are not claimed in this mode", "tolerance 1e-8 (fixed shifts, double precision)"]
T = {
    "one": (1, [G("RX", [0], p=SL), G("RY", [0], p=SL), G("PHASE", [0], p=SL)]),
    "phase": (2, [G("H", [0]), G("PHASE", [0], p=SL), G("H", [0]), G("PHASE", [1], [0], SL), G("RX", [1], p=SL)]),
    "rot2": (2, [G("RX", [0], p=SL), G("X", [1], [0]), G("RY", [1], p=SL), G("RZ", [0], p=SL), G("H", [0])]),
    "ctrl2": (2, [G("H", [0]), G("RX", [1], [0], SL), G("RY", [0], p=SL), G("RZ", [0], [1], SL), G("H", [1])]),
    "ctrl3": (3, [G("H", [2]), G("H", [1]), G("RY", [0], [2, 1], SL), G("RX", [1], p=SL), G("RZ", [2], [0], SL), G("ISWAP", [2, 0])]),
    "same": (2, [G("RX", [0], p=SL), G("RY", [0], p=SL), G("RX", [0], p=SL), G("X", [1], [0])]),
    "twice": (2, [G("RY", [0], p=SL), G("RY", [0], p=SL), G("X", [1], [0]), G("RY", [0], p=SL)]),
    "nest": (2, [S(G("RX", [0], p=SL), S(G("X", [1], [0]))), dict(k="qc", nq=2, ops=[G("RY", [1], p=SL), G("PHASE", [0], p=SL)])]),
    "noisy": (2, [G("RX", [0], p=SL, n=[("AmplitudeDamping", 0.3)]), G("RY", [1], [0], SL, [("BitFlip", 0.1)]), G("RX", [1], p=SL)]),
    "four": (2, [G("RY", [0], p=SL), G("RX", [1], p=SL), G("X", [0], [1]), G("RY", [1], [0], SL), G("RX", [0], p=SL)]),
}
T["shift"] = (2, [dict(G("RX", [0], p=SL), s=0.7), G("X", [1], [0]), G("RY", [0], p=SL), dict(G("PHASE", [1], [0], SL), s=-0.4), G("H", [1])])
MANY = (2, [G(("RX", "RY", "RZ")[i % 3], [i % 2] if i % 4 else [1 - i % 2], p=SL) for i in range(12)])
# names which sort differently by text and by number, or which extend each other
NAMES = [
    dict(zip("abcdefghijkl", "abcdefghijkl"), w="w", v="v", zz="zz"),
    dict({c: f"p{i}" for c, i in zip("abcdefghijkl", (10, 2, 1, 0, 3, 9, 5, 11, 7, 8, 6, 4))}, w="p12", v="p", zz="p100"),
    dict(zip("abcdefghijkl", ("a", "a1", "a0", "a_1", "b", "b3", "A", "a 1", "1", "", "param", "values")), w="a2", v="a3", zz="a00"),
]
SINGLE = [G("RX", [0], p="a"), G("RY", [1], [0], "a"), G("PHASE", [0], [1], "a"), G("RZ", [0], [1], "a"), G("RY", [0], p="a", n=[("BitFlip", 0.2)])]


ABC = "abcdefghijkl"


def rename(d, names):
    if isinstance(d, list):
        return [rename(x, names) for x in d]
    if not isinstance(d, dict):
        return d
    return {k: names[x] if k == "p" and isinstance(x, str) else rename(x, names) if k == "ops" else x for k, x in d.items()}


def bounds(tier):
    return dict(templates=list(T), sharing="all set partitions of the slots, with and without fixed numbers", routes=["jacrev of expectation(GPSR)", "jvp", "analytical_gpsr_bwd"],
                states=["vector", "mixed dm"], extra_names=["observable only", "unused"], key_orders=2, names="three alphabets (text order differs from number order; names that extend each other)", many="12 gates", number_kinds=list(gen.KINDS))


def units(tier):
    us = []
    for ti, (t, (n, d)) in enumerate(T.items()):
        k = slots(d)
        for i, part in enumerate(partitions(k)):
            if tier == "quick" and -1 in part and (k >= 4 or t in ("twice", "same", "shift") and i % 2):
                continue
            if all(p < 0 for p in part):
                continue
            cs = []
            for j, (sk, route, ob, keys) in enumerate(itertools.product(("vec", "dm"), ("fwd", "bwd"), ("plain", "par"), ("used", "extra"))):
                if tier == "quick":
                    # rotate through the combinations so that each meets every sharing structure
                    want = {("vec", "fwd"): ("par", "extra") if i % 2 else ("plain", "used"), ("vec", "bwd"): ("plain", "extra") if i % 2 else ("par", "extra"),
                            ("dm", "fwd"): ("par", "extra"), ("dm", "bwd"): ("plain", "used")}[sk, route]
                    if (ob, keys) != want or (sk == "dm" and (i + (route == "fwd")) % (4 if route == "bwd" or k > 3 else 2)):
                        continue
                cs.append(dict(t=t, part=part, ob=ob, sk=sk, route=route, keys=keys, nm=(i + ti + j) % 3))
            us.append(cs)
    us.append([dict(single=i, sk=sk) for i in range(len(SINGLE)) for sk in ("vec", "dm")])
    for t, part in [("one", [0, 1, 0]), ("rot2", [0, 1, 2]), ("rot2", [0, 0, 1]), ("ctrl2", [0, 1, 0]), ("noisy", [0, 1, 1]), ("phase", [0, 0, -1])]:
        us.append([dict(t=t, part=part, ob="par", sk="vec", route="hess", keys="used")])
    for part in (list(range(12)), [0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5], [0] * 12, [11, 3, 3, 1, -1, 2, 2, 2, 8, 9, 10, 7]):
        for nm in (0, 1, 2) if tier != "quick" else (1,):
            us += [[dict(t="many", part=part, ob=ob, sk="vec", route=route, keys="extra", nm=nm)] for route, ob in (("fwd", "plain"), ("bwd", "par"))]
    us += gen.chunks([dict(num=k, t=t, part=part, sk=sk) for k in gen.KINDS for t, part in (("one", [0, 1, 2]), ("one", [0, 1, 0]), ("ctrl2", [0, 0, 1])) for sk in (("vec",) if tier == "quick" else ("vec", "dm"))], 6)
    us.sort(key=lambda u: len(u[0].get("part", [])))
    return us


def run_case(case, ctx):
    import jax
    import jax.numpy as jnp
    from horqrux.differentiation.gpsr import analytical_gpsr_bwd
    from horqrux.utils.operator_utils import DiffMode as D

    from .. import build

    hq = build.hq
    if "num" in case:
        return num(case, ctx, build, D)
    names = NAMES[case.get("nm", 0)]
    if "single" in case:
        n, descs, part = 2, [SINGLE[case["single"]]], [0]
        case = dict(case, ob="plain", keys="extra", route="bwd", t="single")
    else:
        n, tmpl = T.get(case["t"], MANY)
        part = case["part"]
        fixed = gen.rnd(12, -2, 2, 50)
        descs = fill(tmpl, [(ABC[v] if v >= 0 else fixed[i]) for i, v in enumerate(part)])
    used = sorted({ABC[v] for v in part if v >= 0})
    if "single" in case:
        used = ["a"]
    forms = (OBS1 if n == 1 else OBS)[case["ob"]]
    psi, rho0 = ref.generic_vec(n, ctx.seed, 6), ref.generic_dm(n, ctx.seed, 6)
    rho = ref.outer(psi) if case["sk"] == "vec" else rho0
    st = build.vec(psi, n) if case["sk"] == "vec" else build.dm(rho0, n)
    pt = gen.rnd(8, -2.5, 2.5, 51)
    vals = dict(zip(ABC, pt[:4] + gen.rnd(8, -2.5, 2.5, 52)))
    vals = {k: vals[k] for k in used}
    if case["ob"] == "par":
        vals = {"w": pt[4], **vals, "v": pt[5]}
    if case["keys"] == "extra":
        vals = {"zz": pt[6], **dict(reversed(list(vals.items())))}
    # every name is replaced at once, in the program and in the values
    descs, forms = rename(descs, names), rename(forms, names)
    used, vals = [names[k] for k in used], {names[k]: x for k, x in vals.items()}
    zz = names["zz"]
    qc = hq.QuantumCircuit(n, build.obj(descs))
    obs = build.obj(forms)
    arg = {k: jnp.asarray(x) for k, x in vals.items()}
    order = 2 if case["route"] == "hess" else 1
    jets = [ref.expectation_jet(descs, o, vals, vals, rho, n, used, [], order) for o in forms]
    ctx.visit([j[((), ())] for j in jets])
    want = {k: np.array([j.get(((k,), ()), 0.0) for j in jets]) for k in used}
    if case["keys"] == "extra":
        want[zz] = np.zeros(len(forms))
    f = lambda v: hq.expectation(st, qc, obs, v, diff_mode=D.GPSR)
    ctx.step(len(want))
    if case["route"] == "bwd":
        gates = build.gate(descs[0]) if "single" in case else list(iter(qc))
        got = np.asarray(analytical_gpsr_bwd(st, gates, obs, arg))
        ctx.check(got.shape == (len(arg),), f"backward gradient has shape {got.shape} for {len(arg)} parameters")
        for i, k in enumerate(arg):
            if k in want:
                ctx.close(got[i], want[k].sum(), f"backward gradient {k} of {descs} with {forms}", 1e-8)
        ctx.trace()
        if "single" in case:
            J = jax.jacrev(f)(arg)
            for k in want:
                ctx.close(np.asarray(J[k]), want[k], f"forward gradient {k} of {descs}", 1e-8)
            ctx.trace()
    elif case["route"] == "fwd":
        J = jax.jacrev(f)(arg)
        for k in want:
            ctx.close(np.asarray(J[k]), want[k], f"forward gradient {k} of {descs} with {forms}", 1e-8)
        ctx.close(np.asarray(f(arg)), np.array([j[((), ())] for j in jets]), "value", 1e-9)
        ctx.trace(2)
        if case["sk"] == "vec" and part[-1] <= 0:
            tang = {k: jnp.asarray(0.3 + 0.7 * i if k in want else 0.0) for i, k in enumerate(arg)}
            out, dot = jax.jvp(f, (arg,), (tang,))
            ctx.close(np.asarray(dot), sum(np.asarray(tang[k]) * want[k] for k in want), f"jvp of {descs}", 1e-8)
            ctx.close(np.asarray(out), np.array([j[((), ())] for j in jets]), "jvp value", 1e-9)
            ctx.trace()
    else:
        H = jax.hessian(lambda v: f(v)[0] + 2 * f(v)[-1])(arg)
        for k1, k2 in itertools.product(used, repeat=2):
            d = [j.get((tuple(sorted((k1, k2))), ()), 0.0) for j in jets]
            ctx.close(np.asarray(H[k1][k2]), d[0] + 2 * d[-1], f"d2/d{k1}d{k2} of {descs}", 1e-7)
        ctx.trace()
        ctx.count("hessians")


def num(case, ctx, build, D):
    """Values given as integers, numpy or jax numbers of any precision."""
    import jax
    from horqrux.differentiation.gpsr import analytical_gpsr_bwd

    hq, kind = build.hq, case["num"]
    tol = gen.KIND_TOL.get(kind, 1e-9) * 20
    n, tmpl = T[case["t"]]
    descs = fill(tmpl, [ABC[v] for v in case["part"]])
    used = sorted({ABC[v] for v in case["part"]})
    xs = gen.kind_values(kind)
    psi, rho0 = ref.generic_vec(n, ctx.seed, 6), ref.generic_dm(n, ctx.seed, 6)
    rho = ref.outer(psi) if case["sk"] == "vec" else rho0
    st = build.vec(psi, n) if case["sk"] == "vec" else build.dm(rho0, n)
    forms = (OBS1 if n == 1 else OBS)["par"]
    obs, qc = build.obj(forms), hq.QuantumCircuit(n, build.obj(descs))
    for i in range(len(xs)):
        vals = {k: float(xs[(i + j) % len(xs)]) for j, k in enumerate(used + ["w", "v"])}
        v = {k: gen.number(kind, x) for k, x in vals.items()}
        jets = [ref.expectation_jet(descs, o, vals, vals, rho, n, used, [], 1) for o in forms]
        want = {k: np.array([j.get(((k,), ()), 0.0) for j in jets]) for k in used}
        ctx.visit([j[((), ())] for j in jets])
        got = np.asarray(analytical_gpsr_bwd(st, list(iter(qc)), obs, v))
        for j, k in enumerate(v):
            if k in want:
                ctx.close(got[j], want[k].sum(), f"backward gradient {k} of {descs} at {kind} values {vals}", tol)
        f = lambda w: hq.expectation(st, qc, obs, w, diff_mode=D.GPSR)
        ctx.close(np.asarray(f(v)), np.array([j[((), ())] for j in jets]), f"value of {descs} at {kind} values {vals}", tol)
        ctx.trace(2)
        ctx.step()
        if i == 0 and kind in ("float32", "jf32", "float64", "arr0"):
            J = jax.jacrev(f)(v)
            for k in want:
                ctx.close(np.asarray(J[k]), want[k], f"forward gradient {k} of {descs} at {kind} values {vals}", tol)
            ctx.trace()
