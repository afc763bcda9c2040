"""Book-keeping.  (a) every circuit over an alphabet of gates with colliding parameter names, fixed angles, controls
and fixed gates up to the bound, in several nestings of sequences, circuits, sums and scalings, with every subset of
the names (and names nothing uses) as feature parameters; (b) every gate kind in every layout up to 5 qubit labels;
(c) every ansatz size n <= 6 and layers <= 4, with several rotation lists and prefixes; (d) every history of in-place edits (gates appended, replaced, removed, also in a nested
sequence; features changed) up to depth 3 (4), with everything read before and after each edit.  Reported names, counts,
supports and flat gate lists are compared with the descriptors; the ansatz is checked gate by gate and executed."""
from __future__ import annotations

import itertools

import numpy as np

from .. import fp as prints, gen, ref
from .c07 import A, G, M, S

PROPERTY = "C15"
ASSUMPTIONS = [
    "names of scale factors belong to observables; what circuits containing sums or scalings report for them is not claimed (their gates' names are)",
    "the ansatz on a single qubit (whose entangling gate would control itself) is not claimed",
    "the order of gates in the ansatz is checked only through: every layer rotates every qubit once, in the requested order of rotations",
]
ALPH = [
    G("RX", [0], p="a"), G("RY", [1], p="a"), G("RZ", [2], [0], "b"), G("PHASE", [1], p="c"), G("PHASE", [0], [2, 1], "a"), G("RX", [2], p=0.5), G("X", [0]),
    G("SWAP", [1, 2]), G("RY", [3], p="x_y"), G("PHASE", [0], p=1.5), G("RX", [1], p="b"), G("RZ", [0], p="a", n=[("BitFlip", 0.1)]), G("RY", [2], p="ab"), G("RX", [0], p="x"),
]
FPS = [[], ["a"], ["b"], ["a", "b"], ["zz"], ["a", "zz"], ["a", "b", "c", "x_y"], ["c", "a"], ["x"], ["ab"]]
GATES = ref.ONEQ + ref.TWOQ + ref.PARAM


def bounds(tier):
    return dict(alphabet=len(ALPH), depth=4 if tier == "quick" else 5, nestings=7, feature_sets=len(FPS), odd_names=ODD, gate_layouts="all within 5 labels", edits=EDITS, ansatz="n <= 6, layers <= 4, and (11, 2), (12, 11), (2, 12); 7 rotation lists")


def units(tier):
    us = gen.chunks([dict(kind="circ", w=w) for w in gen.words(ALPH, 0, 3 if tier == "quick" else 4)], 100)
    us += gen.chunks([dict(kind="gate", g=g, t=t, c=c) for g in GATES for t, c in gen.layouts(5, gen.n_targets(g), max_controls=3)], 1000)
    us += [[dict(kind="hea", n=n, l=l)] for n in range(2, 7 if tier == "quick" else 9) for l in range(0, 5)]
    us += [[dict(kind="hea", n=n, l=l)] for n, l in ((11, 2), (12, 11), (2, 12), (12, 13))]
    us.append([dict(kind="names", i=i, j=j) for i in range(len(ODD)) for j in range(i)])
    us += gen.chunks([dict(kind="edit", w=list(w)) for k in range(1, 4 if tier == "quick" else 5) for w in itertools.product(range(len(EDITS)), repeat=k)], 120)
    us.append([dict(kind="long", k=k) for k in (50, 300)])
    return us


def run_case(case, ctx):
    globals()["do_" + case["kind"]](case, ctx)


def do_gate(case, ctx):
    from .. import build

    name, t, c = case["g"], case["t"], case["c"]
    sup = sorted(t + c)
    for p in ("a", 0.5) if name in ref.PARAM else (None,):
        d = G(name, t, c, p)
        for o in (build.gate(d), build.gate(d, form="np"), build.gate(dict(d, n=[("BitFlip", 0.1)])), build.gate(d, sparse=True))[: 4 if len(c) < 2 else 2]:
            ctx.check(tuple(o.qubit_support) == tuple(sup), f"{d}: support {o.qubit_support}")
            ctx.check(o.n_qubits == len(sup), f"{d}: n_qubits {o.n_qubits}")
            ctx.check(bool(o.is_parametric) == isinstance(p, str), f"{d}: is_parametric {o.is_parametric}")
            ctx.check([prints.of(x) for x in o] == [prints.of(o)], f"{d}: iteration")
            ctx.check(tuple(o.target[0]) == tuple(t), f"{d}: target {o.target}")
            ctx.check(tuple(x for x in o.control[0]) == tuple(c) if c else o.control[0] is None or o.control[0] == (None,) or tuple(o.control) == (None,), f"{d}: control {o.control}")
            ctx.trace()
            ctx.step()
    ctx.visit_key((name, t, c))


def nestings(gs, n, hq, build):
    h = len(gs) // 2
    Q, Sq = hq.QuantumCircuit, build.OpSequence
    yield Q(n, gs), True
    yield Sq(gs), True
    yield Q(n, [Sq(gs[:h]), Sq(gs[h:])]), True
    yield Sq([Q(n, gs[:h], ["a"]), Sq([Sq(gs[h:])])]), True
    yield Q(n + 2, Sq(gs)), True
    if gs:
        yield Q(n, [gs[0], hq.Add(gs)] if len(gs) > 1 else [hq.Add(gs)]), False
        yield Q(n, [hq.Scale(gs[0], "s"), *gs]), False


def do_circ(case, ctx):
    from .. import build

    hq = build.hq
    ds = [ALPH[i] for i in case["w"]]
    gs = [build.gate(d) for d in ds]
    names = {d["p"] for d in ds if isinstance(d["p"], str)}
    sup = sorted(ref.support(dict(k="seq", ops=ds)))
    ctx.visit_key((sorted(names), sup))
    for i, (c, plain) in enumerate(nestings(gs, 4, hq, build)):
        got = set(c.param_names)
        ctx.check(len(list(c.param_names)) == len(got), f"{ds}, nesting {i}: repeated names {c.param_names}")
        ctx.check((got - {"s"}) == names and (plain <= (got == names)), f"{ds}, nesting {i}: parameters {got} instead of {names}")
        ctx.check(tuple(c.qubit_support) == tuple(sup), f"{ds}, nesting {i}: support {c.qubit_support} instead of {sup}")
        if plain:
            flat = list(iter(c))
            ctx.check(len(flat) == len(gs) and all(x is y or prints.of(x) == prints.of(y) for x, y in zip(flat, gs)), f"{ds}, nesting {i}: flat list {flat}")
            ctx.check(list(iter(c)) == flat, f"{ds}, nesting {i}: iterating twice")
            if not isinstance(c, hq.QuantumCircuit):
                ctx.check(c.n_vparams == len(names), f"{ds}, nesting {i}: {c.n_vparams} parameters instead of {len(names)}")
        ctx.trace()
        ctx.step()
    for fp in FPS:
        for c in (hq.QuantumCircuit(4, gs, list(fp)), hq.QuantumCircuit(7, [build.OpSequence(gs)], list(fp)), hq.QuantumCircuit(4, [hq.QuantumCircuit(4, gs, ["a"])], list(fp))):
            want = names - set(fp)
            ctx.check(set(c.vparams) == want and len(list(c.vparams)) == len(want), f"{ds}: variational parameters {c.vparams} with features {fp}, expected {want}")
            ctx.check(c.n_vparams == len(want), f"{ds}: {c.n_vparams} variational parameters with features {fp}, expected {len(want)}")
            ctx.check(set(c.param_names) == names, f"{ds}: parameters {c.param_names} with features {fp}")
            ctx.check(sorted(c.fparams) == sorted(fp), f"{ds}: features {c.fparams} instead of {fp}")
            ctx.check(c.n_qubits in (4, 7) and (c.n_qubits == 7) == (len(c.operations) == 1 and not isinstance(c.operations[0], hq.QuantumCircuit) and isinstance(c.operations[0], build.OpSequence)), f"register size {c.n_qubits}")
            ctx.trace()
    # without feature parameters everything is variational, and circuits do not share their default
    c1, c2 = hq.QuantumCircuit(4, gs), hq.QuantumCircuit(4, gs)
    ctx.check(set(c1.vparams) == names and c1.n_vparams == len(names), f"{ds}: no features")
    c1.fparams = list(c1.fparams) + ["a"]
    ctx.check(set(c2.vparams) == names, f"{ds}: features of one circuit changed another")
    ctx.trace(2)


ODD = ["a", "A", "a ", " a", "aa", "a_1", "", " ", "v_", "fparams", "\u03b8", "1", "1.0", "a,b", "None"]


def do_names(case, ctx):
    """Two parameters with names that are nearly the same, in circuits with every choice of feature parameters."""
    from .. import build

    hq = build.hq
    x, y = ODD[case["i"]], ODD[case["j"]]
    gs = build.obj([G("RX", [0], p=x), G("RY", [1], [0], y), G("PHASE", [1], p=x), G("RZ", [0], p=1.0)])
    for fp in ([], [x], [y], [x, y], [y, "zz", x], (x,)):
        for ops in (gs, [build.OpSequence(gs[:2]), *gs[2:]]):
            c = hq.QuantumCircuit(2, ops, fp)
            ctx.check(set(c.param_names) == {x, y}, f"parameters {c.param_names} of gates with {x!r} and {y!r}")
            ctx.check(set(c.vparams) == {x, y} - set(fp) and c.n_vparams == 2 - len({x, y} & set(fp)), f"variational parameters {c.vparams} ({c.n_vparams}) of {x!r} and {y!r} with features {fp!r}")
            ctx.check(list(c.fparams) == list(fp), f"features {c.fparams} instead of {fp}")
            ctx.trace()
            ctx.step()
    ctx.visit_key((x, y))


EDITS = ["append", "replace", "pop", "nested append", "nested pop", "feature", "no feature", "double", "rename"]


def do_edit(case, ctx):
    """Bookkeeping read before and after every step of a history of in-place edits, on a circuit, a circuit that
    contains it, and its sequence."""
    from .. import build

    hq = build.hq
    inner = [ALPH[1], ALPH[6]]
    top = [ALPH[0], None, ALPH[2]]  # None: the nested sequence
    seq = build.OpSequence(build.obj(inner))
    c = hq.QuantumCircuit(4, [build.gate(ALPH[0]), seq, build.gate(ALPH[2])], ["a"])
    outer = hq.QuantumCircuit(4, [c], ["b"])
    fp = ["a"]

    def read(what):
        flat = [y for x in top for y in (inner if x is None else [x])]
        names, sub = {d["p"] for d in flat if isinstance(d["p"], str)}, {d["p"] for d in inner if isinstance(d["p"], str)}
        for o, ds, ns, free in ((c, flat, names, names - set(fp)), (outer, flat, names, names - {"b"}), (seq, inner, sub, sub)):
            ctx.check(set(o.param_names) == ns, f"{what}: parameters {o.param_names} instead of {ns}")
            ctx.check(o.n_vparams == len(free), f"{what}: {o.n_vparams} variational parameters instead of {len(free)}")
            if o is not seq:
                ctx.check(set(o.vparams) == free, f"{what}: variational parameters {o.vparams} instead of {free}")
            ctx.check(tuple(o.qubit_support) == tuple(sorted(ref.support(dict(k="seq", ops=ds)))), f"{what}: support {o.qubit_support} of {ds}")
            it = list(iter(o))
            ctx.check(len(it) == len(ds) and all((g.qubit_support, getattr(g, "param", None)) == (tuple(sorted(d["t"] + d["c"])), d["p"]) for g, d in zip(it, ds)), f"{what}: flat list {it}")
        ctx.trace()
        return names, flat

    read("before the first edit")
    for i, e in enumerate(case["w"]):
        e = EDITS[e]
        if e == "append":
            top.append(ALPH[8]), c.operations.append(build.gate(ALPH[8]))
        elif e == "replace":
            top[0] = ALPH[5] if top[0] is ALPH[3] else ALPH[3]
            c.operations[0] = build.gate(top[0])
        elif e == "pop":
            if len(top) > 2:
                top.pop(), c.operations.pop()
        elif e == "nested append":
            inner.append(ALPH[10]), seq.operations.append(build.gate(ALPH[10]))
        elif e == "nested pop":
            if len(inner) > 1:
                inner.pop(0), seq.operations.pop(0)
        elif e == "feature":
            fp.append("c"), c.fparams.append("c")
        elif e == "no feature":
            fp, c.fparams = [], []
        elif e == "double":
            top.append(None), c.operations.append(seq)
        elif isinstance(top[0]["p"], str):
            # the angle of a gate in the circuit gets another name
            top[0] = dict(top[0], p="new")
            c.operations[0] = build.gate(top[0])
        names, flat = read(f"after {[EDITS[x] for x in case['w'][: i + 1]]}")
        ctx.step()
    ctx.visit_key((tuple(sorted(names)), len(flat), tuple(fp)))


def do_long(case, ctx):
    from .. import build

    hq = build.hq
    k = case["k"]
    ds = [dict(ALPH[i % len(ALPH)], p=f"n{i % 17}" if isinstance(ALPH[i % len(ALPH)]["p"], str) else ALPH[i % len(ALPH)]["p"]) for i in range(k)]
    names = {d["p"] for d in ds if isinstance(d["p"], str)}
    c = hq.QuantumCircuit(4, build.obj(ds), ["n0", "n3"])
    ctx.check(set(c.param_names) == names and c.n_vparams == len(names - {"n0", "n3"}), f"{k} gates: {c.param_names}")
    deep = build.OpSequence(build.obj(ds[:1]))
    for d in ds[1:]:
        deep = build.OpSequence([deep, build.gate(d)])
    ctx.check(set(deep.param_names) == names and len(list(iter(deep))) == k, f"deep nesting of {k} gates")
    ctx.trace(2)
    ctx.step(k)


def do_hea(case, ctx):
    from horqrux.circuit import hea

    from .. import build

    hq = build.hq
    n, layers = case["n"], case["l"]
    R = {"RX": hq.RX, "RY": hq.RY, "RZ": hq.RZ, "PHASE": hq.PHASE}
    kinds = {"X": "RX", "Y": "RY", "Z": "RZ"}
    for rots in (None, ["RX"], ["RZ", "RX"], ["RY", "RY"], ["RX", "RY", "RZ"], ["PHASE", "RX"], ["RZ", "RX", "RZ", "RY"]):
        for prefix in (None, "theta_"):
            kw = {}
            if rots:
                kw["rot_fns"] = [R[r] for r in rots]
            if prefix:
                kw["variational_param_prefix"] = prefix
            gates = hea(n, layers, **kw)
            want = rots or ["RX", "RY", "RX"]
            par = [g for g in gates if g.is_parametric]
            names = [g.param for g in par]
            ctx.check(len(names) == n * layers * len(want), f"hea({n},{layers},{rots}): {len(names)} rotations")
            ctx.check(len(set(names)) == len(names), f"hea({n},{layers},{rots}): repeated names")
            ctx.check(all(x.startswith(prefix or "v_") for x in names), f"hea({n},{layers},{rots}): names {names[:3]}")
            kind = lambda g: "PHASE" if type(g) is not type(hq.RX("a", 0)) else kinds[g.generator_name]
            for q in range(n):
                mine = [kind(g) for g in par if g.target[0] == (q,)]
                ctx.check(mine == want * layers, f"hea({n},{layers},{rots}): rotations {mine} on qubit {q}")
            # entangling gates: CNOTs between neighbours on the ring, every edge in every layer
            ent = [g for g in gates if not g.is_parametric]
            edges = {}
            for g in ent:
                ctx.check(g.generator_name == "X" and len(g.target[0]) == 1 and len(g.control[0]) == 1, f"hea: entangling gate {g!r}")
                t, c = g.target[0][0], g.control[0][0]
                ctx.check((t - c) % n in (1, n - 1), f"hea({n},{layers}): {g!r} does not connect neighbours")
                edges[frozenset((t, c))] = edges.get(frozenset((t, c)), 0) + 1
            pairs = {frozenset((i, (i + 1) % n)) for i in range(n)} if layers else set()
            ctx.check(set(edges) == pairs or (n > 2 and set(edges) == pairs - {frozenset((n - 1, 0))}), f"hea({n},{layers}): entangled pairs {set(edges)}")
            ctx.check(all(v >= layers for v in edges.values()), f"hea({n},{layers}): entangled pairs {edges}")
            # every layer entangles after it starts rotating: between two rotations of a qubit that belong to different layers there is an entangler
            for q in range(n):
                pos = [i for i, g in enumerate(gates) if g.is_parametric and g.target[0] == (q,)]
                for l in range(1, layers):
                    lo, hi = pos[l * len(want) - 1], pos[l * len(want)]
                    ctx.check(any(not g.is_parametric and q in g.target[0] + g.control[0] for g in gates[lo:hi]), f"hea({n},{layers}): no entangling gate on qubit {q} between layers")
            fresh = hea(n, layers, **kw)
            ctx.check(not layers or not ({g.param for g in fresh if g.is_parametric} & set(names)), "two ansaetze share names")
            c = hq.QuantumCircuit(n, list(gates))
            ctx.check(c.n_vparams == len(names) and set(c.vparams) == set(names), "parameters of the ansatz circuit")
            ctx.visit_key((n, layers, rots))
            ctx.trace()
            ctx.step(len(gates) + 1)
            if n <= 4 and layers <= 2 and prefix is None:
                vals = dict(zip(names, gen.rnd(len(names), tag=110))) if names else {}
                ds = [G(kind(g) if g.is_parametric else "X", g.target[0], [] if g.control[0] in (None, (None,)) else g.control[0], g.param if g.is_parametric else None) for g in gates]
                psi = ref.generic_vec(n, ctx.seed, 25)
                ctx.close(build.to_np(c(build.vec(psi, n), vals), n), ref.run_vec(ds, vals, psi, n), f"run of hea({n},{layers},{rots})", 1e-10)
                ctx.trace()
