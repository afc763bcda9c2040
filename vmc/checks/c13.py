"""Matrices.  (a) every gate in every layout over qubit labels 0..3 (every target order, every ordered control
tuple), on its own support and on every superset of it within 0..3 (0..4 for a subset), given in ascending and
in descending order; (b) every sequence, sum and scaling of up to 3 (then nested) operations over an alphabet whose
supports overlap, are disjoint or have gaps, on every superset; (c) every support that misses a qubit must raise
ValueError; the reported support must be the ascending set of touched qubits.  Each matrix returned by the real code
is compared with the model matrix, and multiplied with a generic state with the action of the real object."""
from __future__ import annotations

import itertools

import numpy as np

from .. import gen, ref
from .c07 import A, G, M, O, S

PROPERTY = "C13"
ASSUMPTIONS = ["sequences without operations have no matrix (they raise) and are not claimed", "tolerance 1e-10", "sparse matrices of the same objects are decided in C12; a sub-family is repeated here"]
GATES = ref.ONEQ + ref.TWOQ + ref.PARAM
ALPH = [
    G("X", [0]), G("RY", [2], p="a"), G("T", [1], [0]), G("ISWAP", [2, 0]), G("RX", [0], [1, 2], "b"), G("PHASE", [3], [1], "a"),
    G("SQRTSWAP", [1, 3], [0]), G("Y", [2]), G("S", [3]), G("RZ", [1], p=0.6),
]
OBSL = [G("X", [0]), G("Y", [2]), G("Z", [1], [0]), G("SWAP", [2, 1])]


def level1():
    out = [[k, list(c)] for k in ("seq", "add") for c in itertools.product(range(len(ALPH)), repeat=2)]
    return out


def deep():
    X0, Y2, CT, IS = ALPH[0], ALPH[1], ALPH[2], ALPH[3]
    P, Q = ALPH[5], ALPH[6]
    return [
        S(A(X0, Y2), IS), S(IS, A(X0, Y2)), A(S(X0, CT), S(CT, X0)), M("w", S(CT, IS)), M("w", A(P, Y2)), S(M("w", X0), M(2.0, CT)), A(M("w", P), M(-1.5, Q)),
        S(S(S(X0), CT), S(IS)), A(A(X0), A(A(Y2), Q)), M(0.5, M("v", A(X0, M("w", P)))), S(P, Q, IS, CT), A(P, Q, IS, CT, X0), M("w", P, CT), M(1.5, IS, Y2, X0),
        O(X0, Y2), O(M("w", A(X0, P))), O(S(X0, CT), M("v", Q)), S(A(S(X0, Y2), M("w", CT)), A(IS, P)), M(0.0, A(X0, CT)), dict(k="qc", nq=4, ops=[X0, S(CT, IS), P]),
        dict(k="qc", nq=6, ops=[Q, dict(k="qc", nq=4, ops=[Y2, CT])]), S(G("X", [3]), G("X", [0])), A(G("Z", [3]), G("Z", [3])), M("w", G("Y", [3])),
        M(3.0, M(-2.0, X0)), M("w", M(-1.5, CT)), M(-0.5, M(-2.0, A(X0, Y2))), M(-0.5, M("v", M(-1.0, S(X0, Y2)))),
    ]


# composites over ten or more labels: the ascending order is that of numbers, not of texts
WIDE = [
    (S(G("X", [11]), G("RY", [2], p="a"), G("T", [10], [9])), (0, 2, 5, 9, 10, 11, 100)),
    (A(G("ISWAP", [10, 2]), G("Y", [9], [10]), M("w", G("X", [2]))), (1, 2, 9, 10, 19, 20)),
    (M("w", S(G("SQRTSWAP", [1, 10], [2]), G("PHASE", [3], [10], "b"))), (1, 2, 3, 10, 12)),
    (O(S(G("Z", [10]), G("X", [9])), G("Y", [8])), (8, 9, 10, 11)),
    (S(*[G("RX", [q], p=0.1 + 0.2 * q) for q in (9, 0, 4, 2, 7, 10, 5)], G("X", [10], [9])), (0, 2, 4, 5, 7, 9, 10)),
    (dict(k="qc", nq=12, ops=[G("H", [11]), A(G("X", [1]), G("Z", [10]))]), (1, 10, 11)),
]


def bounds(tier):
    return dict(gates=len(GATES), labels=4, controls="all ordered tuples up to 3", supersets="all within 0..3", composites=len(level1()) + len(deep()) + (343 if tier == "quick" else 1220), missing_supports="all subsets of 0..3")


def units(tier):
    us = []
    for k in (1, 2):
        for t, c in gen.layouts(4, k, max_controls=3):
            if tier == "quick" and len(c) == 3 and c != sorted(c) and c != sorted(c)[::-1]:
                continue
            us.append([dict(kind="gate", t=t, c=c, k=k)])
    us = [sum(x, []) for x in gen.chunks(us, 6)]
    us += gen.chunks([dict(kind="comp", d=x) for x in level1()], 8)
    us += gen.chunks([dict(kind="deep", i=i) for i in range(len(deep()))], 2)
    if tier == "quick":
        us += gen.chunks([dict(kind="comp", d=["seq", list(c)]) for c in itertools.product(range(7), repeat=3)], 20)
    else:
        us += gen.chunks([dict(kind="comp", d=["seq", list(c)]) for c in itertools.product(range(len(ALPH)), repeat=3)], 20)
        us += gen.chunks([dict(kind="comp", d=["add", list(c)]) for c in itertools.combinations_with_replacement(range(len(ALPH)), 3)], 20)
    us += [[dict(kind="wide", i=i)] for i in range(len(WIDE))]
    us.append([dict(kind="big", t=t, c=c) for t, c in [([9], [0]), ([0], [9]), ([4, 2], [11]), ([100], [7, 50]), ([5, 1], [])]])
    return us


def values():
    a, b, w, v = gen.rnd(4, -2.5, 2.8, 90)
    return {"w": w, "b": b, "a": a, "v": v}


def supersets(sup, labels):
    rest = [q for q in labels if q not in sup]
    for m in range(len(rest) + 1):
        for extra in itertools.combinations(rest, m):
            yield sorted(sup + list(extra))


def relabel(d, rel):
    if "g" in d:
        return dict(d, t=[rel[q] for q in d["t"]], c=[rel[q] for q in d.get("c", ())])
    return dict(d, ops=[relabel(x, rel) for x in d["ops"]])


def on(d, sup, vals):
    """Model matrix on the ascending list of labels `sup`."""
    return ref.matrix(relabel(d, {q: i for i, q in enumerate(sup)}), vals, len(sup))


def examine(o, d, ctx, build, labels=(0, 1, 2, 3), full=True, action=True):
    vals = values()
    sup = sorted(ref.support(d))
    got = tuple(o.qubit_support)
    ctx.check(got == tuple(sup) and all(isinstance(q, (int, np.integer)) for q in got), f"support of {d} is {got}, not {sup}")
    Mx = on(d, sup, vals)
    ctx.visit(Mx)
    ctx.close(build.dense(o.tensor(vals)), Mx, f"matrix of {d}", 1e-10)
    ctx.trace()
    for s in supersets(sup, labels) if full else [sorted(set(sup) | set(labels))]:
        want = on(d, s, vals)
        ctx.close(build.dense(o.tensor(vals, tuple(s))), want, f"matrix of {d} on {s}", 1e-10)
        ctx.trace()
        ctx.step()
        if len(s) > 1 and len(s) % 2:
            ctx.close(build.dense(o.tensor(vals, tuple(s[::-1]))), want, f"matrix of {d} on {s[::-1]}", 1e-10)
            ctx.trace()
    if action:
        n = 4
        psi = ref.generic_vec(n, ctx.seed, 17)
        st = build.vec(psi, n)
        act = o.forward(st, vals) if d.get("k") == "obs" else o(st, vals)
        ctx.close(np.asarray(build.dense(o.tensor(vals, (0, 1, 2, 3)))) @ psi, build.to_np(act, n), f"matrix and action of {d}", 1e-10)
        ctx.close(build.to_np(act, n), ref.matrix(d, vals, n) @ psi, f"action of {d}", 1e-10)
        ctx.trace(2)


def missing(o, d, ctx):
    sup = ref.support(d)
    for m in range(1, 5):
        for s in itertools.combinations(range(5), m):
            if not sup <= set(s):
                ctx.raises(ValueError, lambda: o.tensor(values(), s), f"matrix of {d} on {s}")
                ctx.trace()


def run_case(case, ctx):
    from .. import build

    kind = case["kind"]
    if kind == "gate":
        for name in GATES:
            if gen.n_targets(name) != case["k"]:
                continue
            for p in ("a", -2.2) if name in ref.PARAM and len(case["c"]) < 2 else ("a",):
                d = G(name, case["t"], case["c"], p if name in ref.PARAM else None)
                o = build.gate(d)
                examine(o, d, ctx, build, full=name in ("X", "RY", "PHASE", "ISWAP", "SQRTSWAP") or ctx.tier != "quick", action=name in ("RX", "SWAP", "ISWAP"))
                if name in ("RY", "SWAP", "H"):
                    missing(o, d, ctx)
    elif kind == "comp":
        k, idx = case["d"]
        ops = [ALPH[i] for i in idx]
        d = dict(k=k, ops=ops)
        o = build.obj(d)
        examine(o, d, ctx, build)
        if k == "seq" and len(idx) == 2:
            sc = M("w", *ops) if idx[0] % 2 else M(-0.75, *ops)
            examine(build.obj(sc), sc, ctx, build, full=False)
        if idx[0] <= 2:
            missing(o, d, ctx)
        if k == "add" and idx[0] == idx[-1]:
            ob = O(*ops)
            examine(build.obj(ob), ob, ctx, build, full=False)
            missing(build.obj(ob), ob, ctx)
    elif kind == "deep":
        d = deep()[case["i"]]
        o = build.obj(d)
        examine(o, d, ctx, build)
        missing(o, d, ctx)
        if case["i"] % 2 == 0:
            examine(build.obj(d, sparse=True), d, ctx, build, full=False, action=False)
        # shared sub-objects give the same matrix
        if "ops" in d and d["k"] in ("seq", "add"):
            dd = dict(d, ops=d["ops"] + d["ops"])
            subs = [build.obj(x) for x in d["ops"]]
            cls = build.OpSequence if d["k"] == "seq" else build.Add
            sup = sorted(ref.support(dd))
            ctx.close(build.dense(cls(subs + subs).tensor(values())), on(dd, sup, values()), f"matrix of {d} with repeated objects", 1e-10)
            ctx.trace()
    elif kind == "wide":
        d, s = WIDE[case["i"]]
        vals = values()
        o = build.obj(d)
        sup = sorted(ref.support(d))
        ctx.check(tuple(o.qubit_support) == tuple(sup), f"support of {d}: {o.qubit_support}")
        want = on(d, s, vals)
        ctx.visit(want)
        ctx.close(build.dense(o.tensor(vals)), on(d, sup, vals), f"matrix of {d}", 1e-10)
        for order in (s, s[::-1], s[1::2] + s[0::2]):
            ctx.close(build.dense(o.tensor(vals, order)), want, f"matrix of {d} on {order}", 1e-10)
        for q in sup:
            ctx.raises(ValueError, lambda: o.tensor(vals, tuple(x for x in s if x != q)), f"matrix of {d} without {q}")
        ctx.trace(5)
        ctx.step(len(sup))
    else:
        for name in ("RX", "PHASE", "Y") if len(case["t"]) == 1 else ("ISWAP", "SQRTSWAP"):
            d = G(name, case["t"], case["c"], "a" if name in ref.PARAM else None)
            o = build.gate(d)
            vals = values()
            sup = sorted(ref.support(d))
            ctx.check(tuple(o.qubit_support) == tuple(sup), f"support of {d}: {o.qubit_support}")
            ctx.close(build.dense(o.tensor(vals)), on(d, sup, vals), f"matrix of {d}", 1e-10)
            s = sorted(set(sup) | {3, 60})
            ctx.close(build.dense(o.tensor(vals, tuple(s))), on(d, s, vals), f"matrix of {d} on {s}", 1e-10)
            a = dict(k="seq", ops=[d, G("H", [60])])
            ctx.close(build.dense(build.obj(a).tensor(vals)), on(a, sorted(ref.support(a)), vals), f"matrix of {a}", 1e-10)
            missing(o, d, ctx)
            ctx.trace(3)
