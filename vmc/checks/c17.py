"""Call histories on shared objects.  Alphabet: every kind of public call (running, sampling, expectation values and
gradients in every mode and with shots, matrices, conversions, jit/vmap, helpers) with different circuits, values and
states, calls that must fail, and the user's own in-place edits (a value; gates and factors replaced; circuits, sequences and observables extended).  (a) all
histories of length 2, all of length 3 over the fast calls and edits, call-edit-call for all heavy calls;
(b) breadth-first closure over the reachable implementation states (every attribute of the shared objects and
every module-level datum and default argument of the library), all calls from every state, under every combination
of edits; (c) every program up to 3 (4) gates over a small alphabet with every kind of call, made twice.  After each call of each history: its result equals the model (or the answer of a fresh world for
sampled results), failing calls raise, and no argument has changed (attribute fingerprints)."""
from __future__ import annotations

import itertools
import sys
import types

import numpy as np

from .. import gen, ref
from .c07 import G, M, O, S

PROPERTY = "C17"
ASSUMPTIONS = [
    "jax's own caches are not part of the enumerated state in (b); (a) covers their effects without any reduction",
    "editing a noise instance in place between calls is not part of the alphabet (jax treats it as static data)",
    "tolerance 1e-9; sampled results are compared exactly",
]
TRIPLE_CALLS = ["run", "run_v2", "run_dm", "noisy", "group", "temp", "tensor", "ad_rev", "gpsr", "f_missing", "f_adjdm", "tv", "tc", "tx"]


def names():
    """All letters, listed here so that enumerating units does not import the library."""
    calls = ["run", "run_v2", "run_vc", "run_st2", "run_c2", "run_dm", "noisy", "noisy_dm", "evolve", "group", "nomerge", "groupdm", "temp", "misc", "tmpobs", "tensor", "sample", "sample_dm", "ad", "ad_rev", "adj", "gpsr",
             "nested", "nest_e", "nest_o", "novals", "states", "kraus", "shots", "shots_k", "sparse", "conv", "jit", "vmap", "g_ad", "g_adj", "g_gpsr", "g_gpsr2", "bwd", "fbwd"]
    fails = ["f_missing", "f_missing_obs", "f_none", "f_empty", "f_run_none", "f_sample0", "f_negshots", "f_adjdm", "f_mode", "f_support", "f_spnoise", "f_grad", "f_qubit"]
    return calls, fails, ["tv", "tc", "tx"]


# programs for the sweep over arguments: single-qubit gates in and out of order, controls, a noisy gate, a two-qubit gate
PROG = [G("RX", [1], p="a"), G("RY", [0], p="b"), G("H", [0]), G("X", [1], [0]), G("RX", [0], p="a", n=[("BitFlip", 0.2), ("PhaseFlip", 0.1)]), G("SWAP", [1, 0]), G("PHASE", [1], [0], "b")]
HEAVY_WORDS = [[1, 0], [0, 1, 0], [0, 0, 0], [0, 2, 0, 1, 0], [1, 1, 0, 1], [3, 0, 1], [6, 0, 6], [4, 0, 1], [4, 4, 4], [5, 1]]


def snapshot(x):
    """Attribute fingerprints and the identities of all elements of the containers in x."""
    from .. import build, fp

    def ids(y):
        if isinstance(y, (list, tuple)):
            return [id(y)] + [ids(z) for z in y]
        if isinstance(y, dict):
            return [id(y)] + [(k, ids(v)) for k, v in y.items()]
        if isinstance(y, build.OpSequence):
            return [id(y), ids(y.operations)]
        return id(y)

    return fp.of(x), ids(x)


def args(case, ctx):
    """One program (equal letters are the same gate object): every kind of call, twice, with all arguments compared
    before and after, and both answers compared."""
    import jax
    import jax.numpy as jnp
    from horqrux.differentiation.gpsr import analytical_gpsr_bwd, finite_shots_gpsr_backward
    from horqrux.utils.conversion import to_dense, to_sparse

    from .. import build

    hq, D = build.hq, build.hq.DiffMode
    made = {}
    gates = [made.setdefault(i, build.gate(PROG[i])) for i in case["w"]]
    used = {g["p"] for i in case["w"] for g in [PROG[i]] if g["p"]}
    seq = build.OpSequence(list(gates))
    circ = hq.QuantumCircuit(2, [seq], ["b"])
    obs = [build.obj(O(G("Z", [1]), M(0.5, G("X", [0])))), build.obj(O(S(G("Z", [0]), G("Z", [1]))))]
    vals = {k: jnp.asarray(x) for k, x in zip("ba", (0.4, 1.1)) if k in used}
    nested = {"circuit": dict(vals), "observables": {}}
    state, rho = build.vec(ref.generic_vec(2, ctx.seed, 9), 2), build.dm(ref.generic_dm(2, ctx.seed, 9), 2)
    key = jax.random.PRNGKey(3)
    noisy = 4 in case["w"]
    world = dict(gates=gates, seq=seq, circ=circ, obs=obs, vals=vals, nested=nested, state=state, rho=rho, made=made, key=key)
    dense = lambda x: np.asarray(build.dense(x.array if isinstance(x, build.DensityMatrix) else x))
    calls = {
        "run": lambda: dense(hq.run(circ, state, vals)), "run dm": lambda: dense(hq.run(circ, rho, vals)), "call": lambda: dense(seq(state, vals)),
        "group": lambda: dense(hq.apply_gates(state, gates, vals, group_gates=True)), "group, no merge": lambda: dense(hq.apply_gates(rho, gates, vals, group_gates=True, merge_ops=False)),
        "expectation": lambda: dense(hq.expectation(state, circ, obs, vals)), "separate": lambda: dense(hq.expectation(rho, circ, obs, nested)), "gpsr": lambda: dense(hq.expectation(state, circ, obs, vals, diff_mode=D.GPSR)),
        "matrix": lambda: dense(seq.tensor(vals, (0, 1))), "names": lambda: (sorted(circ.param_names), sorted(circ.vparams), circ.n_vparams, circ.qubit_support),
    }
    if not noisy:
        calls["adjoint"] = lambda: dense(hq.expectation(state, circ, obs, vals, diff_mode=D.ADJOINT))
        calls["convert"] = lambda: dense(to_dense(to_sparse(seq)).tensor(vals))
    if case["heavy"]:
        calls = {
            "shots": lambda: dense(hq.expectation(state, circ, obs, vals, n_shots=20, key=key)), "sample": lambda: sorted(hq.sample(state, circ, vals, 12).items()),
            "backward": lambda: dense(analytical_gpsr_bwd(state, gates, obs, vals)), "shots backward": lambda: dense(finite_shots_gpsr_backward(state, gates, obs, vals, n_shots=10, key=key)),
            **{f"gradient {m}": lambda m=m: [dense(x) for x in jax.tree_util.tree_leaves(jax.jacrev(lambda v: hq.expectation(state, circ, obs, v, diff_mode=m))(vals))] for m in (D.AD, D.GPSR)},
            "shots gradient": lambda: [dense(x) for x in jax.tree_util.tree_leaves(jax.jacrev(lambda v: hq.expectation(state, circ, obs, v, diff_mode=D.GPSR, n_shots=10, key=key))(vals))],
        }
    before = snapshot(world)
    for name, call in calls.items():
        first = call()
        after = snapshot(world)
        if after != before:
            ctx.fail(f"the call {name!r} on {[PROG[i] for i in case['w']]} changed its arguments (gates now {gates}, values {vals}, operations {seq.operations})")
        again = call()
        if isinstance(first, np.ndarray):
            ctx.close(again, first, f"{name} on {case['w']}, second call", 1e-12)
        else:
            ctx.check(str(again) == str(first), f"{name} on {case['w']}: {first}, then {again}")
        ctx.trace(2)
        ctx.step(2)
    ctx.check(snapshot(world) == before, f"the arguments changed: {gates}")
    ctx.visit_key(tuple(case["w"]))


HEAVY = ["tmpobs", "g_gpsr", "g_gpsr2", "bwd", "fbwd", "conv", "g_ad", "sparse"]


def bounds(tier):
    c, f, t = names()
    return dict(calls=c, failing_calls=f, edits=t, programs=[len(PROG), len(HEAVY_WORDS)], history_length={"all letters": 2, "fast letters": 3 if tier == "quick" else 4}, closure="depth until no new state (at most 200 states per edit combination)")


def units(tier):
    c, f, t = names()
    letters = c + f + t
    pairs = []
    for i, x in enumerate(letters):
        # heavy second letters: every other in quick, rotating with the first letter
        ys = letters if tier != "quick" else [y for j, y in enumerate(letters) if y not in HEAVY or (i + j) % 4 == 0]
        if x in HEAVY and tier == "quick":
            ys = [y for j, y in enumerate(letters) if y == x or (i + j) % (2 if y in HEAVY else 3) == 0]
        pairs.append((x, ys))
    us = [[dict(kind="hist", first=[x], second=ys[k::2])] for x, ys in pairs for k in range(2)]
    us += [[dict(kind="hist", first=[x, y], second=TRIPLE_CALLS)] for x, y in itertools.product(TRIPLE_CALLS, repeat=2)]
    if tier != "quick":
        us += [[dict(kind="hist", first=[x, y, z], second=TRIPLE_CALLS)] for x, y, z in itertools.product(TRIPLE_CALLS, repeat=3)]
        us += [[dict(kind="hist", first=[x, y], second=c)] for x, y in itertools.product(HEAVY + t, t + f)]
    else:
        us += [[dict(kind="hist", first=[x, e], second=[x])] for x in c if x not in TRIPLE_CALLS for e in t if not (x in HEAVY and e == "tx")]
    for bits in itertools.product((0, 1), repeat=3):
        if tier != "quick" or sum(bits) in (0, 3) or bits == (1, 0, 0):
            us.append([dict(kind="closure", bits=list(bits), part=p) for p in range(1)])
    us.sort(key=lambda u: (u[0]["kind"] != "closure", len(u[0].get("first", []))))
    top = 3 if tier == "quick" else 4
    us += gen.chunks([dict(kind="args", w=list(w), heavy=False) for k in range(1, top + 1) for w in itertools.product(range(len(PROG)), repeat=k) if k < 3 or tier != "quick" or sum(w) % 2], 45)
    us += gen.chunks([dict(kind="args", w=w, heavy=True) for w in HEAVY_WORDS], 2 if tier == "quick" else 1)
    return us


_BASE = {}


def setup(tier):
    """Reference answers of sampled results: the first call in a fresh world, per combination of edits."""
    from .. import core, world

    for bits in itertools.product((0, 1), repeat=3):
        for name, (call, model) in world.OPS.items():
            if model is None:
                w = world.World(core.SEED)
                for t, b in zip(world.TOGGLES, bits):
                    if b:
                        w.toggle(t)
                _BASE[name, tuple(bool(b) for b in bits)] = call(w)


def perform(w, letter, ctx, history):
    """One call and its oracle.  Returns False for an edit."""
    from .. import world

    if letter in world.TOGGLES:
        w.toggle(letter)
        return
    before = w.prints()
    if letter in world.FAILS:
        try:
            r = world.FAILS[letter](w)
        except Exception as e:
            ctx.outcome((letter, type(e).__name__))
        else:
            ctx.fail(f"history {history}: the last call returned {str(r)[:200]} instead of raising")
    else:
        call, model = world.OPS[letter]
        got = call(w)
        if model is None:
            ctx.close(got, _BASE[letter, w.key()], f"history {history}: result of the last call, compared with the same call in a fresh world", 1e-12)
        else:
            ctx.close(np.asarray(got), np.asarray(model(w)), f"history {history}: result of the last call", 1e-9)
        ctx.outcome((letter, w.key()))
    after = w.prints()
    for k in before:
        ctx.check(before[k] == after[k], lambda: f"history {history}: the last call changed {k!r}\n before {before[k]}\n after  {after[k]}")
    ctx.trace()


def run_case(case, ctx):
    from .. import world

    if case["kind"] == "closure":
        return closure(case, ctx)
    if case["kind"] == "args":
        return args(case, ctx)
    for y in case["second"]:
        w = world.World(ctx.seed)
        h = []
        for letter in case["first"] + [y]:
            h.append(letter)
            perform(w, letter, ctx, h)
            ctx.step()
        ctx.visit_key(tuple(h))


# ------------------------------------------------------------------ reachable implementation state


def deep(x, seen, depth=0):
    """Hashable picture of everything reachable from x through data (not through code)."""
    from .. import build

    if x is None or isinstance(x, (str, int, float, complex, bool, bytes)):
        return x
    if isinstance(x, (np.generic,)):
        return x.item()
    if isinstance(x, (np.ndarray, build.jax.Array)):
        try:
            a = np.asarray(x)
        except Exception:
            return ("array", str(x))
        return ("array", a.shape, str(a.dtype), a.tobytes())
    if id(x) in seen or depth > 12:
        return ("seen",)
    seen.add(id(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(deep(y, seen, depth + 1) for y in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((str(k), deep(v, seen, depth + 1)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted(str(y) for y in x))
    if isinstance(x, types.FunctionType):
        return ("fn", x.__qualname__, deep(x.__defaults__, seen, depth + 1), deep(x.__kwdefaults__, seen, depth + 1))
    if isinstance(x, type):
        if not x.__module__.startswith("horqrux"):
            return ("type", x.__name__)
        return ("class", x.__name__) + tuple((k, deep(v, seen, depth + 1)) for k, v in sorted(vars(x).items()) if not k.startswith("__"))
    if isinstance(x, build.BCOO):
        return ("BCOO", deep(x.data, seen, depth + 1), deep(x.indices, seen, depth + 1))
    d = getattr(x, "__dict__", None)
    if d is not None and type(x).__module__.startswith("horqrux"):
        return (type(x).__name__,) + tuple((k, deep(v, seen, depth + 1)) for k, v in sorted(d.items()) if not callable(v))
    return ("opaque", type(x).__name__)


def module_state(seen):
    out = []
    for name, m in sorted(sys.modules.items()):
        if name == "horqrux" or name.startswith("horqrux."):
            out.append((name,) + tuple((k, deep(v, seen)) for k, v in sorted(vars(m).items()) if not k.startswith("__") and not isinstance(v, types.ModuleType)))
    return tuple(out)


def picture(w):
    seen = set()
    return hash((tuple((k, deep(v, seen)) for k, v in sorted(w.ob.items())), module_state(seen)))


def closure(case, ctx):
    from .. import world

    calls, fails, _ = names()

    def start():
        w = world.World(ctx.seed)
        for t, b in zip(world.TOGGLES, case["bits"]):
            if b:
                w.toggle(t)
        return w

    for letter in calls + fails:  # lazily filled attributes of modules and classes first
        perform(start(), letter, ctx, [letter])
    # a state is reached by a history; histories of known states are extended by every call
    frontier = [[]]
    known = {picture(start())}
    while frontier and len(known) < 200:
        nxt = []
        for h in frontier:
            for letter in calls + fails if len(h) < 2 or ctx.tier != "quick" else CHEAPS(calls, fails):
                w = start()
                for x in h:
                    perform(w, x, ctx, h)
                perform(w, letter, ctx, h + [letter])
                ctx.step()
                p = picture(w)
                if p not in known:
                    known.add(p)
                    nxt.append(h + [letter])
        frontier = nxt
        ctx.count("closure_levels")
    for p in known:
        ctx.visit_key(p)
    ctx.count("closure_states", len(known))
    if frontier:
        ctx.count("closure_truncated")


def CHEAPS(calls, fails):
    return [x for x in calls + fails if x not in HEAVY]
