"""Two (thorough: also three) real threads evaluate shared objects under a controlled scheduler: exactly one thread
runs at a time and switches happen only at chosen line events inside the library.  For ordered pairs of calls (self
pairs, same circuit with other values / states / modes, other circuits with shared observables and value dictionaries):
all schedules with one preemption - the first call is stopped before each distinct source line it executes (for some
pairs before its first and its last execution, for some at each function it enters), the second runs to its end, the first goes on - and for the fastest pairs all schedules with two
preemptions with both threads in the same function (all pairs of lines; for the slow pairs of the quick tier only neighbouring lines) or at a grid of lines elsewhere.  After each schedule: both results equal the model's (or the call's own answer
when made alone for sampled results), nothing raised, and no shared object has changed."""
from __future__ import annotations

import itertools
import time

import numpy as np

from .. import gen

PROPERTY = "C21"
ASSUMPTIONS = [
    "preemption inside jax, numpy and CPython is not enumerated: a switch happens before a line of horqrux",
    "warm calls: every call was made once before in the process, as most schedules of a long-running process are",
    "tolerance 1e-9; sampled results are compared with the same call made alone",
]
FAST = ["run", "run_v2", "run_vc", "run_st2", "run_c2", "run_dm", "noisy", "noisy_dm", "evolve", "misc", "bwd", "fbwd", "sample", "sample_dm", "shots", "shots_k", "vmap", "ad", "ad_rev", "ad_v2", "adj", "nested", "group", "nomerge", "groupdm", "temp", "tensor", "gpsr", "nest_e", "nest_o", "novals", "states", "kraus"]
# the same observables with other values
OTHER = {"ad": "adj", "adj": "ad", "nested": "adj", "ad_rev": "ad_v2", "shots": "ad_v2", "gpsr": "ad_v2"}
PAIRED = {"ad_v2": "ad_rev", "nest_e": "novals", "nest_o": "nest_e", "novals": "nest_o", "states": "kraus", "kraus": "states"}
SELF = ["run", "run_c2", "evolve", "bwd", "group", "temp", "vmap", "sample"]  # self pairs with two executions of each line
SLOW = ["jit", "sparse", "conv", "g_ad", "g_adj", "g_gpsr", "g_gpsr2"]
# rivals: the same circuit with other values, another state, another mode, another circuit with the same values,
# shared observables, matrices
RIVALS = ["run", "run_v2", "run_dm", "noisy", "ad_rev", "shots_k", "tensor", "sample"]
TWO = [("run", "run_v2"), ("run_v2", "run"), ("run", "run"), ("evolve", "evolve"), ("run_c2", "run"), ("noisy", "noisy_dm"), ("sample", "sample_dm"), ("misc", "run_st2"), ("run", "run_dm")]


def bounds(tier):
    return dict(threads=2 if tier == "quick" else 3, preemptions="1 for every pair, 2 for " + str(TWO if tier == "quick" else "all fast pairs of the two-preemption list, with denser stop lines"),
                granularity="source line of the library", first_calls=FAST + SLOW, rivals="see samples")


def rivals(a, tier):
    if tier != "quick":
        return list(dict.fromkeys([a] + FAST))
    if a in PAIRED:
        return [a, PAIRED[a]]
    i = FAST.index(a)
    same = "run_v2" if a not in ("run_v2", "run_c2", "evolve", "noisy_dm", "sample_dm", "group") else RIVALS[i % 8]
    if a in ("bwd", "fbwd"):  # the value dictionary of the backward functions
        return [a, "run_vc", RIVALS[(i + 3) % 8], RIVALS[(i + 6) % 8]]
    return list(dict.fromkeys([a, OTHER.get(a, same), same, RIVALS[(i + 3) % 8], RIVALS[(i + 6) % 8]][: 4 if a in OTHER else 5]))


def units(tier):
    us = []
    for a in FAST:
        for j, b in enumerate(rivals(a, tier)):
            k = 2 if a in ("gpsr", "adj", "shots", "shots_k", "ad_rev", "ad", "noisy") and j < 2 else 1
            which = "distinct" if tier != "quick" or (a == b and a in SELF) else "first" if j < 2 and a not in ("gpsr", "noisy_dm", "sample_dm") else "functions"
            us += [[dict(kind="one", a=a, b=b, which=which, part=p, parts=k)] for p in range(k)]
    for i, a in enumerate(SLOW):
        parts = (4 if a in ("g_gpsr", "g_gpsr2") else 2) if tier == "quick" else 8
        for b in (["run_v2"] if tier == "quick" else ["run_v2", "ad_rev", "gpsr", a]) :
            us += [[dict(kind="slow", a=a, b=b, part=p, parts=parts, points=(5 if a in ("conv", "sparse") else 7) if tier == "quick" else 50)] for p in range(parts)]
        # the slow call interrupts a fast one
        for j, f in enumerate(("run", "gpsr", "ad", "shots", "tensor", "bwd", "noisy")):
            if tier != "quick" or j % 7 == i or (a.startswith("g_") and f in ("gpsr", "bwd")):
                us.append([dict(kind="one", a=f, b=a, which="first", part=0, parts=1, points=4 if tier == "quick" else 0)])
    us.sort(key=lambda u: u[0]["kind"] != "slow")
    for a, b in TWO if tier == "quick" else list(itertools.product([x for p in TWO for x in p], repeat=2)):
        us += [[dict(kind="two", a=a, b=b, stops=6 if tier == "quick" else 30, part=p, parts=4, **({"near": 1} if tier == "quick" and a in ("noisy", "sample") else {}))] for p in range(4)]
    if tier != "quick":
        us += [[dict(kind="three", calls=list(c), stops=8)] for c in itertools.product(("run", "run_v2", "noisy", "ad_rev"), repeat=3)]
    return us


_SOLO, _STATE = {}, {}


def world_():
    from .. import core, world

    w = _STATE.get("w")
    if w is None or w.prints() != _STATE["prints"]:
        w = _STATE["w"] = world.World(core.SEED)
        _STATE["prints"] = w.prints()
    return w


def solo(name, ctx):
    """The call made alone, compared with the model."""
    from .. import world

    if name not in _SOLO:
        call, model = world.OPS[name]
        first = np.asarray(call(world_()))
        again = np.asarray(call(world_()))
        ctx.close(again, first, f"{name} made twice", 1e-12)
        if model is not None:
            ctx.close(first, np.asarray(model(world_())), f"{name} made alone", 1e-9)
        _SOLO[name] = first
    return _SOLO[name]


def stops(name, ctx, which="distinct"):
    """Numbers of the line events at which the call is stopped: first (and last) event of each distinct line."""
    from .. import sched, world

    key = ("ev", name)
    if key not in _STATE:
        solo(name, ctx)
        _STATE[key] = sched.record(lambda: world.OPS[name][0](world_()))
    ev = _STATE[key]
    ctx.check(len(ev) > 0, f"{name} runs no line of the library")
    first, last = {}, {}
    for i, e in enumerate(ev, 1):
        first.setdefault(e[:2], i)
        last[e[:2]] = i
    if which == "first":
        return sorted(first.values())
    if which == "functions":
        f = {}
        for i, e in enumerate(ev, 1):
            f.setdefault((e[0], e[2]), i)
        return sorted(set(f.values()))
    return sorted(set(first.values()) | set(last.values()))


def spread(xs, k):
    """k elements of xs spread evenly (all of them if k is 0)."""
    if not k or len(xs) <= k:
        return xs
    return [xs[round(i * (len(xs) - 1) / (k - 1))] for i in range(k)]


def schedule(ctx, names, plan):
    from .. import sched, world

    w = world_()
    for n in names:
        solo(n, ctx)
    before = _STATE["prints"]
    seen = {}

    def call(i, n):
        if i == 1:  # what another thread sees of the shared objects when it takes over
            seen.update(w.prints())
        return world.OPS[n][0](w)

    res, places, blocked = sched.execute([lambda i=i, n=n: call(i, n) for i, n in enumerate(names)], plan)
    what = f"threads {names}, schedule {plan} (stops {places})"
    for n, r in zip(names, res):
        ctx.close(np.asarray(r), _SOLO[n], f"{what}: result of {n} compared with the call made alone", 1e-9)
    for k in seen if len(names) == 2 else ():
        ctx.check(before[k] == seen[k], lambda: f"{what}: the second thread sees the shared object {k!r} changed\n before {before[k]}\n then   {seen[k]}")
    after = w.prints()
    for k in before:
        ctx.check(before[k] == after[k], lambda: f"{what}: the shared object {k!r} has changed\n before {before[k]}\n after  {after[k]}")
    ctx.trace()
    ctx.step(len(places))
    ctx.count("schedules")
    if blocked:
        ctx.count("schedules_with_a_blocked_thread")
    ctx.visit_key((tuple(names), tuple(places)))
    ctx.outcome(tuple(names))


def run_case(case, ctx):
    _STATE.pop("w", None)
    kind = case["kind"]
    if kind == "one":
        a, b = case["a"], case["b"]
        for p in spread(stops(a, ctx, case["which"]), case.get("points", 0))[case["part"]::case["parts"]]:
            schedule(ctx, [a, b], [(0, p), (1, None), (0, None)])
    elif kind == "slow":
        a, b = case["a"], case["b"]
        for p in spread(stops(a, ctx, "functions"), case["points"] * case["parts"])[case["part"]::case["parts"]]:
            schedule(ctx, [a, b], [(0, p), (1, None), (0, None)])
    elif kind == "two":
        a, b = case["a"], case["b"]
        sa, sb = stops(a, ctx, "first"), stops(b, ctx, "first")
        # both threads in the same function: all pairs of lines; otherwise a coarser grid of lines
        where = lambda name, p: (_STATE["ev", name][p - 1][0], _STATE["ev", name][p - 1][2])
        line = lambda name, p: _STATE["ev", name][p - 1][1]
        near = case.get("near", 10**6)
        todo = [(p, q) for p in sa for q in sb if where(a, p) == where(b, q) and abs(line(a, p) - line(b, q)) <= near]
        todo += [x for x in itertools.product(spread(sa, case["stops"]), spread(sb, case["stops"])) if x not in set(todo)]
        for p, q in todo[case["part"]::case["parts"]]:
            schedule(ctx, [a, b], [(0, p), (1, q), (0, None), (1, None)])
    elif kind == "three":
        n = case["calls"]
        s = [spread(stops(x, ctx, "first"), case["stops"]) for x in n]
        for p, q in itertools.product(s[0], s[1]):
            schedule(ctx, n, [(0, p), (1, q), (2, None), (0, None), (1, None)])
            schedule(ctx, n, [(0, p), (1, q), (2, None), (1, None), (0, None)])
