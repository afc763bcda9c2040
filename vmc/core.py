"""Exploration engine: deterministic simplest-first enumeration over worker processes.

A check module defines
    PROPERTY, ASSUMPTIONS (list of str), bounds(tier) -> dict
    units(tier) -> list of lists of cases   (a case is JSON data; the order is simplest first)
    run_case(case, ctx)                     (raises on a violation)
The engine runs *every* case of every unit unless the time cap is hit (which is reported).
"""
from __future__ import annotations

import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import threading
import time
import traceback

from . import env

ROOT = env.ROOT
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
DEADLINE = float(os.environ.get("VMC_DEADLINE", "0") or 0)


class Violation(Exception):
    pass


def canon(case) -> str:
    return json.dumps(case, sort_keys=True, separators=(",", ":"), default=str)


class Ctx:
    """Counters and oracles used by run_case."""

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.states: set[bytes] = set()
        self.outcomes: set[bytes] = set()
        self.transitions = 0
        self.traces = 0
        self.extra: dict[str, int] = {}

    # --- counting
    def visit(self, array, tag=""):
        """A model state was reached (distinct states are counted by value)."""
        import numpy as np

        a = np.round(np.asarray(array, dtype=complex), 8) + 0.0
        h = hashlib.blake2b(a.tobytes() + str(a.shape).encode() + tag.encode(), digest_size=8).digest()
        self.states.add(h)
        return h

    def visit_key(self, key):
        self.states.add(hashlib.blake2b(str(key).encode(), digest_size=8).digest())

    def outcome(self, key):
        self.outcomes.add(hashlib.blake2b(str(key).encode(), digest_size=8).digest())

    def step(self, k=1):
        self.transitions += k

    def trace(self, k=1):
        """k executions of the real code were compared with the model."""
        self.traces += k

    def count(self, name, k=1):
        self.extra[name] = self.extra.get(name, 0) + k

    # --- oracles
    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def close(self, got, want, what, tol=1e-9):
        import numpy as np

        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation(f"{what}: shape {got.shape} instead of {want.shape}")
        if got.size == 0:
            return
        if not np.all(np.isfinite(got)):
            raise Violation(f"{what}: non-finite result {got!r}")
        err = float(np.max(np.abs(got - want)))
        if not err <= tol:
            raise Violation(
                f"{what}: differs from the reference by {err:.3g}\n got  {np.array2string(got, threshold=40)}\n want {np.array2string(want, threshold=40)}"
            )

    def raises(self, exc, fn, what):
        try:
            r = fn()
        except exc:
            return
        raise Violation(f"{what}: returned {str(r)[:200]} instead of raising {exc}")


_W: dict = {}


def _init(modname, tier, seed):
    os.environ["VERIF_TIER"] = tier
    mod = importlib.import_module(modname)
    _W.update(mod=mod, tier=tier, seed=seed, units=mod.units(tier), history=[], broken=None)
    try:
        importlib.import_module("vmc.build")
        if hasattr(mod, "setup"):
            mod.setup(tier)
    except Exception:  # a broken library: every case reports it (an exception here would respawn workers forever)
        _W["broken"] = traceback.format_exc()


def _run_one(case, ctx):
    """Returns None or the text of a violation."""
    if _W["broken"]:
        return "set-up failed: " + _W["broken"][-2000:]
    try:
        _W["mod"].run_case(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # an exception where success is required
        tb = traceback.format_exc()
        return f"unexpected {type(e).__name__}: {str(e)[:500]}\n{tb[-3000:]}"


def _rss():
    """Resident memory of this process in MB."""
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") / 2**20


def _work(idx):
    t0 = time.time()
    ctx = Ctx(_W["tier"], _W["seed"])
    unit = _W["units"][idx]
    bad = []
    done = 0
    for ci, case in enumerate(unit):
        err = _run_one(case, ctx)
        done += 1
        if err is not None:
            bad.append((idx, ci, case, err, list(_W["history"])))
            if len(bad) >= 5:
                break
    _W["history"].append(idx)
    rss = _rss()
    if rss > 2000:  # compiled programs pile up
        import jax

        jax.clear_caches()
        gc.collect()
    return dict(
        rss=rss,
        idx=idx, done=done, bad=bad, states=ctx.states, outcomes=ctx.outcomes, transitions=ctx.transitions,
        traces=ctx.traces, extra=ctx.extra, wall=time.time() - t0,
    )


def _confirm(args):
    """Re-runs in a fresh process: the case alone, its unit prefix, or the worker's whole history."""
    mode, idx, ci, case, history = args
    ctx = Ctx(_W["tier"], _W["seed"])
    if mode == "history":
        for h in history:
            for c in _W["units"][h]:
                _run_one(c, ctx)
    if mode in ("history", "unit"):
        for c in _W["units"][idx][:ci]:
            _run_one(c, ctx)
    return _run_one(case, ctx)


def _fresh(modname, tier, seed, fn, arg, timeout=240):
    with mp.get_context("spawn").Pool(1, initializer=_init, initargs=(modname, tier, seed)) as p:
        return p.apply_async(fn, (arg,)).get(timeout)


def _stop(pool):
    """Ends a pool, even one whose queue lock was held by a worker that the system ended."""
    procs = list(pool._pool)
    t = threading.Thread(target=lambda: (pool.terminate(), pool.join()), daemon=True)
    t.start()
    t.join(20)
    if t.is_alive():
        for p in procs:
            p.kill()


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    data = json.load(open(path))
    return [f for f in data.get("findings", []) if f["property"] == prop]


def run_check(prop, modname, tier, jobs=8, verbose=True):
    t0 = time.time()
    seed = SEED
    mod = importlib.import_module(modname)
    units = mod.units(tier)
    ncases = sum(len(u) for u in units)
    deadline = t0 + (DEADLINE or (780 if tier == "quick" else 6 * 3600))
    known = {f["case"]: f for f in load_known(prop)}
    seen_known: dict[str, str] = {}
    states, outcomes = set(), set()
    tot = dict(transitions=0, traces=0, cases=0, units=0)
    extra: dict[str, int] = {}
    violations = []
    capped = False
    order = list(range(len(units)))
    cache = tempfile.mkdtemp(prefix="vmc-")  # compiled kernels, shared by the workers of this run only
    os.environ.update(
        JAX_COMPILATION_CACHE_DIR=cache, JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0",
        JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1",
    )
    def take(r):
        nonlocal stop_at
        pending.discard(r["idx"])
        states.update(r["states"])
        outcomes.update(r["outcomes"])
        tot["transitions"] += r["transitions"]
        tot["traces"] += r["traces"]
        tot["cases"] += r["done"]
        tot["units"] += 1
        if os.environ.get("VMC_SLOW"):
            print(f"UNIT {r['wall']:.1f}s rss={r['rss']:.0f}MB done={r['done']} {canon(units[r['idx']][0])[:150]}", flush=True)
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
        for b in r["bad"]:
            key = canon(b[2])
            if key in known:
                seen_known[key] = b[3]
            else:
                violations.append(b)
        if violations and stop_at is None:
            # let simpler units that are already running finish, then stop
            stop_at = time.time() + 15

    pending = set(order)
    stop_at = None
    lost = 0
    pool = None
    try:
        while pending and not capped:
            # one round of a pool; a further one only if the system ended workers (no memory left), with fewer of them
            todo = [i for i in order if i in pending]
            pool = mp.get_context("spawn").Pool(min(max(2, jobs - 3 * lost), len(todo)), initializer=_init, initargs=(modname, tier, seed))
            pids = {w.pid for w in pool._pool}
            it = pool.imap_unordered(_work, todo, chunksize=1)
            last = time.time()
            died = 0
            while pending:
                now = time.time()
                limit = deadline if stop_at is None else min(deadline, stop_at)
                if now >= limit:
                    capped = stop_at is None
                    break
                try:
                    take(it.next(timeout=max(0.1, min(limit - now, 5))))
                    last = time.time()
                except StopIteration:
                    break
                except mp.TimeoutError:
                    alive = {w.pid for w in list(pool._pool)}
                    died += len(pids - alive)
                    pids = alive | {w.pid for w in list(pool._pool)}
                    if died and (len(pending) <= died or time.time() - last > 150):
                        break
                except Exception as e:  # a worker that could not even report (memory)
                    print(f"note: a worker failed: {type(e).__name__}: {str(e)[:200]}", file=sys.stderr)
                    died += 1
            if stop_at is not None or capped or not pending:
                break
            lost += 1
            if lost > 3:
                capped = True
            _stop(pool)
        if lost:
            extra["worker_pools_restarted"] = lost
    finally:
        if pool is not None:
            _stop(pool)
        os.environ.pop("JAX_COMPILATION_CACHE_DIR", None)  # violations are confirmed without it
        shutil.rmtree(cache, ignore_errors=True)

    reported = None
    unrepro = 0
    for b in sorted(violations, key=lambda b: (b[0], b[1]))[:4]:
        idx, ci, case, err, history = b
        for mode in ("case", "unit", "history"):
            try:
                again = _fresh(modname, tier, seed, _confirm, (mode, idx, ci, case, history))
            except mp.TimeoutError:
                again = "re-run timed out"
            if again is not None:
                reported = dict(mode=mode, unit=idx, index=ci, case=case, message=again, history=history)
                break
        if reported:
            break
        unrepro += 1
    wall = time.time() - t0
    samples = []
    for i in range(0, len(units), max(1, len(units) // 6)):
        if units[i] and len(samples) < 8:
            s = canon(units[i][len(units[i]) // 2])
            samples.append(json.loads(s) if len(s) < 3000 else s[:3000])
    ev = dict(
        property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"),
        coverage=dict(
            states=len(states), transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
            cases=tot["cases"], cases_total=ncases, units=tot["units"], units_total=len(units),
            distinct_outcomes=len(outcomes), exhaustive=(not capped and not violations and tot["cases"] == ncases),
            bounds=mod.bounds(tier), rule=mod.__doc__ or "", samples=samples, unreproduced=unrepro, **extra,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2),
        violations=1 if reported else 0,
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for key, msg in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {known[key]['what']}")
    print(
        f"{prop} [{tier}] cases={tot['cases']}/{ncases} units={tot['units']}/{len(units)} states={len(states)} "
        f"transitions={tot['transitions']} traces={tot['traces']} outcomes={len(outcomes)} "
        f"{'CAPPED ' if capped else ''}wall={wall:.1f}s {extra if extra else ''}"
    )
    if reported:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{prop}.json")
        reported.update(property=prop, module=modname, tier=tier, seed=seed)
        with open(path, "w") as f:
            json.dump(reported, f, indent=1, default=str)
        print(f"case: {canon(reported['case'])[:1500]}")
        print(reported["message"][:3000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if unrepro:
        print(f"note: {unrepro} failing case(s) did not fail again in a fresh process", file=sys.stderr)
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    os.environ["VERIF_TIER"] = r["tier"]
    err = _fresh(r["module"], r["tier"], r["seed"], _confirm, (r["mode"], r["unit"], r["index"], r["case"], r["history"]))
    if err is None:
        print("the replayed case holds")
        return 0
    print(canon(r["case"])[:2000])
    print(err)
    print(f"VIOLATION property={r['property']} replay={path}")
    return 1
