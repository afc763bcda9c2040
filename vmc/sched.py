"""A controlled scheduler for real threads: exactly one thread runs at a time, and a running thread is stopped at a
chosen line event inside the library (sys.settrace), i.e. before any chosen line of horqrux executes.  A plan is a
list of (thread, number of the line event to stop at, or None to run to its end)."""
from __future__ import annotations

import os
import sys
import threading

from . import env

LIB = os.path.join(env.REPO, "horqrux") + os.sep


class Stuck(Exception):
    pass


class _Thread:
    def __init__(self, fn):
        self.fn, self.events, self.stop, self.done = fn, 0, None, False
        self.go, self.parked = threading.Semaphore(0), threading.Semaphore(0)
        self.result = self.error = None
        self.free = False
        self.where = None
        self.thread = threading.Thread(target=self.main, daemon=True)

    def local(self, frame, event, arg):
        if event == "line":
            self.events += 1
            if self.events == self.stop and not self.free:
                self.where = f"{frame.f_code.co_filename[len(LIB):]}:{frame.f_lineno}"
                self.parked.release()
                self.go.acquire()
                if self.stop is None:
                    sys.settrace(None)
                    return None
        return self.local

    def trace(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(LIB) else None

    def main(self):
        self.go.acquire()
        if self.stop is not None:
            sys.settrace(self.trace)
        try:
            self.result = self.fn()
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.parked.release()


def record(fn):
    """The line events (file, line, function) of fn run alone."""
    ev = []

    def local(frame, event, arg):
        if event == "line":
            ev.append((frame.f_code.co_filename[len(LIB):], frame.f_lineno, frame.f_code.co_qualname))
        return local

    sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.startswith(LIB) else None)
    try:
        fn()
    finally:
        sys.settrace(None)
    return ev


def execute(fns, plan, patience=20.0, limit=150.0):
    """Runs the plan.  A thread that cannot go on because a stopped one holds a lock is left waiting, and the stopped
    threads are run to their ends first.  Returns (results, places of the stops, blocked)."""
    ts = [_Thread(f) for f in fns]
    for t in ts:
        t.thread.start()
    places, blocked = [], False
    for tid, stop in list(plan) + [(i, None) for i in range(len(ts))]:
        t = ts[tid]
        if t.done or blocked:
            continue
        if stop is not None and stop <= t.events:
            continue
        t.stop = stop
        t.go.release()
        if not t.parked.acquire(timeout=patience):
            blocked = True
        else:
            places.append((tid, "end" if t.done else t.where))
    if blocked:
        for t in ts:
            t.stop, t.free = None, True
            t.go.release()
    for t in ts:
        t.thread.join(limit)
        if t.thread.is_alive():
            raise Stuck(f"a thread did not end within {limit} s after all threads were let go")
    for t in ts:
        if t.error is not None:
            raise t.error
    return [t.result for t in ts], places, blocked
