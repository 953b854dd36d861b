"""Runs callers in threads that take turns at their file system calls, under a schedule chosen by the explorer."""

import builtins
import io
import os
import threading

TIMEOUT = 5.0
HOOKS = [(os, n) for n in ("open", "mkdir", "stat", "lstat", "listdir", "scandir", "link", "rename", "replace", "unlink", "access", "utime")] + [(io, "open"), (builtins, "open")]
_local = threading.local()


class Stopped(BaseException):
    """A caller ends at this point as if it had been killed."""


class _Turns:
    def __init__(self, n):
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.done = [False] * n
        self.free = False  # a caller waits for another: let all run
        self.kill = None


def _point():
    t = getattr(_local, "turns", None)
    if t is None or t.free or getattr(_local, "inside", False):
        return
    i = _local.index
    _local.steps += 1
    if t.kill == (i, _local.steps):
        raise Stopped
    t.back.release()
    t.go[i].acquire()


def _wrap(fn):
    def wrapped(*a, **k):
        _point()
        before = getattr(_local, "inside", False)
        _local.inside = True  # a call made of other calls is one step
        try:
            return fn(*a, **k)
        finally:
            _local.inside = before

    return wrapped


def run(callers, choices, kill=None):
    """Runs the callers with the given choices; afterwards the running caller goes on as long as it can.

    Returns (results, spans, trace): results[i] = ("ok", value) | ("error", text) | ("killed", ""), spans[i] = (first, last) step,
    trace = for every decision (who could run, who ran before, who was chosen)."""
    n = len(callers)
    t = _Turns(n)
    t.kill = kill
    res = [("killed", "")] * n
    spans = [[-1, -1] for _ in range(n)]
    clock = [0]

    def body(i):
        _local.turns, _local.index, _local.steps = t, i, 0
        t.go[i].acquire()
        clock[0] += 1
        spans[i][0] = clock[0]
        try:
            res[i] = ("ok", callers[i]())
        except Stopped:
            pass
        except BaseException as e:  # noqa: BLE001
            res[i] = ("error", f"{type(e).__name__}: {e}"[:150])
        clock[0] += 1
        spans[i][1] = clock[0]
        t.done[i] = True
        _local.turns = None
        t.back.release()

    old = [(m, name, getattr(m, name)) for m, name in HOOKS]
    for m, name, fn in old:
        setattr(m, name, _wrap(fn))
    threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    trace = []
    try:
        for th in threads:
            th.start()
        last = None
        while not all(t.done):
            can = [i for i in range(n) if not t.done[i]]
            k = len(trace)
            who = choices[k] if k < len(choices) and choices[k] in can else (last if last in can else can[0])
            trace.append((can, last, who))
            last = who
            t.go[who].release()
            if not t.back.acquire(timeout=TIMEOUT):
                t.free = True
                for g in t.go:
                    for _ in range(1000):
                        g.release()
                break
        for th in threads:
            th.join(TIMEOUT)
    finally:
        for m, name, fn in old:
            setattr(m, name, fn)
    return res, [tuple(s) for s in spans], trace


