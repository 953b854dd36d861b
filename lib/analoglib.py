"""Stand-ins for the external decoders, recording what the simulators give them."""

import json
import os
import random
import sys
from contextlib import contextmanager

import numpy as np

import qlib


class Recorder:
    """What the decoders of one simulation were given and what they answered."""

    def __init__(self, seed=0, density=0.3):
        self.events = []
        self.rng = random.Random(seed)
        self.density = density
        self.plan = None  # function(pcm, syndrome) -> estimate, or None

    def answer(self, pcm, syndrome):
        if self.plan:
            return np.array(self.plan(pcm, syndrome), dtype=int)
        return np.array([int(self.rng.random() < self.density) for _ in range(pcm.shape[1])], dtype=int)


class Stop(BaseException):
    """Ends a simulation in the middle, as a user or a crash would."""


def stopping(rec, k):
    """The recorder ends the simulation instead of answering for the k+1st time."""

    def stop(pcm, _):
        if len(rec.events) == k:
            raise Stop
        return [int(rec.rng.random() < rec.density) for _ in range(pcm.shape[1])]

    rec.plan = stop


current = Recorder()


def dense(m):
    return np.array(m.todense() if hasattr(m, "todense") else m)


class StubDecoder:
    """Takes the place of ldpc's bposd_decoder."""

    def __init__(self, parity_check_matrix=None, *args, channel_probs=None, error_rate=None, **kwargs):
        self.pcm = np.array(dense(parity_check_matrix)).astype(int)
        self.kwargs = kwargs
        self.channel_probs = np.array(channel_probs, dtype=float) if channel_probs is not None else np.array([])
        self.iter = 1
        self.rec = current

    def update_channel_probs(self, p):
        self.channel_probs = np.array(p, dtype=float)

    def decode(self, syndrome):
        s = np.array(syndrome, dtype=float).copy()
        out = self.rec.answer(self.pcm, s)
        self.rec.events.append({"pcm": self.pcm, "ch": self.channel_probs.copy(), "in": s, "out": out.copy(), "obj": self})
        return out


class StubMatching:
    """Takes the place of pymatching's Matching."""

    def __init__(self, graph=None, weights=None, **kwargs):
        self.pcm = np.array(dense(graph)).astype(int)
        self.weights = np.array(weights, dtype=float)
        self.rec = current

    def decode(self, syndrome, **kwargs):
        s = np.array(syndrome, dtype=float).copy()
        out = self.rec.answer(self.pcm, s)
        self.rec.events.append({"pcm": self.pcm, "ch": self.weights.copy(), "in": s, "out": out.copy(), "obj": self})
        return out


def load(stub=True):
    """Imports the analog package, with the stand-ins in place of the external decoders."""
    qlib.load()
    if stub:
        import ldpc
        import ldpc.osd
        import pymatching

        ldpc.bposd_decoder = StubDecoder
        ldpc.osd.bposd_decoder = StubDecoder
        pymatching.Matching = StubMatching
    from mqt.qecc import analog_information_decoding  # noqa: F401


def start(seed=0, density=0.3):
    global current
    current = Recorder(seed, density)
    return current


@contextmanager
def inside(path):
    """Runs in a folder of the check, since results are written below the working directory."""
    old = os.getcwd()
    os.makedirs(path, exist_ok=True)
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


@contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        yield
    finally:
        sys.stdout.close()
        sys.stdout = old


def mask(v):
    return sum(1 << i for i, b in enumerate(v) if int(round(float(b))) % 2)


def rows(m):
    return [mask(r) for r in np.atleast_2d(np.array(m))] if m is not None and len(m) else []


def binary(v):
    """The vector has only zeros and ones."""
    return all(float(x) in (0.0, 1.0) for x in v)


def scaled(x, f):
    x = float(x)
    return -1 if not np.isfinite(x) else int(max(-1, min(x * f + 0.5, 2**30)))
