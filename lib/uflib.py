"""Codes for the union-find decoders, in numbers small enough for TLC."""

import vlib


def rep(d):
    return [[1 if j in (i, i + 1) else 0 for j in range(d)] for i in range(d - 1)]


def ring(d):
    return [[1 if j in (i, (i + 1) % d) else 0 for j in range(d)] for i in range(d)]


def toric(w, h=None):
    h = h or w
    n = 2 * w * h
    out = []
    for r in range(h):
        for c in range(w):
            row = [0] * n
            for e in (r * w + c, ((r + 1) % h) * w + c, w * h + r * w + c, w * h + r * w + (c + 1) % w):
                row[e] ^= 1
            out.append(row)
    return out


def toric_vertex(w, h=None):
    """The checks of the other kind."""
    h = h or w
    n = 2 * w * h
    out = []
    for r in range(h):
        for c in range(w):
            row = [0] * n
            for e in (r * w + c, r * w + (c - 1) % w, w * h + r * w + c, w * h + ((r - 1) % h) * w + c):
                row[e] ^= 1
            out.append(row)
    return out


HAMMING = [[1, 0, 1, 0, 1, 0, 1], [0, 1, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]]
SURF3 = [[1, 1, 0, 1, 1, 0, 0, 0, 0], [0, 0, 0, 0, 1, 1, 0, 1, 1], [0, 0, 1, 0, 0, 1, 0, 0, 0], [0, 0, 0, 1, 0, 0, 1, 0, 0]]
SURF3X = [[1, 1, 0, 0, 0, 0, 0, 0, 0], [0, 1, 1, 0, 1, 1, 0, 0, 0], [0, 0, 0, 1, 1, 0, 1, 1, 0], [0, 0, 0, 0, 0, 0, 0, 1, 1]]
CODES = {"rep5": rep(5), "rep9": rep(9), "ring5": ring(5), "ring8": ring(8), "hamming": HAMMING, "surf3": SURF3, "toric2": toric(2),
         "toric3": toric(3), "toric23": toric(2, 3)}
# every check pair of a bit is as in a graph: a single error is always found
REGULAR = ("ring5", "ring8", "toric3", "toric23")


def boolmat(h):
    return [[bool(x) for x in r] for r in h]


def syn(h, e):
    return [sum(a & b for a, b in zip(r, e)) & 1 for r in h]


def random_pcm(rng, m, n, lo=2, hi=4):
    """A sparse matrix without empty rows and columns."""
    while True:
        h = [[0] * n for _ in range(m)]
        for r in h:
            for j in rng.sample(range(n), rng.randint(lo, min(hi, n))):
                r[j] = 1
        if all(any(h[i][j] for i in range(m)) for j in range(n)):
            return h


def masks(h):
    return [vlib.bits(r) for r in h]
