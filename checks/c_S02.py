"""S02: equality and hashes of stabilizer codes follow the signed stabilizer group."""

import numpy as np

import paulilib as pl
import qlib

ASSUMPTIONS = ["at most 7 qubits"]


def generate(ctx):
    qlib.load()
    from mqt.qecc.codes import CSSCode, StabilizerCode

    rng = ctx.rng

    def pair(label, g1, g2, make=None):
        ctx.begin(label, first=g1, second=g2)
        mk = make or (lambda g: StabilizerCode([pl.text(p, rng) for p in g], 3))
        ok, v = ctx.attempt(lambda: (mk(g1), mk(g2)))
        if ok:
            a, b = v
            ok, v = ctx.attempt(lambda: (bool(a == b), bool(b == a), hash(a) == hash(b), int(a.n), int(a.k)))
        r = v if ok else (False, False, False, 0, 0)
        ctx.add("StabilizerAlgebra", n=len(g1[0][1]), gens=[pl.rec(g) for g in g1], gens2=[pl.rec(g) for g in g2], distance=3, distance_=3,
                lx=[], lz=[], queries=[], equal=r[0], equal2=r[1], hashes=r[2], n_=r[3], k_=r[4], status="ok" if ok else v)

    for i in range(1500 if ctx.quick else 4000):
        n = rng.randint(1, 7)
        r = rng.randint(1, n)
        gens, xs, _ = pl.random_group(rng, n, r)
        other = pl.mix(rng, gens)
        how = rng.choice(["same", "same", "redundant", "sign", "fewer", "other", "more"])
        if how == "redundant":
            a = other[0]
            for g in other[1:]:
                if rng.random() < 0.5:
                    a = pl.mul(a, g)
            other.insert(rng.randrange(len(other) + 1), a)
        elif how == "sign":
            j = rng.randrange(r)
            other[j] = (1 - other[j][0], other[j][1])
        elif how == "fewer" and r > 1:
            other = other[:-1]
        elif how == "other":
            other = pl.random_group(rng, n, r)[0]
        elif how == "more" and xs:
            other.append(xs[0])
        pair(f"{how} {i}", gens, other)
    # CSS codes given by matrices
    for i in range(240 if ctx.quick else 600):
        n = rng.randint(2, 7)
        hx = [[rng.randrange(2) for _ in range(n)] for _ in range(rng.randint(1, 3))]
        free = [v for v in range(2**n) if all(sum(r[j] & v >> j for j in range(n)) % 2 == 0 for r in hx)]
        hz = [[v >> j & 1 for j in range(n)] for v in rng.choices(free, k=rng.randint(1, 3))]
        hx2, hz2 = [list(r) for r in hx], [list(r) for r in hz]
        how = rng.choice(["same", "mixed", "swapped", "changed"])
        if how == "mixed":
            for h in (hx2, hz2):
                if len(h) > 1:
                    h[0] = [a ^ b for a, b in zip(h[0], h[1])]
                    h.reverse()
        elif how == "swapped":
            hx2, hz2 = hz2, hx2
        elif how == "changed":
            hz2[0] = [v >> j & 1 for j, v in zip(range(n), [rng.choice(free)] * n)]

        def gens(x, z):
            return [(0, "".join("IX"[b] for b in r)) for r in x] + [(0, "".join("IZ"[b] for b in r)) for r in z]

        mats = {id(g): m for g, m in ()}
        g1, g2 = gens(hx, hz), gens(hx2, hz2)
        mats = {id(g1): (hx, hz), id(g2): (hx2, hz2)}
        pair(f"css {how} {i}", g1, g2, lambda g, m=mats: CSSCode(3, np.array(m[id(g)][0], dtype=np.int8), np.array(m[id(g)][1], dtype=np.int8)))
