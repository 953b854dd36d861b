"""S01: stabilizer codes: refusal of invalid ones, syndromes, equivalence, strings."""

import numpy as np

import paulilib as pl
import qlib
import vlib

ASSUMPTIONS = ["at most 7 qubits", "signs are ignored by syndromes and equivalence"]


def generate(ctx):
    qlib.load()
    from mqt.qecc.codes import StabilizerCode
    from mqt.qecc.codes import stabilizer_code as sc

    rng = ctx.rng

    def one(label, gens, dist=3, lx=(), lz=(), raw=None, binary=False):
        """raw: strings handed over as they are."""
        n = len(gens[0][1]) if gens else 0
        strings = raw if raw is not None else [pl.text(g, rng) for g in gens]
        ctx.begin(label, gens=strings)
        arg = np.array([pl.binary(g) for g in gens]) if binary else strings
        kw = {}
        if lx:
            kw["Lx"] = [pl.text(p, rng) for p in lx]
        if lz:
            kw["Lz"] = [pl.text(p, rng) for p in lz]
        ok, code = ctx.attempt(lambda: StabilizerCode(arg, dist, **kw))
        case = {"n": n, "gens": [pl.rec(g) for g in gens] if raw is None else [pl.parse(s) for s in raw], "distance": dist,
                "lx": [pl.rec(p) for p in lx], "lz": [pl.rec(p) for p in lz], "gens2": [], "queries": [], "n_": 0, "k_": 0, "distance_": 0}
        if ok:
            case.update(n_=int(code.n), k_=int(code.k), distance_=int(code.distance))
            qs = []
            for _ in range(4):
                e = pl.rand(rng, n)
                err = pl.text(e) if rng.random() < 0.6 else np.array(pl.binary(e))
                ok2, v = ctx.attempt(code.get_syndrome, err)
                qs.append({"f": "syndrome", "a": pl.rec(e), "b": pl.rec(e), "val": vlib.vec(v) if ok2 else []})
                f = pl.rand(rng, n)
                if rng.random() < 0.7:
                    f = e
                    for g in gens:
                        if rng.random() < 0.5:
                            f = (rng.randrange(2), pl.mul(f, g)[1])
                    if rng.random() < 0.2:
                        f = pl.mul(f, pl.rand(rng, n))
                ok2, v = ctx.attempt(code.stabilizer_equivalent, pl.text(e), pl.text(f) if rng.random() < 0.6 else np.array(pl.binary(f)))
                qs.append({"f": "equivalent", "a": pl.rec(e), "b": pl.rec(f), "val": v})
                ok2, v = ctx.attempt(sc.commute, np.array(pl.binary(e)[:-1]), np.array(pl.binary(f)[:-1]))
                qs.append({"f": "commute", "a": pl.rec(e), "b": pl.rec(f), "val": v})
            ok2, v = ctx.attempt(code.stabs_as_pauli_strings)
            qs.append({"f": "strings", "a": pl.rec(e), "b": pl.rec(e), "val": [pl.parse(s) for s in v] if ok2 else []})
            case["queries"] = qs
        ctx.add("StabilizerAlgebra", **case, status="ok" if ok else code)

    for i in range(700 if ctx.quick else 2500):
        n = rng.randint(1, 7)
        r = rng.randint(1, n)
        gens, xs, zs = pl.random_group(rng, n, r)
        gens = pl.mix(rng, gens)
        if rng.random() < 0.3:  # a redundant generator
            a = gens[0]
            for g in gens[1:]:
                if rng.random() < 0.5:
                    a = pl.mul(a, g)
            gens.insert(rng.randrange(len(gens) + 1), a)
        kind = rng.choice(["plain", "plain", "binary", "logicals", "badlogicals", "anticommuting", "letters", "lengths", "distance"])
        if kind == "plain":
            one(f"code {i}", gens)
        elif kind == "binary":
            one(f"binary code {i}", gens, binary=True)
        elif kind == "logicals":
            m = rng.randint(0, len(xs))
            xs2, zs2 = list(xs[:m]), list(zs[:m])
            xs2 = [pl.mul(p, rng.choice(gens)) if rng.random() < 0.5 else p for p in xs2]
            rng.shuffle(xs2)
            one(f"code with logicals {i}", gens, lx=xs2, lz=zs2)
        elif kind == "badlogicals":
            how = rng.randrange(11)
            xs2, zs2 = list(xs), list(zs)
            if how >= 9:  # only one side
                xs2, zs2 = (xs2, []) if how == 9 else ([], zs2)
            elif how >= 5 and xs2:
                # keeps the relations among the logical operators and breaks the one with a stabilizer
                mine, other = (xs2, zs2) if how % 2 else (zs2, xs2)
                for _ in range(300):
                    p = pl.rand(rng, n)
                    if not any(pl.anti(p, o) for o in other) and any(pl.anti(p, g) for g in gens):
                        j = rng.randrange(len(mine))
                        mine[j] = pl.mul(mine[j], p)
                        break
            if how == 0 and xs2:
                xs2[0] = pl.rand(rng, n)
            elif how == 1 and zs2:
                zs2[0] = gens[0]
            elif how == 2 and xs2:
                xs2 = xs2[:-1]
            elif how == 3 and len(xs2) > 1:
                xs2[0] = xs2[1]
            elif how == 4 and xs2:
                xs2.append(xs2[0])
            one(f"code with questionable logicals {i}", gens, lx=xs2, lz=zs2)
        elif kind == "anticommuting":
            g = list(gens)
            g[rng.randrange(len(g))] = pl.rand(rng, n)
            one(f"random generators {i}", g)
        elif kind == "letters":
            raw = [pl.text(g, rng) for g in gens]
            j = rng.randrange(len(raw))
            raw[j] = raw[j][:-1] + rng.choice("IXYZABixz1-")
            if raw[j].strip("+-"):  # at least one qubit
                one(f"letters {i}", gens, raw=raw)
        elif kind == "lengths":
            raw = [pl.text(g, rng) for g in gens]
            j = rng.randrange(len(raw))
            raw[j] = rng.choice([raw[j] + "I", raw[j][:-1], raw[j]])
            if len(raw) > 1 and raw[j].strip("+-"):
                one(f"lengths {i}", gens, raw=raw)
        else:
            one(f"distance {i}", gens, dist=rng.choice([-2, 0, 1, 5]))
    ctx.begin("no generators")
    ok, v = ctx.attempt(StabilizerCode, [])
    ctx.add("StabilizerAlgebra", n=0, gens=[], distance=1, lx=[], lz=[], gens2=[], queries=[], n_=0, k_=0, distance_=0, status="ok" if ok else v)
