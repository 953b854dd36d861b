"""C02: the MaxSAT decoder of colour codes finds lightest corrections, pattern after pattern."""

import numpy as np

import qlib
import vlib

ASSUMPTIONS = ["every light has at least two switches", "minimality up to the stated number of switches for distances 7 and 9"]


def generate(ctx):
    qlib.load()
    from mqt.qecc.cc_decoder.decoder import LightsOut
    from mqt.qecc.codes import HexagonalColorCode, SquareOctagonColorCode

    rng = ctx.rng

    def history(label, l2s, s2l, patterns, depth, fresh_every=0):
        ctx.begin(label, lights=l2s)
        cols = [sum(1 << f for f in s2l[q]) for q in range(len(s2l))]
        trace = []
        prob = None
        for i, (lights, most, correct, parity) in enumerate(patterns):
            if prob is None or (fresh_every and i % fresh_every == 0):
                prob = LightsOut(dict(l2s), dict(s2l))
                prob.preconstruct_z3_instance()
            ok, val = ctx.attempt(prob.solve, [bool(b) for b in lights])
            ev = {"lights": vlib.bits(lights), "most": most, "correct": correct, "parity": parity, "status": "ok", "switches": []}
            if ok:
                ev["switches"] = vlib.vec(val[0])
            else:
                ev["status"] = val
            trace.append(ev)
        ctx.add("LightsOut", kind="solve", cols=cols, depth=depth, trace=trace)

    codes = [("hexagon", HexagonalColorCode, d, n) for d, n in ((3, 40), (5, 120), (7, 60))]
    codes += [("square_octagon", SquareOctagonColorCode, d, n) for d, n in ((3, 20), (5, 100), (7, 60))]
    if not ctx.quick:
        codes += [("hexagon", HexagonalColorCode, 9, 1), ("square_octagon", SquareOctagonColorCode, 9, 1)]
    for name, cls, d, num in codes:
        code = cls(d)
        n, t = code.n, (d - 1) // 2
        logical = qlib.ones(code.L[0])
        pats = []
        if n <= 7:
            errs = [[b >> i & 1 for i in range(n)] for b in range(2**n)]
            rng.shuffle(errs)
        else:
            errs = []
            for _ in range(num * (1 if ctx.quick else 8) if d < 9 else 150):
                w = rng.choice([*range(1, t + 1), rng.randint(1, n)])
                e = [0] * n
                for q in rng.sample(range(n), w):
                    e[q] = 1
                errs.append(e)
        for e in errs:
            s = vlib.vec(code.get_syndrome(np.array(e)))
            small = sum(e) <= t
            pats.append((s, sum(e), logical if small else [], sum(e[i] for i in logical) % 2 if small else 0))
        for i in range(0, len(pats), 40):
            history(f"{name} {d}, patterns from {i}", code.faces_to_qubits, code.qubits_to_faces, pats[i : i + 40],
                    {3: 20, 5: 20, 7: 3 if ctx.quick else 4, 9: 3}[d], rng.choice([0, 0, 5]))

    for i in range(25 if ctx.quick else 250):
        n, m = rng.randint(3, 12), rng.randint(2, 9)
        l2s = {f: sorted(rng.sample(range(n), rng.randint(2, min(n, 6)))) for f in range(m)}
        if rng.random() < 0.3:
            l2s[m - 1] = list(l2s[0])  # dependent lights: some patterns have no solution
        for f in l2s:
            rng.shuffle(l2s[f])
        s2l = {q: [f for f in l2s if q in l2s[f]] for q in range(n)}
        pats = []
        for _ in range(12):
            if rng.random() < 0.3:
                pats.append(([rng.randrange(2) for _ in range(m)], n, [], 0))
            else:
                e = {q for q in range(n) if rng.random() < 0.4}
                pats.append(([len(e & set(l2s[f])) % 2 for f in range(m)], len(e), [], 0))
        history(f"problem {i}", l2s, s2l, pats, 20)
