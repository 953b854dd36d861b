"""E01: an encoded circuit behaves like the original circuit."""

import random

import ecclib as el

ASSUMPTIONS = [
    "stabilizer semantics of the gates (tableau of TLA+ module Tableau)",
    "T and Tdg are replaced by S/Sdg and by Z on both sides (two runs)",
    "measurements of the original circuit come last",
]


def generate(ctx):
    mod = el.build()
    rng = ctx.rng

    def one(label, text, ecc, freq, known=None, **kw):
        if ecc == "Q18Surface" and text.count("\nh ") > 1 and freq and not known:
            freq = 100  # known finding: corrections between two H's of Q18Surface
        ctx.begin(label, program=text, ecc=ecc, freq=freq)
        ok, enc = ctx.attempt(el.encode, mod, ctx.scratch, text, ecc, freq)
        if not ok:
            ctx.add("EccCircuit", **{**el.REFUSED, "info": enc, "program": text})
            return
        # random outcomes from the last correction on split the distribution
        head, _, meas = text.partition("measure ")
        _, other = ctx.attempt(el.encode, mod, ctx.scratch, head + "x q[0];\nmeasure " + meas, ecc, freq)
        ctx.add("EccCircuit", program=text, **el.case(text, enc, fork=el.common_prefix(enc, other), **kw), known=known)

    def script():
        return [rng.randrange(2) for _ in range(61)]

    for i in (16, 29, 42):
        one("Q18Surface: h h, corrected after every gate", el.program(1, [("c", 1)], [("h", [0]), ("h", [0])], [(0, "c", 0)]),
            "Q18Surface", 1, known="E01-Q18-H", script=random.Random(i).choices([0, 1], k=61))

    # every gate alone, seen in both bases where the code has an H
    for ecc in el.CODES:
        has_h = "h" in el.ONE[ecc]
        for g in el.ONE[ecc]:
            for pre, post in ([("", ""), ("h", "h"), ("h", "")] if has_h else [("", ""), ("x", "")]):
                gates = [(p, [0]) for p in (pre, g, post) if p]
                text = el.program(1, [("c", 1)], gates, [(0, "c", 0)])
                modes = ["s", "z"] if g in ("t", "tdg") else ["s"]
                for m in modes:
                    one(f"{ecc}: {pre} {g} {post} ({m})", text, ecc, rng.choice([0, 1, 2, 100]), tmode=m, script=script())
        for g in el.TWO[ecc]:
            pres = [[], [("x", [0])], [("x", [1])]] + ([[("h", [0])], [("h", [1])], [("h", [0]), ("h", [1])]] if has_h else [])
            for pre in pres:
                post = [("h", [0]), ("h", [1])] if has_h and rng.random() < 0.6 else []
                text = el.program(2, [("c", 2)], [*pre, (g, [0, 1] if rng.random() < 0.5 else [1, 0]), *post],
                                  [(0, "c", 1), (1, "c", 0)])
                one(f"{ecc}: {pre} {g} {post}", text, ecc, rng.choice([0, 1, 3, 100]), script=script())
    # Toffoli gates of Q3Shor, on basis states
    for a in (0, 1, 2, 3):
        gates = [("x", [i]) for i in (0, 1) if a >> i & 1] + [("ccx", [0, 1, 2]), ("cx", [2, 1])]
        text = el.program(3, [("c", 3)], gates, [(i, "c", i) for i in range(3)])
        one(f"Q3Shor: ccx on {a}", text, "Q3Shor", rng.choice([0, 1, 100]), script=script())
    # every outcome of every syndrome measurement, for a single qubit
    for ecc in el.CODES:
        if ecc == "Q9Surface" and ctx.quick:
            continue
        g = ["x", "h", "z", "h"] if "h" in el.ONE[ecc] and ecc != "Q9Surface" else ["y", "x", "z"]
        text = el.program(1, [("c", 1)], [(x, [0]) for x in g], [(0, "c", 0)])
        one(f"{ecc}: all syndromes", text, ecc, 2 if ecc == "Q3Shor" else 100)
    # random circuits
    reps = {"Id": 4, "Q3Shor": 6, "Q5Laflamme": 4, "Q7Steane": 8, "Q9Shor": 4, "Q9Surface": 5, "Q18Surface": 4}
    mult = 1 if ctx.quick else 12
    for ecc in el.CODES:
        for i in range(reps[ecc] * mult):
            top = {"Id": 5, "Q3Shor": 5, "Q5Laflamme": 4, "Q7Steane": 3, "Q9Shor": 2, "Q9Surface": 2, "Q18Surface": 3}[ecc]
            nq = rng.randint(1, top)
            cregs = rng.choice([[("c", nq)], [("c", nq)], [("b", 2), ("a", nq)], [("m", 1), ("c", 1), ("k", nq)], [("c", nq + 2)]])
            text, _, _ = el.random_program(rng, ecc, nq, rng.randint(1, 8 if ctx.quick else 16), cregs=cregs)
            freq = rng.choice([0, 1, 2, 3, 5, 100])
            for _ in range(4 if ecc == "Q9Surface" else 1):
                one(f"{ecc}: random {i}, correction every {freq}", text, ecc, freq, tmode=rng.choice("sz"), script=script())
