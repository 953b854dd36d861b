"""E02: one fault on a data qubit between two gates does not change what an encoded circuit measures."""

import ecclib as el

ASSUMPTIONS = [
    "faults are single Pauli operators on a data qubit between two gates (bit flips for Q3Shor and Q18Surface)",
    "stabilizer semantics of the gates (tableau of TLA+ module Tableau)",
    "Q7Steane circuits without T gates (its T gate spreads a fault over the block), Q18Surface circuits without H (it only corrects bit flips)",
]
FAULTS = {"Q3Shor": "x", "Q5Laflamme": "xyz", "Q7Steane": "xyz", "Q9Shor": "xyz", "Q9Surface": "xyz", "Q18Surface": "x"}
GATES1 = {**el.ONE, "Q7Steane": ["x", "y", "z", "h", "s", "sdg"], "Q18Surface": ["x", "y", "z"]}


def generate(ctx):
    mod = el.build()
    rng = ctx.rng

    def enc(text, ecc, freq):
        return el.encode(mod, ctx.scratch, text, ecc, freq)

    def run(ecc, nq, gates, freq, per_window, limit, label):
        """Faults at the positions between the gates. per_window: one fault after every gate, else a single one."""
        cregs = [("c", nq)]
        meas = [(i, "c", i) for i in range(nq)]
        text = el.program(nq, cregs, gates, meas)
        ctx.begin(label, program=text, ecc=ecc, freq=freq)
        ok, full = ctx.attempt(enc, text, ecc, freq)
        if not ok:
            ctx.add("EccCircuit", **{**el.REFUSED, "info": full, "program": text})
            return
        def prefix(gates_a, gates_b, f):
            return el.common_prefix(enc(el.program(nq, cregs, gates_a, []), ecc, f),
                                    enc(el.program(nq, cregs, gates_b, []), ecc, f))

        # length of the circuit up to gate k, without corrections in between
        upto = [prefix(gates[:k], [*gates[:k], ("x", [0])], 0) for k in range(len(gates) + 1)]
        cut = []
        for k in range(1, len(gates) + 1):
            if freq == 1 and k > 1:
                start = prefix(gates[: k - 1], gates[:k], 1)  # the correction after gate k-1 is part of it
                cut.append(start + upto[k] - upto[k - 1])
            else:
                cut.append(upto[k])
        _, other = ctx.attempt(enc, el.program(nq, cregs, [*gates, ("x", [0])], meas), ecc, freq)
        fork = el.common_prefix(full, other)
        data = range(nq * el.SIZE[ecc][0])
        touched = {q for o in el.parse(full)["ops"] for q in o["q"]}
        data = [d for d in data if d in touched]
        if per_window:
            plans = []
            for _ in range(limit):
                plans.append([(p, rng.choice(FAULTS[ecc]), rng.choice(data)) for p in cut])
        elif limit == "spread":  # bit flips where the state is a Z basis state, the others where it is an X basis state, both ends
            plans = [[(p, f, d)] for f in FAULTS[ecc] for d in data for p in {cut[0], cut[-1]}]
        else:
            plans = [[(p, f, d)] for p in (cut if limit is None else [rng.choice(cut)]) for f in FAULTS[ecc] for d in data]
            if isinstance(limit, int) and len(plans) > limit:
                plans = rng.sample(plans, limit)
        for pl in plans:
            script = [rng.randrange(2) for _ in range(61)]
            ctx.add("EccCircuit", f"{label} faults {pl}", program=text,
                    **el.case(text, full, script=script, inject=pl, fork=fork, tmode="s"))

    for ecc in FAULTS:
        has_h = "h" in GATES1[ecc]
        # a circuit that shows every logical error, every fault after every gate
        base = [("h", [0]), ("z", [0]), ("h", [0])] if has_h else [("x", [0]), ("y", [0])]
        run(ecc, 1, base, 100, False, None if not ctx.quick else "spread", f"{ecc}: exhaustive")
        for i in range(2 if ctx.quick else 8):
            n = rng.randint(1, 2 if ecc != "Q18Surface" else 1)
            nq = n if ecc != "Q5Laflamme" else rng.randint(1, 3)
            gates = []
            for _ in range(rng.randint(2, 5)):
                if nq > 1 and el.TWO[ecc] and rng.random() < 0.4:
                    gates.append((rng.choice(el.TWO[ecc]), rng.sample(range(nq), 2)))
                else:
                    gates.append((rng.choice(GATES1[ecc]), [rng.randrange(nq)]))
            run(ecc, nq, gates, rng.choice([0, 100]), False, 10, f"{ecc}: random {i} {gates}")
            run(ecc, nq, gates, 1, True, 5, f"{ecc}: every window {i} {gates}")
