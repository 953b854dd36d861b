"""P04: flagged stabilizer measurements measure the stabilizer and flag spreading faults."""

import preplib as pl
import qlib

ASSUMPTIONS = ["faults are Pauli errors after gates, at inputs and before measurements"]


def generate(ctx):
    qlib.load()
    from mqt.qecc.ft_stateprep import state_prep as m
    from qiskit import AncillaRegister, ClassicalRegister, QuantumCircuit, QuantumRegister

    rng = ctx.rng

    def one(w, t, z, how, spectators, order):
        n = w + spectators
        ctx.begin(f"weight {w}, {t} faults, {'Z' if z else 'X'}, {how.__name__}, spectators {spectators}, order {order}")
        data, anc, cl = QuantumRegister(n, "q"), AncillaRegister(2, "a"), ClassicalRegister(2, "c")
        qc = QuantumCircuit(data, anc, cl)
        which = rng.randrange(2)
        args = [data[i] for i in order]
        if rng.random() < 0.5:
            args = order
        if how is m.measure_flagged:
            how(qc, args, anc[which], cl[which], t, z_measurement=z)
        else:
            how(qc, args, anc[which], cl[which], z_measurement=z)
        ops = pl.ops(qc)
        meas = [o for o in ops if o[0] == "measure"]
        none = {"x": [], "z": []}
        a, b = ("z", "x") if z else ("x", "z")
        me = lambda k, s: {**none, k: sorted(s)}  # noqa: E731
        # operators that commute with the stabilizer come out as they went in
        wanted = [me(a, [q]) for q in range(n)] + [me(b, [q]) for q in range(n) if q not in order] + [me(b, [order[0], q]) for q in order[1:]]
        single = [[q] for q in range(n)]
        pairs = [[order[0], q] for q in order[1:]] + [[q] for q in range(n) if q not in order]
        case = {**pl.EMPTY, "nq": int(qc.num_qubits), "data": list(range(n)), "ops": ops, "nmeas": len(meas), "open": list(range(n)),
                # errors of the kind of the stabilizer count up to the stabilizer
                "kx": single if z else pairs, "kz": pairs if z else single, "wanted": wanted, "input": wanted,
                "minput": [me(a, order) if o[2] == which else none for o in meas],
                "flags": [i for i, o in enumerate(meas) if o[2] != which], "bits": [which, *range(2, qc.num_clbits)],
                "judge": True, "allowx": list(range(1, t + 1)), "allowz": list(range(1, t + 1))}
        ctx.add("PrepCircuit", **case)

    for z in (True, False):
        for t in (1, 2):
            for w in range(1, 13 if ctx.quick else 17):
                one(w, t, z, m.measure_flagged, 0, list(range(w)))
                order = rng.sample(range(w + 2), w)
                one(w, t, z, m.measure_flagged, 2, order)
        for w in range(5, 13):
            one(w, 2, z, m.measure_stab_two_flagged, 0, list(range(w)))
        one(4, 2, z, m.measure_flagged_4, 1, [3, 1, 0, 4])
        one(6, 2, z, m.measure_flagged_6, 1, [3, 1, 0, 4, 6, 2])
        one(8, 2, z, m.measure_flagged_8, 1, [3, 1, 0, 4, 6, 2, 8, 5])
