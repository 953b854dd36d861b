"""P02: fault sets hold what few faults can end in, up to stabilizers and small errors."""

import numpy as np

import preplib as pl
import qlib

ASSUMPTIONS = ["circuits of H gates on some inputs followed by CX gates"]


def generate(ctx):
    qlib.load()
    from mqt.qecc.codes import CSSCode, HexagonalColorCode, SquareOctagonColorCode
    from mqt.qecc import ft_stateprep as ft
    from mqt.qecc.ft_stateprep.state_prep import StatePrepCircuit
    from qiskit import QuantumCircuit

    rng = ctx.rng

    def one(label, circ, code, zero, t, detection=False, state=False, combine=0):
        """Fault sets of up to t faults; state: the circuit prepares the state."""
        ctx.begin(label)
        case = pl.state_case(circ, code, zero)
        if not state:
            case.update(wanted=[], input=[])
        sets = []
        extra = {"extrax": [], "extraz": []}
        if combine:
            n = int(code.Hx.shape[1])
            kind = rng.choice("xz")
            add = np.array([[rng.randrange(2) for _ in range(n)] for _ in range(rng.randint(combine, 3))], dtype=np.int8)
            sp = StatePrepCircuit(circ, code, zero, error_detection_code=detection)
            for k, f in enumerate(sp.combine_faults(add, x_errors=kind == "x")):
                if f is not None:
                    sets.append(pl.fault_set(k, kind.upper(), f, False))
            extra["extra" + kind] = qlib.supports(add)
        else:
            for reduce in (True, False):
                sp = StatePrepCircuit(circ, code, zero, error_detection_code=detection)
                ks = list(range(1, t + 1))
                if rng.random() < 0.5:  # the sets are kept: their order must not matter
                    ks.reverse()
                for k in ks:
                    for x in (True, False):
                        sets.append(pl.fault_set(k, "X" if x else "Z", sp.compute_fault_set(k, x_errors=x, reduce=reduce), reduce))
                sp.compute_fault_sets()
        ctx.add("PrepCircuit", **{**case, "allowx": pl.allowed(code, t, "x"), "allowz": pl.allowed(code, t, "z"), "sets": sets,
                                  "nfaults": max([len(s["faults"]) for s in sets] + [0]), **extra})

    named = [(n, CSSCode.from_code_name(n)) for n in ("steane", "shor", "surface", "carbon", "hamming", "tetrahedral")]
    named += [("hexagon 3", HexagonalColorCode(3)), ("[[4,2,2]]", CSSCode(2, np.array([[1] * 4]), np.array([[1] * 4])))]
    for label, code in named:
        for i in range((2 if code.n < 10 else 1) if ctx.quick else 6):
            cd = code if i == 0 else pl.permuted(rng, code)
            for zero in (True, False):
                sp = ft.heuristic_prep_circuit(cd, optimize_depth=bool(i % 2), zero_state=zero)
                t = 1
                if label == "carbon" and not ctx.quick:
                    one(f"{label} {i}, zero={zero}, detection", sp.circ, cd, zero, 2, detection=True)
                one(f"{label} {i}, zero={zero}", sp.circ, cd, zero, t, state=True)
                if cd.n < 10:
                    one(f"{label} {i}, zero={zero}, combined", sp.circ, cd, zero, t, combine=1)
    if not ctx.quick:
        for label, code in (("square octagon 5", SquareOctagonColorCode(5)),):
            sp = ft.heuristic_prep_circuit(code)
            one(label, sp.circ, code, True, 2, state=True)

    for i, (label, code) in enumerate(pl.small_codes(rng, 24 if ctx.quick else 200, 6)):
        d = rng.choice([3, 3, 4, 5, 5, 7])
        dx, dz = (d + rng.choice([0, 0, 2, 4]), d + rng.choice([0, 0, 2, 4]))
        code = CSSCode(d, code.Hx, code.Hz, x_distance=dx, z_distance=dz)
        detection = rng.random() < 0.3
        t = d // 2 if detection else (d - 1) // 2
        zero = rng.random() < 0.5
        n = code.n
        if rng.random() < 0.4:
            circ = ft.heuristic_prep_circuit(code, zero_state=zero).circ
            state = True
            if circ.count_ops().get("cx", 0) == 0:
                continue
        else:  # any circuit
            state = False
            circ = QuantumCircuit(n)
            for q in rng.sample(range(n), rng.randint(0, n)):
                circ.h(q)
            for _ in range(rng.randint(1, 3 * n)):
                circ.cx(*rng.sample(range(n), 2))
        one(f"{label} with distances {d}, {dx}, {dz}, zero={zero}", circ, code, zero, t, detection=detection, state=state, combine=int(rng.random() < 0.3))

    # long codes with few checks and short circuits: combinations of several faults that nothing else explains
    from c_S03 import orthogonal

    made = 0
    while made < (14 if ctx.quick else 60):
        n = rng.randint(7, 9)
        hx, hz = orthogonal(rng, n)
        hx, hz = hx[: rng.randint(1, 2)], hz[: rng.randint(1, 2)]
        if not (hx and hz and any(map(any, hx)) and any(map(any, hz))):
            continue
        d = rng.choice([5, 5, 7])
        code = CSSCode(d, np.array(hx, dtype=np.int8), np.array(hz, dtype=np.int8))
        circ = QuantumCircuit(n)
        for q in rng.sample(range(n), rng.randint(1, n)):
            circ.h(q)
        for _ in range(rng.randint(1, 4)):
            circ.cx(*rng.sample(range(n), 2))
        one(f"long code {made}, distance {d}", circ, code, rng.random() < 0.5, (d - 1) // 2, combine=2 * (made % 4 != 3))
        made += 1
