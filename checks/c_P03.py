"""P03: verified preparation circuits are fault tolerant."""

import numpy as np

import preplib as pl
import qlib

ASSUMPTIONS = ["faults are Pauli errors after gates, at inputs and before measurements", "one fault, two for the code of distance 5"]


def generate(ctx):
    qlib.load()
    from mqt.qecc.codes import CSSCode, HexagonalColorCode, SquareOctagonColorCode
    from mqt.qecc import ft_stateprep as ft

    rng = ctx.rng

    def one(label, code, zero, full, verify, sp=None, **kw):
        label = f"{label}: {verify.__name__}, zero={zero}, full={full}"
        ctx.begin(label)
        sp = sp or ft.heuristic_prep_circuit(code, zero_state=zero, optimize_depth=rng.random() < 0.5)
        circ = verify(sp, full_fault_tolerance=full, **kw)
        t = int(sp.max_errors)
        case = pl.state_case(circ, code, zero, judge=True)
        if full or zero:
            case["allowx"] = pl.allowed(code, t, "x")
        if full or not zero:
            case["allowz"] = pl.allowed(code, t, "z")
        ctx.add("PrepCircuit", **case)

    heur, opt = ft.heuristic_verification_circuit, ft.gate_optimal_verification_circuit
    named = [(n, CSSCode.from_code_name(n)) for n in ("steane", "shor", "surface", "carbon", "hamming", "tetrahedral")]
    named += [("hexagon 3", HexagonalColorCode(3)), ("square octagon 3", SquareOctagonColorCode(3)),
              ("[[4,2,2]]", CSSCode(2, np.array([[1] * 4]), np.array([[1] * 4]))), ("[[6,4,2]]", CSSCode(2, np.array([[1] * 6]), np.array([[1] * 6])))]
    for label, code in named:
        for i in range((3 if code.n < 10 else 1) if ctx.quick else 10):
            cd = code if i == 0 else pl.permuted(rng, code)
            for zero in (True, False):
                for full in (True, False):
                    one(f"{label} {i}", cd, zero, full, heur, find_coset_leaders=rng.random() < 0.7)
                    if i == 0 and code.n < 10:
                        one(f"{label} {i}", cd, zero, full, opt, max_timeout=3)
    for label, code in pl.small_codes(rng, 20 if ctx.quick else 250, 7):
        zero = rng.random() < 0.5
        sp = ft.heuristic_prep_circuit(code, zero_state=zero)
        if sp.circ.count_ops().get("cx", 0):
            one(label, code, zero, rng.random() < 0.7, heur, sp=sp)
            if rng.random() < 0.25:
                one(label, code, zero, rng.random() < 0.7, opt, sp=sp, max_timeout=3)
    so5 = SquareOctagonColorCode(5)
    for zero in (True,) if ctx.quick else (True, False):
        one("square octagon 5", so5, zero, True, heur)
