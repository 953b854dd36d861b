"""P01: preparation circuits prepare the logical state; verification accepts and keeps it."""

import numpy as np

import preplib as pl
import qlib

ASSUMPTIONS = ["codes with checks of both kinds"]


def generate(ctx):
    qlib.load()
    from mqt.qecc.codes import CSSCode, HexagonalColorCode, SquareOctagonColorCode
    from mqt.qecc import ft_stateprep as ft

    rng = ctx.rng
    named = [(n, CSSCode.from_code_name(n)) for n in ("steane", "tetrahedral", "hamming", "shor", "surface", "carbon", "golay")]
    named += [("surface 5", CSSCode.from_code_name("surface", 5)), ("[[4,2,2]]", CSSCode(2, np.array([[1] * 4]), np.array([[1] * 4]))),
              ("[[6,4,2]]", CSSCode(2, np.array([[1] * 6]), np.array([[1] * 6])))]
    named += [(f"hexagon {d}", HexagonalColorCode(d)) for d in (3, 5, 7)] + [(f"square octagon {d}", SquareOctagonColorCode(d)) for d in (3, 5, 7)]

    def add(label, circ, code, zero):
        ctx.add("PrepCircuit", label, **pl.state_case(circ, code, zero))

    def heuristic(label, code, ver):
        for zero in (True, False):
            for depth in (True, False):
                lab = f"{label}: heuristic, zero={zero}, depth={depth}"
                ctx.begin(lab)
                sp = ft.heuristic_prep_circuit(code, optimize_depth=depth, zero_state=zero)
                add(lab, sp.circ, code, zero)
            if ver:
                for full in (True, False):
                    lab = f"{label}: heuristic verification, zero={zero}, full={full}"
                    ctx.begin(lab)
                    add(lab, ft.heuristic_verification_circuit(sp, full_fault_tolerance=full), code, zero)
                lab = f"{label}: naive verification, zero={zero}"
                if code.distance < 7:
                    ctx.begin(lab)
                    add(lab, ft.naive_verification_circuit(sp), code, zero)

    def optimal(label, code, maker, zero, **kw):
        lab = f"{label}: {maker.__name__}, zero={zero}"
        ctx.begin(lab)
        sp = maker(code, zero_state=zero, max_timeout=4, **kw)
        if sp is not None:
            add(lab, sp.circ, code, zero)
            return sp
        return None

    for label, code in named:
        heuristic(label, code, label in ("steane", "shor", "surface", "[[4,2,2]]", "[[6,4,2]]", "carbon", "hexagon 3"))
        if code.n < 16:
            for i in range(2 if ctx.quick else 8):
                heuristic(f"{label} permuted {i}", pl.permuted(rng, code), False)
    for label, code in pl.small_codes(rng, 60 if ctx.quick else 600, 9):
        heuristic(label, code, False)
    steane = CSSCode.from_code_name("steane")
    for zero in (True, False):
        optimal("[[4,2,2]]", named[8][1], ft.gate_optimal_prep_circuit, zero)
        optimal("[[4,2,2]]", named[8][1], ft.depth_optimal_prep_circuit, zero)
        for i in range(1 if ctx.quick else 4):
            code = steane if i == 0 else pl.permuted(rng, steane)
            sp = optimal("steane", code, ft.gate_optimal_prep_circuit, zero, min_gates=8)
            if sp:
                lab = f"steane: optimal verification, zero={zero}"
                ctx.begin(lab)
                add(lab, ft.gate_optimal_verification_circuit(sp, max_timeout=4), code, zero)
            optimal("steane", code, ft.depth_optimal_prep_circuit, zero, min_depth=4)
    for label, code in pl.small_codes(rng, 4 if ctx.quick else 30, 5):
        for zero in (True, False):
            optimal(label, code, ft.gate_optimal_prep_circuit, zero)
            optimal(label, code, ft.depth_optimal_prep_circuit, zero)
