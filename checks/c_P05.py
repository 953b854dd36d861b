"""P05: gate- and depth-optimal preparation circuits and optimal verification measurements are optimal."""

import numpy as np

import preplib as pl
import qlib
import vlib

ASSUMPTIONS = ["searches that end before their timeout: preparation of at most 6 qubits", "states that need at least one CX"]
EMPTY = {"steps": [], "faults": [], "meas": [], "found": True, "budget": 0, "most": 0, "judge": True}


def generate(ctx):
    qlib.load()
    from mqt.qecc import ft_stateprep as ft
    from mqt.qecc.codes import CSSCode
    from mqt.qecc.ft_stateprep.state_prep import heuristic_verification_stabilizers

    rng = ctx.rng

    def prep(label, code, kind, zero):
        lab = f"{label}: fewest {kind}, zero={zero}"
        ctx.begin(lab, hx=vlib.mat(code.Hx), hz=vlib.mat(code.Hz))
        gens = [vlib.bits(r) for r in (code.Hx if zero else code.Hz)]
        if all(g == 0 for g in gens):
            return
        fn = ft.gate_optimal_prep_circuit if kind == "gates" else ft.depth_optimal_prep_circuit
        sp = fn(code, zero_state=zero, min_timeout=300, max_timeout=600)
        if sp is None:
            ctx.notes.append(f"{lab}: nothing found with up to 10")
            return
        cx = [(a, b) for name, a, b in pl.ops(sp.circ) if name == "cx"]
        if len(cx) == 1:
            return  # also stands for none
        steps = [[a, b] if zero else [b, a] for a, b in reversed(cx)]
        ctx.add("PrepOptimal", lab, **{**EMPTY, "kind": kind, "n": int(code.n), "gens": gens, "steps": steps})

    def verification(label, code, zero, most=None, extra=0, faults=None, optimal=True):
        ctx.begin(label)
        sp = ft.heuristic_prep_circuit(code, zero_state=zero)
        if not sp.circ.count_ops().get("cx"):
            return
        n = int(code.n)
        for x in (True, False):
            add = np.array([[rng.randrange(2) for _ in range(n)] for _ in range(extra)], dtype=np.int8) if extra else faults if x else None
            if optimal:
                layers = ft.gate_optimal_verification_stabilizers(sp, x_errors=x, min_timeout=300, max_timeout=600, max_ancillas=most,
                                                                  additional_faults=add)
            else:
                layers = heuristic_verification_stabilizers(sp, x_errors=x, find_coset_leaders=rng.random() < 0.7, additional_faults=add)
            sets = sp.combine_faults(add, x) if add is not None else (sp.x_fault_sets if x else sp.z_fault_sets)
            gens = sp.z_checks if x else sp.x_checks
            for k in range(1, sp.max_errors + 1):
                masks = [vlib.bits(f) for f in sets[k]]
                got = layers[k - 1] if len(layers) == sp.max_errors else None
                ctx.add("PrepOptimal", f"{label}, {'X' if x else 'Z'} errors of {k} faults",
                        **{**EMPTY, "kind": "verification", "n": n, "gens": [vlib.bits(g) for g in gens], "faults": masks, "judge": optimal,
                           "meas": [vlib.bits(m) for m in got] if got is not None else [], "found": got is not None,
                           "budget": int(np.sum(gens)), "most": most or len(gens)})

    small = pl.small_codes(rng, 4 if ctx.quick else 30, 5)
    small.append(("[[4,2,2]]", CSSCode(2, np.array([[1] * 4]), np.array([[1] * 4]))))
    for label, code in small:
        for zero in (True, False):
            for kind in ("gates", "layers"):
                prep(label, code, kind, zero)
    left = 8 if ctx.quick else 60
    while left > 0:  # states that need several gates
        (label, code), = pl.small_codes(rng, 1, 6)
        for zero in (True, False):
            if left > 0 and ft.heuristic_prep_circuit(code, zero_state=zero, optimize_depth=False).circ.count_ops().get("cx", 0) >= 4:
                prep(f"entangled {left}", code, "gates", zero)
                prep(f"entangled {left}", code, "layers", zero)
                left -= 1
    named = [(n, CSSCode.from_code_name(n)) for n in ("steane", "shor", "surface")] + [small[-1]]
    for label, code in named:
        for i in range((2 if label == "steane" else 1) if ctx.quick else 8):
            cd = code if i == 0 else pl.permuted(rng, code)
            for zero in (True, False):
                verification(f"{label} {i}, zero={zero}", cd, zero)
                verification(f"{label} {i}, zero={zero}, heuristic", cd, zero, optimal=False)
                for most in (1, 2):
                    verification(f"{label} {i}, zero={zero}, at most {most}", cd, zero, most=most)
                verification(f"{label} {i}, zero={zero}, more faults", cd, zero, extra=2)
                verification(f"{label} {i}, zero={zero}, more faults, heuristic", cd, zero, extra=3, optimal=False)
    for i, (label, code) in enumerate(pl.small_codes(rng, 10 if ctx.quick else 60, 8)):
        code = CSSCode(rng.choice([3, 3, 5]), code.Hx, code.Hz)
        zero = rng.random() < 0.5
        verification(f"{label}, zero={zero}", code, zero, extra=rng.choice([0, 1, 3]))
        verification(f"{label}, zero={zero}, heuristic", code, zero, extra=rng.choice([0, 1, 3]), optimal=False)
    # blocks of repetition codes: the few checks that detect two or three blocks at once are heavy
    for i in range(14 if ctx.quick else 40):
        wa, wb = rng.choice([(2, 3), (3, 2)])
        ws = rng.choice([6, 7, 8])
        n = wa + wb + ws
        p = list(range(n))
        rng.shuffle(p)
        blocks = [p[:wa], p[wa:wa + wb], p[wa + wb:]]
        hx = np.array([[int(q in b[j:j + 2]) for q in range(n)] for b in blocks for j in range(len(b) - 1)], dtype=np.int8)
        hz = np.array([[int(q in b) for q in range(n)] for b in rng.sample(blocks, 2)], dtype=np.int8)
        faults = np.array([[int(q in f) for q in range(n)] for f in [[rng.choice(blocks[b]) for b in s] for s in ((0, 2), (1, 2), (0, 1, 2))]], dtype=np.int8)
        verification(f"blocks {i}", CSSCode(2, hx, hz), True, faults=faults)
        verification(f"blocks {i}, heuristic", CSSCode(2, hx, hz), True, faults=faults, optimal=False)
