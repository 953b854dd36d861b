"""C01: the colour codes are the triangular colour codes of the asked distance."""

import numpy as np
import qlib
import vlib

ASSUMPTIONS = ["odd distances"]


def generate(ctx):
    qlib.load()
    from mqt.qecc.cc_decoder import code_from_string
    from mqt.qecc.codes import HexagonalColorCode, SquareOctagonColorCode

    rng = ctx.rng
    makers = [("hexagon", HexagonalColorCode), ("square_octagon", SquareOctagonColorCode)]
    for lattice, cls in makers:
        for d in range(3, 28, 2) if ctx.quick else range(3, 32, 2):
            for how in ("class", "string"):
                if how == "string" and d > 9:
                    continue
                ctx.begin(f"{lattice} {d} by {how}")
                rec = {"lattice": lattice, "distance": d}
                ok, code = ctx.attempt((lambda: cls(d)) if how == "class" else (lambda: code_from_string(lattice, d)))
                if not ok:
                    ctx.add("ColorLattice", **rec, n=0, k=0, faces=[], h=[], qubits=[], l=[], lx=[], lz=[], witness=[], errors=False,
                            queries=[], equal=[], l2=[], status=code)
                    continue
                if not hasattr(code, "L"):
                    code.L = []
                logical = qlib.supports(code.L)
                queries = []
                for i in range(24 if d < 20 else 6):  # errors of all weights; some are products of stabilizers and logical operators
                    if i % 2:
                        e = np.array([int(rng.random() < rng.choice([0.1, 0.5, 0.9])) for _ in range(code.n)])
                    else:
                        e = (sum(r * rng.randrange(2) for r in np.array(code.H)) + np.array(code.Lx[0]).ravel() * (i // 2 % 2)) % 2
                    ok1, syn = ctx.attempt(code.get_syndrome, e)
                    ok2, val = ctx.attempt(code.check_if_logical_error, e)
                    vals = vlib.vec(syn) if ok1 else []
                    queries.append({"e": qlib.ones(e), "syn": [j for j, b in enumerate(vals) if b] if all(b in (0, 1) for b in vals) else [-1], "logical": bool(val) if ok2 else str(val)})
                l2 = []
                if d < 12:
                    ctx.attempt(code.compute_logical)
                    l2 = qlib.supports(code.L)
                other = HexagonalColorCode if cls is SquareOctagonColorCode else SquareOctagonColorCode
                equal = []
                for mk in (lambda: cls(d), lambda: cls(d + 2), lambda: other(d)):
                    ok1, val = ctx.attempt(lambda mk=mk: (code == mk()) is True)
                    equal.append(val)
                nf, n = len(code.faces_to_qubits), code.n
                ctx.add("ColorLattice", **rec, status="ok", n=n, k=int(code.k), h=qlib.supports(code.H),
                        faces=[[int(q) for q in code.faces_to_qubits.get(f, [])] for f in range(nf)],
                        qubits=[[int(f) for f in code.qubits_to_faces.get(q, [])] for q in range(len(code.qubits_to_faces))],
                        l=logical, l2=l2, queries=queries, equal=equal, lx=qlib.supports(code.Lx), lz=qlib.supports(code.Lz),
                        witness=qlib.lightest(code.Hx, code.Lx[0]) if d <= 7 else [],
                        errors=d <= (7 if ctx.quick or lattice == "hexagon" else 9) and how == "class")
