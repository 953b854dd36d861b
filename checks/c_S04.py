"""S04: the codes of the library have the parameters and distances they state."""

import qlib
from c_S03 import EMPTY

ASSUMPTIONS = ["distances of bivariate bicycle codes: upper bounds by witnesses, lower bounds for up to 4 (n = 72: 5) errors"]
NAMED = {"steane": [7, 1, 3, 3, 3], "tetrahedral": [15, 1, 3, 7, 3], "hamming": [15, 7, 3, 3, 3], "shor": [9, 1, 3, 3, 3],
         "carbon": [12, 2, 4, 4, 4], "golay": [23, 1, 7, 7, 7], "surface": [9, 1, 3, 3, 3], ("surface", 3): [9, 1, 3, 3, 3],
         ("surface", 5): [25, 1, 5, 5, 5]}
BB = {72: [72, 12, 6, 6, 6], 90: [90, 8, 10, 10, 10], 108: [108, 8, 10, 10, 10], 144: [144, 12, 12, 12, 12], 288: [288, 12, 18, 18, 18]}


def generate(ctx):
    qlib.load()
    import numpy as np
    from mqt.qecc.codes import CSSCode, construct_bb_code

    rng = ctx.rng

    def add(code, stated, **more):
        ctx.add("CssCode", **{**EMPTY, "n": int(code.Hx.shape[1]), "hx": qlib.supports(code.Hx), "hz": qlib.supports(code.Hz), "nx": int(code.Hx.shape[1]),
                              "nz": int(code.Hz.shape[1]), "distance": stated[2], "dx": stated[3], "dz": stated[4], "stated": stated,
                              **qlib.css_record(ctx, code), **more}, status="ok")

    for name, stated in NAMED.items():
        args = name if isinstance(name, tuple) else (name,)
        for spelling in (str.lower, str.capitalize, str.upper):
            ctx.begin(f"{spelling(args[0])} {args[1:]}")
            add(CSSCode.from_code_name(spelling(args[0]), *args[1:]), stated, enumerate=spelling is str.lower)
    for n, stated in BB.items():
        ctx.begin(f"bivariate bicycle {n}")
        code = construct_bb_code(n)
        it = (60 if n < 288 else 12) if ctx.quick else 600
        # a light X logical: in the span of X stabilizers and X logicals, seen by a Z logical
        wx = qlib.codeword(np.vstack([code.Hx, code.Lx]), code.Lz, it, rng)
        wz = qlib.codeword(np.vstack([code.Hz, code.Lz]), code.Lx, it, rng)
        add(code, stated, witx=wx, witz=wz, tight=n < 288, rows=6, layers=3 if n == 72 and not ctx.quick else 2 if n < 200 or not ctx.quick else 1, apart=4)
    for name, d in (("surface", 4), ("surface", 7), ("toric", None), ("", None), ("steane ", None), ("surface_4", None)):
        ctx.begin(f"unknown name {name!r} {d}")
        ok, v = ctx.attempt(CSSCode.from_code_name, name, d)
        ctx.add("CssCode", **{**EMPTY, "n": 1, "hx": [], "hz": [], "nx": 0, "nz": 0, "distance": 1, "dx": 1, "dz": 1}, status="ok" if ok else v)
    for n in (0, 1, 71, 73, 100, 784):
        ctx.begin(f"unknown bivariate bicycle {n}")
        ok, v = ctx.attempt(construct_bb_code, n)
        ctx.add("CssCode", **{**EMPTY, "n": 1, "hx": [], "hz": [], "nx": 0, "nz": 0, "distance": 1, "dx": 1, "dz": 1}, status="ok" if ok else v)
