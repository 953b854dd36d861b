"""P06: the lookup table decoder returns a lightest error for every syndrome, in whatever order it is used."""

import numpy as np

import preplib as pl
import qlib
import vlib

ASSUMPTIONS = ["codes of at most 12 qubits", "syndromes of type int8, as the simulations hand them over"]


def generate(ctx):
    qlib.load()
    from mqt.qecc.codes import CSSCode, HexagonalColorCode, SquareOctagonColorCode
    from mqt.qecc.ft_stateprep.simulation import LutDecoder

    rng = ctx.rng

    def history(label, code, init, length):
        ctx.begin(label, hx=vlib.mat(code.Hx), hz=vlib.mat(code.Hz))
        dec = LutDecoder(code, init_luts=init)
        n = int(code.n)
        trace = []

        def syndrome(kind):
            e = np.array([rng.randrange(2) for _ in range(n)], dtype=np.int8)
            if rng.random() < 0.3:
                e = np.array([0] * n, dtype=np.int8)
                e[rng.randrange(n)] = 1
            return ((code.Hz if kind == "x" else code.Hx) @ e % 2).astype(np.int8)

        def note(kind, s, ok, est):
            trace.append({"kind": kind, "syn": vlib.bits(s), "status": "ok" if ok else est, "est": vlib.vec(est) if ok else []})

        for _ in range(length):
            kind = rng.choice("xz")
            what = rng.random()
            if what < 0.15:
                (dec.generate_x_lut if kind == "x" else dec.generate_z_lut)()
            elif what < 0.5:
                ss = [syndrome(kind) for _ in range(rng.randint(1, 6))]
                ok, out = ctx.attempt(dec.batch_decode_x if kind == "x" else dec.batch_decode_z, np.array(ss))
                if ok and len(out) != len(ss):
                    ok, out = False, f"{len(out)} estimates for {len(ss)} syndromes"
                for i, s in enumerate(ss):
                    note(kind, s, ok, out[i] if ok else out)
            else:
                s = syndrome(kind)
                note(kind, s, *ctx.attempt(dec.decode_x if kind == "x" else dec.decode_z, s))
        if n <= 9:  # every syndrome of both kinds
            for kind in "xz":
                h = code.Hz if kind == "x" else code.Hx
                for v in {tuple(h @ np.array([(i >> j) & 1 for j in range(n)]) % 2) for i in range(2**n)}:
                    s = np.array(v, dtype=np.int8)
                    note(kind, s, *ctx.attempt(dec.decode_x if kind == "x" else dec.decode_z, s))
        ctx.add("NoisyPrep", kind="decode", n=n, nq=n, hx=[vlib.bits(r) for r in code.Hx], hz=[vlib.bits(r) for r in code.Hz], trace=trace)

    named = [(n, CSSCode.from_code_name(n)) for n in ("steane", "shor", "surface")] + [("hexagon 3", HexagonalColorCode(3)), ("square octagon 3", SquareOctagonColorCode(3))]
    for label, code in named:
        for i in range(8 if ctx.quick else 12):
            history(f"{label} {i}", code if i == 0 else pl.permuted(rng, code), bool(i % 2), 30)
    steane = named[0][1]
    # the same checks in another order: still self-dual, but the syndromes are read differently
    history("steane with reordered checks", CSSCode(3, steane.Hx, steane.Hz[::-1].copy()), True, 40)
    history("steane with reordered checks, tables on demand", CSSCode(3, steane.Hx, steane.Hz[::-1].copy()), False, 40)
    if not ctx.quick:
        history("carbon", CSSCode.from_code_name("carbon"), False, 300)
    for i, (label, code) in enumerate(pl.small_codes(rng, 100 if ctx.quick else 200, 8 if ctx.quick else 9)):
        history(label, code, bool(i % 2), 20)
