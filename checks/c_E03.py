"""E03: shape of encoded circuits."""

import ecclib as el

ASSUMPTIONS = ["sizes and gate sets as in docs/EccFramework.rst"]
PROBES = ["id q[0]", "x q[0]", "y q[1]", "z q[0]", "h q[0]", "s q[2]", "sdg q[0]", "t q[0]", "tdg q[1]", "sx q[0]", "sxdg q[0]",
          "rx(0.3) q[0]", "ry(0.3) q[0]", "rz(0.3) q[0]", "u2(0.1,0.2) q[0]", "u3(0.1,0.2,0.3) q[0]", "cx q[0],q[1]",
          "cy q[1],q[0]", "cz q[0],q[1]", "ch q[0],q[1]", "swap q[0],q[1]", "ccx q[0],q[1],q[2]", "ccz q[0],q[1],q[2]",
          "cswap q[0],q[1],q[2]", "cs q[0],q[1]", "csdg q[0],q[1]", "crz(0.2) q[0],q[1]", "barrier q[0],q[1]"]


def generate(ctx):
    mod = el.build()
    rng = ctx.rng

    def enc(text, ecc, freq):
        return el.encode(mod, ctx.scratch, text, ecc, freq)

    for ecc in el.CODES:
        if ecc != "Id":
            for g in PROBES:
                ctx.begin(f"{ecc}: {g}")
                text = el.heads(3, [("c", 3)]) + g + ";\nmeasure q[0] -> c[0];\n"
                ok, _ = ctx.attempt(enc, text, ecc, rng.choice([0, 1, 100]))
                ctx.add("EccStructure", kind="gate", ecc=ecc, gate=g.split("(")[0].split()[0], status="ok" if ok else "raised", ops=[])
    for name in ("", "Q4", "q3shor", "Q7Steane ", "Surface"):
        ctx.begin(f"code name {name!r}")
        ok, _ = ctx.attempt(enc, el.program(1, [("c", 1)], [], []), name, 1)
        ctx.add("EccStructure", kind="name", status="ok" if ok else "raised", ops=[])

    def shape(label, ecc, nq, cregs, gates, meas, freq):
        text = el.program(nq, cregs, gates, meas)
        ctx.begin(label, program=text, freq=freq)
        ok, full = ctx.attempt(enc, text, ecc, freq)
        rec = {"kind": "shape", "ecc": ecc, "rn": nq, "rnc": sum(w for _, w in cregs),
               "rcregs": [{"name": r, "size": w} for r, w in cregs], "program": text}
        if not ok:
            ctx.add("EccStructure", **rec, status="raised", ops=[], nq=0, nc=0, cregs=[], info=full)
            return
        p = el.parse(full)
        # which operations belong to which gate: common beginnings, without corrections in between
        own = [[] for _ in p["ops"]]
        if freq == 0:
            last = None
            for i in range(len(gates) + 1):
                n = el.common_prefix(enc(el.program(nq, cregs, gates[:i], []), ecc, 0),
                                     enc(el.program(nq, cregs, [*gates[:i], ("x", [0])], []), ecc, 0))
                if last is not None:
                    for j in range(last, min(n, len(own))):
                        own[j] = list(gates[i - 1][1])
                last = n
        orig = el.parse(text)["ops"]
        same = [1 if ecc != "Id" or (i < len(orig) and (o["g"], o["q"], o["cb"]) == (orig[i]["g"], orig[i]["q"], orig[i]["cb"])) else 0
                for i, o in enumerate(p["ops"])]
        if ecc == "Id" and len(orig) != len(p["ops"]):
            same = [0] * max(1, len(p["ops"]))
        ops = [{"q": o["q"], "cb": o["cb"], "inreg": o["in"], "own": own[i], "same": same[i]} for i, o in enumerate(p["ops"])]
        ctx.add("EccStructure", **rec, status="ok", nq=p["nq"], nc=p["nc"], ops=ops,
                cregs=[{"name": r, "size": w} for r, (_, w) in p["cregs"].items()])

    names = ["c", "m", "alpha", "zeta", "b1", "k", "out", "aa", "q_c", "reg"]
    for ecc in el.CODES:
        for i in range(24 if ctx.quick else 40):
            nq = rng.randint(1, 5)
            gates = []
            for _ in range(rng.randint(0, 6)):
                if nq > 1 and el.TWO[ecc] and rng.random() < 0.4:
                    gates.append((rng.choice(el.TWO[ecc]), rng.sample(range(nq), 2)))
                else:
                    gates.append((rng.choice(el.ONE[ecc]), [rng.randrange(nq)]))
            cregs = [(n, rng.randint(1, 4)) for n in rng.sample(names, rng.randint(1, 5))]
            slots = [(r, j) for r, w in cregs for j in range(w)]
            rng.shuffle(slots)
            qs = rng.sample(range(nq), rng.randint(0, nq))
            meas = [(q, *s) for q, s in zip(qs, slots)]
            shape(f"{ecc}: shape {i}", ecc, nq, cregs, gates, meas, rng.choice([0, 0, 1, 2, 3, 100]))
        for i in range(6 if ctx.quick else 8):
            nq = rng.randint(1, 2)
            gates = [(rng.choice(el.ONE[ecc]), [rng.randrange(nq)]) for _ in range(rng.randint(3, 9))]
            freqs = [0, 1, 2, 3, 4, 7, 50]
            text = el.program(nq, [("c", nq)], gates, [(q, "c", q) for q in range(nq)])
            ctx.begin(f"{ecc}: rounds {i}", program=text)
            anc = []
            for f in freqs:
                ok, full = ctx.attempt(enc, text, ecc, f)
                anc.append(sum(o["g"] == "measure" and o["cb"] >= nq for o in el.parse(full)["ops"]) if ok else -1)
            ctx.add("EccStructure", kind="rounds", ecc=ecc, gates=len(gates), freqs=freqs, anc=anc, status="ok", ops=[], program=text)
