"""W01: simulating circuits from the command line: noise, codes, reports, exports."""

import contextlib
import io
import itertools
import math
import re
import sys

import numpy as np

import ecclib as el
import qlib

ASSUMPTIONS = ["one classical register is reported (the first one)", "the simulator itself (qiskit-aer) is right", "frequencies within seven standard deviations"]
LINE = re.compile(r"State \|([01]*)> probability ([-+.eE0-9]+)$")
LISTED = ["u1", "u2", "u3", "h", "id", "t", "tdg", "sdg", "rx", "ry", "rz", "s", "cx", "swap", "cswap"]


def generate(ctx):
    qlib.load()
    from mqt.qecc import apply_ecc
    from mqt.qecc import ecc_qiskit_wrapper as w
    from qiskit.qasm2 import LEGACY_CUSTOM_INSTRUCTIONS as LEGACY
    from qiskit.qasm2 import load, loads
    from qiskit.quantum_info import PTM

    rng = ctx.rng

    def lines(text, shots):
        out = []
        for line in text.splitlines():
            m = LINE.match(line.strip())
            if m:
                k = float(m.group(2)) * shots
                out.append({"state": int(m.group(1) or "0", 2), "width": len(m.group(1)), "count": round(k) if abs(k - round(k)) < 1e-6 * max(1, shots) else -1})
        return out

    # ------------------------------------------------------------ noise models
    def channels(model, p):
        label = f"noise model {model} {p}"
        ctx.begin(label)
        gates = []

        def build():
            groups = {}
            for name, err in w.create_noise_model(n_model=model, p_error=p)._default_quantum_errors.items():  # noqa: SLF001
                m = np.rint(np.real(PTM(err.to_quantumchannel()).data) * 1e4).astype(int)
                groups.setdefault((int(err.num_qubits), m.tobytes()), (m, []))[1].append(name)
            for (n, _), (m, names) in groups.items():
                gates.append({"n": n, "names": sorted(names), "ptm": m.tolist()})

        ok, val = ctx.attempt(build)
        ctx.add("NoiseChannels", model=list(model), p=round(p * 1e4), root=round(math.sqrt(1 - p) * 1e4), gates=gates if ok else [], status="ok" if ok else val)

    strengths = [0.0, 0.05, 0.1, 0.19, 0.25, 0.36, 0.5, 0.51, 0.64, 0.75, 0.84, 0.91, 0.96, 1.0]
    words = ["".join(x) for k in (1, 2) for x in itertools.product("BPDA", repeat=k)]
    for model in words if ctx.quick else [*words, *("".join(x) for x in itertools.product("BPDA", repeat=3) if x.count("D") < 2)]:
        for p in rng.sample(strengths, 1 if model.count("D") > 1 else 2 if ctx.quick else 4):
            channels(model, p)
    for model in ("X", "BQ", "b", "D ", "APx"):
        channels(model, 0.1)

    # ------------------------------------------------------------ reports
    class Result:
        def __init__(self, counts):
            self.counts = counts

        def get_counts(self, *_):
            return self.counts

    def report(i):
        wide = rng.random() < 0.1
        width = 11 if wide else rng.randint(1, 5)
        others = [rng.randint(1, 3) for _ in range(rng.choice([0, 0, 1, 2]))]
        counts = {}
        for _ in range(3000 if wide else rng.randint(1, 25)):
            key = " ".join(["".join(rng.choice("01") for _ in range(o)) for o in others] + ["".join(rng.choice("01") for _ in range(width))])
            counts[key] = counts.get(key, 0) + rng.randint(1, 9)
        shots = sum(counts.values())
        threshold = rng.choice([0, 0, 0, 5, 50, 125, 200, 500, 999])
        ctx.begin(f"report {i}")
        buf = io.StringIO()

        def run():
            with contextlib.redirect_stdout(buf):
                if threshold or rng.random() < 0.5:
                    w.print_simulation_results(Result(dict(counts)), shots, threshold / 1000)
                else:
                    w.print_simulation_results(Result(dict(counts)), shots)

        ok, val = ctx.attempt(run)
        ctx.add("ReportedCounts", counts=[{"last": int(k.split(" ")[-1], 2), "count": v} for k, v in counts.items()], width=width, shots=shots, threshold=threshold,
                lines=lines(buf.getvalue(), shots), status="ok" if ok else val)

    for i in range(60 if ctx.quick else 250):
        report(i)

    # ------------------------------------------------------------ whole runs
    def command(args):
        """(worked, what was printed)"""
        buf, old = io.StringIO(), sys.argv
        sys.argv = ["ecc_qiskit_wrapper", *map(str, args)]
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
                try:
                    w.main()
                except SystemExit as e:
                    if e.code:
                        return False, f"exit {e.code}"
            return True, buf.getvalue()
        except Exception as e:  # noqa: BLE001
            return False, f"{type(e).__name__}: {e}"[:200]
        finally:
            sys.argv = old

    file = ctx.scratch / "circuit.qasm"
    ANGLE = {"u1": "(pi/4)", "rz": "(pi/2)", "rx": "(pi)", "u3": "(pi,0,pi)", "ry": "(pi)"}
    ROLE = {"rx": "flip", "ry": "flip", "u3": "flip"}

    def text_of(nq, width, ops, meas):
        t = ["OPENQASM 2.0;", 'include "qelib1.inc";', f"qreg q[{nq}];"]
        if width:
            t.append(f"creg c[{width}];")
        t += [f"{g}{ANGLE.get(g, '')} {','.join(f'q[{q}]' for q in qs)};" for g, qs in ops]
        t += [f"measure q[{q}] -> c[{b}];" for q, b in meas]
        return "\n".join(t) + "\n"

    def run(label, nq, width, ops, meas, model="D", p=0, ecc="none", fs="stabilizer", freq=None, shots=0):
        """width 0: no classical register; no measurements: all qubits are measured."""
        text = text_of(nq, width, ops, meas)
        file.write_text(text)
        shots, seed = shots or rng.choice([400, 1000, 1500]), rng.randrange(10**6)
        ctx.begin(label, program=text)
        args = ["-f", file, "-ecc", ecc, "-p", p, "-m", model, "-n", shots, "-s", seed, "-fs", fs]
        if freq is not None:
            args += ["-fq", freq]
        ok, out = command(args)
        again = True
        if ok and rng.random() < 0.3:
            ok2, out2 = command(args)
            again = ok2 and lines(out, shots) == lines(out2, shots)
        ctx.add("EccRun", label, kind="run", ops=[{"name": ROLE.get(g, g), "q": list(qs), "noisy": p > 0 and g in LISTED} for g, qs in ops], meas=[list(x) for x in meas] or [[q, q] for q in range(nq)],
                width=width if meas else nq, shots=shots, model=list(model), half=p == 0.5, lines=lines(out, shots) if ok else [], again=bool(again),
                status="ok" if ok else out, exported=[], encoded=[])

    def circuit(nq, fresh, gates, length):
        ops = [("h", [q]) for q in range(nq) if fresh and rng.random() < 0.4]
        for _ in range(length):
            g = rng.choice(gates)
            k = {"cx": 2, "cy": 2, "cz": 2, "swap": 2, "cswap": 3, "ccx": 3}.get(g, 1)
            if k <= nq:
                ops.append((g, rng.sample(range(nq), k)))
        return ops

    def measurements(nq, width):
        qs = rng.sample(range(nq), rng.randint(1, min(nq, width)))
        return list(zip(qs, rng.sample(range(width), len(qs))))

    clifford = ["x", "y", "z", "s", "sdg", "cx", "cy", "cz", "swap", "id"]
    for i in range(30 if ctx.quick else 150):  # without a code
        nq, width = rng.randint(1, 5), rng.randint(1, 5)
        run(f"no code {i}", nq, width, circuit(nq, True, clifford, rng.randint(0, 12)), measurements(nq, width))
        free = ["x", "y", "z", "s", "t", "tdg", "cx", "swap", "cswap", "ccx", "rx", "u3", "u1", "rz"]
        run(f"no code, all gates {i}", nq, width, circuit(nq, True, free, rng.randint(0, 12)), measurements(nq, width), fs="none")
        run(f"nothing measured {i}", nq, 0, circuit(nq, True, clifford, rng.randint(0, 8)), [])
    for i in range(20 if ctx.quick else 80):
        nq = rng.randint(1, 4)
        ecc = rng.choice(["none", "Q7Steane"] if nq < 3 else ["none"])
        run(f"a register but nothing measured {i}", nq, rng.randint(1, nq + 1), circuit(nq, True, clifford if ecc == "none" else ["x", "y", "z", "cx", "cy", "cz"], rng.randint(1, 8)),
            [], ecc=ecc)
    for i in range(60 if ctx.quick else 300):  # noise without a code
        model, p = rng.choice(["B", "P", "D", "BP", "PB", "BD", "BB"]), rng.choice([1, 0.5])
        if rng.random() < 0.5:
            model = rng.choice(["A", "AB", "BA", "PA", "DA", "AD", "BAB"])
        per = sum({"B": 1, "P": 0, "D": 2, "A": 1}[x] for x in model) if p == 0.5 else sum({"B": 0, "P": 0, "D": 1, "A": 0}[x] for x in model)
        nq, width = rng.randint(1, 4), 4
        free = "A" in model
        ops, bits = [], 0
        for g, qs in circuit(nq, True, ["id", "x", "y", "cx", "swap", "s", "z", "h"[:0] or "id"] + (["t", "rx", "ry", "u3", "u1", "rz", "tdg", "cswap", "ccx"] if free else []), rng.randint(1, 9)):
            bits += (1 if g == "h" else 0) + (len(qs) * per if g in LISTED else 0)
            if bits > 9:
                break
            ops.append((g, qs))
        run(f"noise {model} {p}: {i}", nq, width, ops, measurements(nq, width), model=model, p=p, fs="none" if free else "stabilizer")
    tops = {"Q3Shor": 3, "Q5Laflamme": 3, "Q7Steane": 3, "Q9Shor": 1, "Q9Surface": 2, "Q18Surface": 3}
    for ecc, top in tops.items():  # with a code and no noise
        slow = ecc == "Q9Shor"  # 17 qubits without a stabilizer simulation
        for i in range((2 if slow else 6) if ctx.quick else (6 if slow else 25)):
            nq = rng.randint(1, top)
            width = rng.randint(1, 3)
            gates = el.ONE[ecc] + el.TWO[ecc]
            ops = circuit(nq, False, [g for g in gates if g != "h" and (ecc == "Q3Shor" or g not in ("t", "tdg"))], rng.randint(1, 2 if slow else 6))
            if "h" in el.ONE[ecc] and rng.random() < 0.5:
                ops.insert(0, ("h", [rng.randrange(nq)]))
            run(f"{ecc} {i}", nq, width, ops, measurements(nq, width), ecc=ecc, fs="none" if ecc in ("Q3Shor", "Q9Shor") else "stabilizer",
                freq=rng.choice([2, 100] if slow else [1, 2, 100, None]), shots=40 if slow else 0, model=rng.choice("DBPA"))

    # ------------------------------------------------------------ exports
    def listing(circ):
        idx = {q: i for i, q in enumerate(circ.qubits)}
        cix = {b: i for i, b in enumerate(circ.clbits)}
        return [[inst.operation.name, [idx[q] for q in inst.qubits], [cix[b] for b in inst.clbits], [round(float(x) * 1e4) for x in inst.operation.params]] for inst in circ.data]

    def export(i, ecc, freq):
        code = ecc or "Q7Steane"
        nq = rng.randint(1, 2)
        gates = el.ONE.get(code, clifford) + [g for g in el.TWO.get(code, []) if g != "swap"]
        ops = circuit(nq, False, gates, rng.randint(1, 5))
        text = text_of(nq, nq, ops, [(q, q) for q in range(nq)])
        file.write_text(text)
        target = ctx.scratch / "export.qasm"
        target.unlink(missing_ok=True)
        ctx.begin(f"export {i} {ecc} {freq}", program=text)
        ok, out = command(["-f", file, "-e", target, *(["-ecc", ecc] if ecc else []), *(["-fq", freq] if freq is not None else [])])
        got, want = [], []
        if ok:
            ok, got = ctx.attempt(lambda: listing(load(str(target), custom_instructions=LEGACY)))
            out = got
        if ok:
            ok, want = ctx.attempt(lambda: listing(load(str(file), custom_instructions=LEGACY)) if code == "none" else listing(loads(apply_ecc(load(str(file), custom_instructions=LEGACY), code, 100 if freq is None else freq)["circ"], custom_instructions=LEGACY)))
            out = want
        ctx.add("EccRun", kind="export", ops=[], meas=[], width=0, shots=1, model=[], half=False, lines=[], again=True, status="ok" if ok else str(out),
                exported=got if ok else [], encoded=want if ok else [])

    for i in range(14 if ctx.quick else 60):
        export(i, [None, "none", *tops][i % (len(tops) + 2)], rng.choice([None, 1, 3]))
