"""P07: the noisy simulation applies the documented noise and reports what faults do."""

import numpy as np

import preplib as pl
import qlib
import vlib

ASSUMPTIONS = ["no noise after the last layer", "faults that happen with certainty: the results of the simulation are certain"]
KEYS = {"ops": [], "head": [], "parallel": True, "zero": True, "lut": [], "checks": [], "observables": [], "status": "ok", "shots": 0, "batch": 1,
        "min": 0, "r": {}, "hx": [], "hz": [], "trace": []}


def generate(ctx):
    qlib.load()
    import stim
    from mqt.qecc import ft_stateprep as ft
    from mqt.qecc.codes import CSSCode
    from mqt.qecc.ft_stateprep import NoisyNDFTStatePrepSimulator as Sim
    from qiskit import QuantumCircuit

    rng = ctx.rng
    p = 0.012

    def flat(circuit):
        """Instructions with one target (pair) each."""
        out = []
        for i in circuit:
            t = [x.value for x in i.targets_copy()]
            size = 2 if i.name in ("CX", "DEPOLARIZE2") else 1
            out += [(i.name, t[j:j + size], list(i.gate_args_copy())) for j in range(0, len(t), size)]
        return out

    def tag(args):
        if not args:
            return "0"
        return "p" if abs(args[0] - p) < 1e-12 else "2p/3" if abs(args[0] - 2 * p / 3) < 1e-12 else "other"

    def structure(label, circ, code, zero, parallel, again=False):
        ctx.begin(label)
        sim = Sim(circ, code, 0.3 if again else p, zero_state=zero, parallel_gates=parallel)
        if again:  # a new error rate makes a new circuit
            sim.set_p(p)
        head = flat(Sim(circ, code, p, zero_state=zero, parallel_gates=parallel).to_stim_circ())
        full = flat(sim.stim_circ)[:len(head)]
        ctx.add("NoisyPrep", **{**KEYS, "kind": "structure", "n": int(code.n), "nq": int(circ.num_qubits), "ops": pl.ops(circ), "parallel": parallel,
                                "head": [[nm, t[0], t[1] if len(t) > 1 else -1, tag(a)] for nm, t, a in full]})

    def faults(label, circ, code, zero, count, parallel=True):
        ctx.begin(label)
        h, obs = (code.Hz, code.Lz) if zero else (code.Hx, code.Lx)
        sim = Sim(circ, code, 0, zero_state=zero, parallel_gates=parallel)
        head = flat(Sim(circ, code, 0, zero_state=zero, parallel_gates=parallel).to_stim_circ())
        full = flat(sim.stim_circ)
        lut = [0] * 2 ** len(h)
        for i in range(2**len(h)):
            s = np.array([(i >> j) & 1 for j in range(len(h))], dtype=np.int8)
            ok, est = ctx.attempt(sim.decoder.decode_x if zero else sim.decoder.decode_z, s)
            lut[i] = vlib.bits(est) if ok else 0
        for number in range(count):
            places = sorted(rng.randrange(len(head) + 1) for _ in range(0 if number == 0 else rng.choice([1, 1, 2, 3])))
            prog = list(full)
            shown = [[nm, t[0], t[1] if len(t) > 1 else -1, "0"] for nm, t, _ in head]
            errs = []
            for pl_ in reversed(places):
                q = rng.choice(head[pl_][1]) if pl_ < len(head) else rng.randrange(int(code.n))
                e = rng.choice("XYZ")
                prog.insert(pl_, (f"{e}_ERROR", [q], [1.0]))
                shown.insert(pl_, [e, q, -1, "0"])
                errs.append((pl_, e, q))
            circuit = stim.Circuit()
            for nm, t, a in prog:
                circuit.append(nm, t, a)
            sim.stim_circ = circuit
            shots, batch = rng.choice([(20, 20), (20, 7), (5, 50), (12, 4)])
            lab = f"{label}: faults {errs}, {shots} shots"
            ctx.begin(lab)
            kw = {"shots": shots, "shots_per_batch": batch, "at_least_min_errors": False}
            ok, v = ctx.attempt(lambda: sim.logical_error_rate(**kw))
            batch = min(shots, batch)
            least = 0
            if ok and v[2] > 0 and rng.random() < 0.5:  # the fault always gives a logical error: run until enough of them are found
                least = rng.choice([1, 9, 25])
                ok, v = ctx.attempt(lambda: sim.logical_error_rate(shots=shots, shots_per_batch=batch, at_least_min_errors=True, min_errors=least))
            r = {}
            if ok:
                pl_rate, acc, nerr, total = v
                r = {"shots": int(total), "accepted": "all" if acc == 1 else "none" if acc == 0 else "some", "errors": int(nerr),
                     "rate": "0" if pl_rate == 0 else "1/k" if abs(pl_rate - 1 / code.k) < 1e-12 else "other"}
            ctx.add("NoisyPrep", **{**KEYS, "kind": "fault", "n": int(code.n), "nq": int(circ.num_qubits), "head": shown, "zero": zero, "lut": lut,
                                    "checks": [vlib.bits(x) for x in h], "observables": [vlib.bits(x) for x in obs], "shots": shots, "batch": batch,
                                    "min": least, "status": "ok" if ok else v, "r": r})

    named = [(n, CSSCode.from_code_name(n)) for n in ("steane", "shor", "surface")]
    named += [("[[4,2,2]]", CSSCode(2, np.array([[1] * 4]), np.array([[1] * 4]))), ("[[6,4,2]]", CSSCode(2, np.array([[1] * 6]), np.array([[1] * 6])))]
    for label, code in named:
        for i in range(1 if ctx.quick else 6):
            cd = code if i == 0 else pl.permuted(rng, code)
            for zero in (True, False):
                sp = ft.heuristic_prep_circuit(cd, zero_state=zero, optimize_depth=rng.random() < 0.5)
                for what, circ in (("prepared", sp.circ), ("verified", ft.heuristic_verification_circuit(sp)), ("naive", ft.naive_verification_circuit(sp))):
                    for par in (True, False):
                        structure(f"{label} {i}, zero={zero}, {what}, parallel={par}", circ, cd, zero, par, again=rng.random() < 0.5)
                    faults(f"{label} {i}, zero={zero}, {what}", circ, cd, zero, 14 if ctx.quick else 60, parallel=rng.random() < 0.5)
    # circuits with H anywhere, qubits without gates and ancillas that are used again
    for i, (label, code) in enumerate(pl.small_codes(rng, 12 if ctx.quick else 150, 6)):
        n = int(code.n)
        circ = QuantumCircuit(n + 2, 4)
        bit = 0
        for _ in range(rng.randint(0, 14)):
            what = rng.random()
            if what < 0.3:
                circ.h(rng.randrange(n + 2))
            elif what < 0.85 or bit == 4:
                circ.cx(*rng.sample(range(n + 2), 2))
            else:
                a = n + rng.randrange(2)
                if any(circ.find_bit(g.qubits[-1])[0] == a for g in circ.data):
                    circ.measure(a, bit)
                    bit += 1
        structure(f"random circuit {i}", circ, code, bool(i % 2), bool(i // 2 % 2))
