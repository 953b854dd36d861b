"""Circuits of the state preparation package as cases of PrepCircuit.tla."""

import logging

import numpy as np

import qlib

logging.disable(logging.CRITICAL)


def ops(circ):
    out = []
    for g in circ.data:
        name = g.operation.name
        if name == "barrier":
            continue
        q = [circ.find_bit(x)[0] for x in g.qubits]
        if name == "measure":
            out.append([name, q[0], circ.find_bit(g.clbits[0])[0]])
        else:
            out.append([name, q[0], q[1] if len(q) > 1 else -1])
    return out


EMPTY = {"allowx": [], "allowz": [], "judge": False, "flags": [], "sets": [], "nfaults": 0, "open": [], "extrax": [], "extraz": []}


def state_case(circ, code, zero, ver=False, **more):
    """The circuit must prepare logical zeros or pluses."""
    n = int(code.Hx.shape[1])
    o = ops(circ)
    hx, hz, lx, lz = (qlib.supports(m) for m in (code.Hx, code.Hz, code.Lx, code.Lz))
    xs, zs = (hx, hz + lz) if zero else (hx + lx, hz)
    nm = sum(1 for g in o if g[0] == "measure")
    none = {"x": [], "z": []}
    wanted = [{"x": s, "z": []} for s in xs] + [{"x": [], "z": s} for s in zs]
    return {**EMPTY, "nq": int(circ.num_qubits), "data": list(range(n)), "ops": o, "nmeas": nm, "kx": zs, "kz": xs, "wanted": wanted,
            "input": [none] * len(wanted), "minput": [none] * nm, "bits": list(range(circ.num_clbits)), "flags": list(range(nm)), **more}


def allowed(code, t, kind):
    d = int(code.x_distance if kind == "x" else code.z_distance)
    m = max((d - 1) // 2, 1) // max((int(code.distance) - 1) // 2, 1)
    return [m * k for k in range(1, t + 1)]


def fault_set(k, kind, faults, reduced):
    return {"k": k, "kind": kind, "faults": [qlib.ones(f) for f in np.asarray(faults).reshape(len(faults), -1)] if len(faults) else [], "reduced": reduced}


def small_codes(rng, count, nmax=8):
    """Random CSS codes with at least one logical qubit and checks of both kinds."""
    from c_S03 import orthogonal
    from mqt.qecc.codes import CSSCode

    out = []
    while len(out) < count:
        n = rng.randint(3, nmax)
        hx, hz = orthogonal(rng, n)
        if hx and hz and any(map(any, hx)) and any(map(any, hz)):
            c = CSSCode(3, np.array(hx, dtype=np.int8), np.array(hz, dtype=np.int8))
            if c.k >= 1:
                out.append((f"random code {len(out)}", c))
    return out


def permuted(rng, code):
    """The code on permuted qubits with mixed checks (equivalent, same distances)."""
    from mqt.qecc.codes import CSSCode

    n = int(code.Hx.shape[1])
    p = list(range(n))
    rng.shuffle(p)

    def mixed(h):
        h = np.array(h)[:, p] % 2
        rows = list(range(len(h)))
        rng.shuffle(rows)
        h = h[rows]
        for _ in range(rng.randint(0, 3)):
            if len(h) > 1:
                i, j = rng.sample(range(len(h)), 2)
                h[i] = (h[i] + h[j]) % 2
        return h.astype(np.int8)
    return CSSCode(int(code.distance), mixed(code.Hx), mixed(code.Hz), x_distance=int(code.x_distance), z_distance=int(code.z_distance))
