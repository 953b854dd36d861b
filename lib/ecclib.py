"""Circuits for apply_ecc: writing them, encoding them with the real code, and reading the result back."""

from __future__ import annotations

import os
import re

import vlib

CODES = ["Id", "Q3Shor", "Q5Laflamme", "Q7Steane", "Q9Shor", "Q9Surface", "Q18Surface"]
# gates the documentation promises (docs/EccFramework.rst) and the code accepts
PAULI = ["x", "y", "z"]
ONE = {"Id": [*PAULI, "h", "s", "sdg"], "Q3Shor": [*PAULI, "s", "sdg", "t", "tdg"], "Q5Laflamme": PAULI,
       "Q7Steane": [*PAULI, "h", "s", "sdg", "t", "tdg"], "Q9Shor": PAULI, "Q9Surface": [*PAULI, "h"],
       "Q18Surface": [*PAULI, "h"]}
TWO = {"Id": ["cx", "cy", "cz", "swap"], "Q3Shor": ["cx", "cy", "cz"], "Q5Laflamme": [], "Q7Steane": ["cx", "cy", "cz"], "Q9Shor": ["cx", "cy", "cz"],
       "Q9Surface": [], "Q18Surface": []}
SIZE = {"Id": (1, 0), "Q3Shor": (3, 2), "Q5Laflamme": (5, 4), "Q7Steane": (7, 3), "Q9Shor": (9, 8),
        "Q9Surface": (9, 8), "Q18Surface": (36, 0)}


def program(nq, cregs, gates, meas, name="q"):
    """OpenQASM 2 text. gates: (name, qubits); meas: (qubit, register, index)."""
    return heads(nq, cregs, name) + tail(gates, meas, name)


def heads(nq, cregs, name="q"):
    s = f'OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg {name}[{nq}];\n'
    s += "".join(f"creg {r}[{w}];\n" for r, w in cregs)
    return s


def tail(gates, meas, name="q"):
    s = ""
    for g, q in gates:
        s += f"{g} " + ",".join(f"{name}[{i}]" for i in q) + ";\n"
    for q, r, i in meas:
        s += f"measure {name}[{q}] -> {r}[{i}];\n"
    return s


def encode(mod, scratch, text, ecc, freq):
    """The text of the encoded circuit; raises what the code raises."""
    f = scratch / f"c{os.getpid()}.qasm"
    f.write_text(text)
    return mod.apply_ecc(str(f), ecc, freq)["circ"]


_REG = re.compile(r"(qreg|creg)\s+(\w+)\[(\d+)\];")
_ARG = re.compile(r"(\w+)\[(\d+)\]")


def parse(text):
    """Registers and operations of an OpenQASM 2 circuit as apply_ecc writes it."""
    qregs, cregs, ops = {}, {}, []
    qn = cn = 0
    text = " ".join(x.split("//")[0] for x in text.splitlines())
    for line in text.split(";"):
        line = line.strip()
        if not line or line.startswith(("OPENQASM", "include")):
            continue
        m = _REG.match(line + ";")
        if m:
            if m.group(1) == "qreg":
                qregs[m.group(2)] = (qn, int(m.group(3)))
                qn += int(m.group(3))
            else:
                cregs[m.group(2)] = (cn, int(m.group(3)))
                cn += int(m.group(3))
            continue
        cond = None
        m = re.match(r"if\s*\(\s*(\w+)\s*==\s*(\d+)\s*\)\s*(.*)", line)
        if m:
            cond = (m.group(1), int(m.group(2)))
            line = m.group(3).strip()
        if line.startswith("measure"):
            a, b = line[7:].split("->")
            a, b = a.strip(), b.strip()
            if "[" in a:
                pairs = [(_ARG.match(a).groups(), _ARG.match(b).groups())]
            else:
                pairs = [((a, i), (b, i)) for i in range(qregs[a][1])]
            for (qr, qi), (cr, ci) in pairs:
                ops.append({"g": "measure", "q": [qregs[qr][0] + int(qi)], "cb": cregs[cr][0] + int(ci), "cond": cond,
                            "in": int(qi) < qregs[qr][1] and int(ci) < cregs[cr][1]})
            continue
        name, _, args = line.partition(" ")
        if name == "barrier":
            continue
        al = [x.strip() for x in args.split(",")]
        if any("[" not in x for x in al):
            w = max(qregs[x][1] for x in al if "[" not in x)
            lists = [[(qregs[x][0] + i) for i in range(w)] if "[" not in x else
                     [qregs[_ARG.match(x).group(1)][0] + int(_ARG.match(x).group(2))] * w for x in al]
            for q in zip(*lists):
                ops.append({"g": name, "q": list(q), "cb": -1, "cond": cond, "in": True})
            continue
        q, inr = [], True
        for x in al:
            r, i = _ARG.match(x).groups()
            inr &= int(i) < qregs[r][1]
            q.append(qregs[r][0] + int(i))
        ops.append({"g": name, "q": q, "cb": -1, "cond": cond, "in": inr})
    return {"qregs": qregs, "cregs": cregs, "nq": qn, "nc": cn, "ops": ops}


def blocks(ops):
    """Groups of qubits that interact: qubit -> (group, position); sizes of the groups."""
    par = {}

    def find(a):
        par.setdefault(a, a)
        while par[a] != a:
            par[a] = par[par[a]]
            a = par[a]
        return a

    for o in ops:
        for q in o["q"]:
            par[find(q)] = find(o["q"][0])
    groups = {}
    for q in sorted(par):
        groups.setdefault(find(q), []).append(q)
    where, sizes = {}, []
    for g in groups.values():
        sizes.append(len(g))
        for i, q in enumerate(g):
            where[q] = (len(sizes), i)
    return where, sizes


def case(orig_text, enc_text, tmode="s", script=(), inject=(), fork=0):
    """The record EccCircuit.tla replays. inject: (position in the encoded operations, gate, qubit)."""
    o, e = parse(orig_text), parse(enc_text)
    ops = list(e["ops"])
    for pos, g, q in sorted(inject, reverse=True):
        ops.insert(pos, {"g": g, "q": [q], "cb": -1, "cond": None, "in": True})
    where, sizes = blocks(ops)
    out = []
    for x in ops:
        b = where[x["q"][0]][0]
        cond, cv = [], []
        if x["cond"]:
            start, w = e["cregs"][x["cond"][0]]
            cond = [start + i + 1 for i in range(w)]
            cv = [(x["cond"][1] >> i) & 1 for i in range(w)]
        out.append({"g": x["g"], "q": [where[i][1] for i in x["q"]], "b": b, "cb": x["cb"] + 1, "cond": cond, "cv": cv})
    rmeas = [-1] * o["nc"]
    rops = []
    for x in o["ops"]:
        if x["g"] == "measure":
            rmeas[x["cb"]] = x["q"][0]
        else:
            rops.append({"g": x["g"], "q": x["q"]})
    return {"status": "ok", "rn": max(1, o["nq"]), "rops": rops, "blocks": sizes, "ops": out, "ncb": max(1, e["nc"]), "nuser": o["nc"],
            "rmeas": rmeas, "tmode": tmode, "script": list(script), "fork": fork + 1 + len(inject)}


REFUSED = {"status": "raised", "rn": 1, "rops": [], "blocks": [], "ops": [], "ncb": 1, "nuser": 0, "rmeas": [], "tmode": "s",
           "script": [], "fork": 1}

def common_prefix(a, b):
    """Length of the common beginning of two circuits' operations."""
    a, b = parse(a)["ops"], parse(b)["ops"]
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return n



def random_program(rng, ecc, nq, ngates, *, two=True, cregs=None, measure_all=None):
    gates = []
    for _ in range(ngates):
        if two and nq > 1 and TWO[ecc] and rng.random() < 0.45:
            gates.append((rng.choice(TWO[ecc]), rng.sample(range(nq), 2)))
        else:
            gates.append((rng.choice(ONE[ecc]), [rng.randrange(nq)]))
    if cregs is None:
        cregs = [("c", nq)]
    slots = [(r, i) for r, w in cregs for i in range(w)]
    rng.shuffle(slots)
    qs = list(range(nq))
    rng.shuffle(qs)
    n = min(len(slots), nq) if measure_all or rng.random() < 0.7 else rng.randint(1, min(len(slots), nq))
    meas = [(qs[i], *slots[i]) for i in range(n)]
    return program(nq, cregs, gates, meas), gates, meas


def build():
    return vlib.load_pyqecc()
