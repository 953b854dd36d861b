#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a property without checks/c_<ID>.py is not claimed)."""

import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
P = []


def prop(pid, title, statement, over, text, why, files, mech, note):
    P.append((pid, title, statement, over, text, why, files, mech, note))


prop("E01", "Encoded circuits measure what the original circuit measures",
     "For every code and every correction frequency, a circuit of the gates the code supports followed by measurements gives, after "
     "apply_ecc, the same distribution over its own classical bits as the original circuit, whatever the syndrome measurements "
     "return. Only the measurements of the original circuit write its classical bits, and circuits may have idle qubits, several "
     "registers and any assignment of qubits to bits.",
     ["programs", "configurations"], "all Clifford+T circuits over a code's gate set, all codes, all frequencies, all syndrome outcomes",
     "The tests simulate a few fixed circuits with a statistical tolerance; they do not vary idle qubits, registers or measurement maps.",
     ["src/ecc/Ecc.cpp", "src/ecc/Q3Shor.cpp", "src/ecc/Q5Laflamme.cpp", "src/ecc/Q7Steane.cpp", "src/ecc/Q9Shor.cpp",
      "src/ecc/Q9Surface.cpp", "src/ecc/Q18Surface.cpp"],
     [("encoding, logical gates, decoding", "src/ecc/*.cpp mapGate, writeEncoding, writeDecoding"), ("register layout", "src/ecc/Ecc.cpp initMappedCircuit")],
     "TLC runs a stabilizer tableau of the encoded circuit produced by the real code next to that of the original; random circuits over the gate sets, all gates in both bases; T by substitution")
prop("E02", "One fault between two gates does not change the measured result",
     "With any single Pauli error on any data qubit between two gates of the original circuit (one error per correction interval), the "
     "encoded circuit still gives the distribution of the original circuit over its classical bits. For Q3Shor and Q18Surface this holds for bit "
     "flips, for Q18Surface on circuits of Pauli gates.",
     ["fault_sequences", "programs"], "all single Pauli errors on all data qubits at all positions between gates, several correction intervals",
     "The tests inject few errors into few circuits of one logical qubit.",
     ["src/ecc/Q3Shor.cpp", "src/ecc/Q5Laflamme.cpp", "src/ecc/Q7Steane.cpp", "src/ecc/Q9Shor.cpp", "src/ecc/Q9Surface.cpp", "src/ecc/Q18Surface.cpp"],
     [("syndrome measurement and correction", "src/ecc/*.cpp measureAndCorrect")],
     "TLC replays the real encoded circuit with the fault inserted in the tableau model of E01")
prop("E03", "Encoded circuits are well formed and unsupported gates are refused",
     "The encoded circuit keeps the classical registers of the original circuit first, in their order and with their sizes, has the number of "
     "qubits the documentation states for the code, uses each qubit and bit within range, and the operations of a logical gate stay in "
     "the blocks of its logical qubits. With frequency f one correction follows every f-th gate. Gates that a code does not support and unknown "
     "code names are refused with an exception.",
     ["programs", "configurations"], "all circuits, all codes, all frequencies, all register layouts",
     "The tests only look at simulated counts.",
     ["src/ecc/Ecc.cpp", "include/ecc/Ecc.hpp", "src/python/bindings.cpp"],
     [("register layout and the correction counter", "src/ecc/Ecc.cpp apply, initMappedCircuit"), ("gate refusal", "src/ecc/*.cpp mapGate")],
     "TLC checks every operation of the circuits the real code returns against the layout specified in EccStructure.tla")
exec((V / "tools" / "props_more.py").read_text()) if (V / "tools" / "props_more.py").exists() else None

lines, checks, na = [], [], []
for pid, title, statement, over, text, why, files, mech, note in P:
    assert len(title) <= 80, (pid, len(title))
    for f in files:
        assert (Path("/repo") / f).exists(), f
    lines.append(json.dumps({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                             "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}))
    if (V / "checks" / f"c_{pid}.py").exists():
        checks.append({"property": pid, "quick_cmd": f"./check.sh {pid} quick", "thorough_cmd": f"./check.sh {pid} thorough",
                       "evidence_file": f"evidence/{pid}.json",
                       "technique": "TLA+ specification checked with TLC; behaviours of the real code replayed in it", "level": "model_checking",
                       "level_note": note})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
(V / "properties.jsonl").write_text("\n".join(lines) + "\n")
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interfaces only", "source_commits": []},
    "checks": checks, "not_applicable": na}, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
