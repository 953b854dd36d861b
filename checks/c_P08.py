"""P08: the stored preparation circuits and the script that estimates their logical error rates."""

import contextlib
import importlib.util
import inspect
import io
import os
import re
import stat
import subprocess
import sys
from pathlib import Path


import preplib as pl
import qlib

ASSUMPTIONS = ["errors that matter for the prepared state: X errors for zeros, Z errors for pluses", "the simulation itself is P07's: here it is recorded"]
NAMES = {"steane": ("steane", None), "shor": ("shor", None), "surface 3": ("surface", 3), "carbon": ("carbon", None), "hamming": ("hamming", None),
         "tetrahedral": ("tetrahedral", None), "surface 5": ("surface", 5)}
FOLDERS = {"rotated_surface_d3": "surface 3", "rotated_surface_d5": "surface 5", "cc_4_8_8": "cc_4_8_8 5", "cc_6_6_6": "cc_6_6_6 5"}
REC = {"sims": 0, "hx": [], "hz": [], "zero": True, "p": "", "parallel": True, "min": "", "atleast": True, "ops": [], "nq": 0, "nmeas": 0, "returned": []}
RUN = {"kind": "run", "code": "", "args": [], "status": "ok", "rec": REC, "printed": [], "refs": [], "stored": [], "calls": [], "rows": [], "given": [],
       "script": "", "range": [], "hundredthousandths": [], "header": []}


def stim_ops(text):
    """H, CX and measurements of a stim circuit; measured qubits are not used again."""
    import stim

    out, m = [], 0
    for i in stim.Circuit(text):
        t = [x.value for x in i.targets_copy()]
        if i.name == "CX":
            out += [["cx", t[j], t[j + 1]] for j in range(0, len(t), 2)]
        elif i.name in ("H", "X", "Z"):
            out += [[i.name.lower(), q, -1] for q in t]
        elif i.name in ("M", "MR"):
            for q in t:
                out.append(["measure", q, m])
                m += 1
                if i.name == "MR":
                    out.append(["reset", q, -1])
        elif i.name != "TICK":
            out.append([i.name, 0, 0])
    return out, m


def rank(m):
    rows, r = qlib.pack(m), 0
    while rows:
        x = rows.pop()
        if x:
            r += 1
            low = x & -x
            rows = [y ^ x if y & low else y for y in rows]
    return r


def generate(ctx):
    qlib.load()
    from qiskit import QuantumCircuit
    from mqt.qecc import ft_stateprep as ft
    from mqt.qecc.codes import CSSCode, HexagonalColorCode, SquareOctagonColorCode

    rng = ctx.rng
    here = Path(ft.__file__).parent / "eval"
    codes = {k: CSSCode.from_code_name(*v) if v[1] else CSSCode.from_code_name(v[0]) for k, v in NAMES.items()}
    for d in (3, 5):
        codes[f"cc_4_8_8 {d}"], codes[f"cc_6_6_6 {d}"] = SquareOctagonColorCode(d), HexagonalColorCode(d)
    refs = [{"name": k, "n": int(v.n), "hx": qlib.supports(v.Hx), "hz": qlib.supports(v.Hz), "rank": rank(v.Hx) + rank(v.Hz)} for k, v in codes.items()]

    def wanted(code, zero, verified):
        if not verified:
            return {}
        k = "x" if zero else "z"
        return {"allow" + k: pl.allowed(code, (int(code.distance) - 1) // 2, k)}

    # ---------------------------------------------------------------- every stored circuit
    stored = []
    for folder in sorted(p for p in (here / "circuits").iterdir() if p.is_dir()):
        code = codes[FOLDERS.get(folder.name, folder.name)]
        for f in sorted(folder.iterdir()):
            if f.suffix not in (".qasm", ".stim"):
                continue
            label = f"{folder.name}/{f.name}"
            ctx.begin(label)
            zero, verified = f.name.startswith("zero"), "non_ft" not in f.name
            if f.suffix == ".qasm":
                ok, circ = ctx.attempt(QuantumCircuit.from_qasm_file, f)
                case = pl.state_case(circ if ok else QuantumCircuit(int(code.n)), code, zero, judge=True)
                if not ok:
                    case["ops"] = [["cannot be read", 0, 0]]
                stored.append({"file": label, "ops": case["ops"]})
            else:
                ok, r = ctx.attempt(stim_ops, f.read_text())
                o, m = r if ok else ([["cannot be read", 0, 0]], 0)
                case = {**pl.state_case(QuantumCircuit(int(code.n)), code, zero, judge=True), "ops": o, "nmeas": m, "bits": list(range(m)),
                        "flags": list(range(m)), "minput": [{"x": [], "z": []}] * m, "nq": max([int(code.n)] + [1 + max(x[1:]) for x in o if x[0] != "measure"])}
            if not verified and (case["nmeas"] or case["nq"] != int(code.n)):
                case["ops"] = [["circuit without verification measures", 0, 0]]
            if verified and not case["nmeas"] and not any(label.startswith(x) for x in ("shor/plus", )):
                case["ops"] = [["circuit with verification measures nothing", 0, 0]]
            ctx.add("PrepCircuit", **{**case, **wanted(code, zero, verified)})

    # ---------------------------------------------------------------- the script
    from mqt.qecc.ft_stateprep import NoisyNDFTStatePrepSimulator as Sim

    script = here / "estimate_logical_error_rate.py"
    spec = importlib.util.spec_from_file_location("mqt_qecc_eval_script", script)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    init_sig, rate_sig = inspect.signature(Sim.__init__), inspect.signature(Sim.logical_error_rate)
    real_init, real_rate = Sim.__init__, Sim.logical_error_rate

    def run(code, args):
        text = " ".join([code, *[x for a in args for x in a if x]])
        ctx.begin(f"script {text}")
        rec = dict(REC)
        seen = []

        def init(self, *a, **k):
            b = init_sig.bind(self, *a, **k)
            b.apply_defaults()
            v = b.arguments
            seen.append((v["state_prep_circ"], v["code"]))
            rec.update(sims=rec["sims"] + 1, hx=qlib.supports(v["code"].Hx), hz=qlib.supports(v["code"].Hz), zero=bool(v["zero_state"]), p=str(v["p"]),
                       parallel=bool(v["parallel_gates"]), ops=pl.ops(v["state_prep_circ"]), nq=int(v["state_prep_circ"].num_qubits))
            rec["nmeas"] = sum(1 for g in rec["ops"] if g[0] == "measure")

        def rate(self, *a, **k):
            b = rate_sig.bind(self, *a, **k)
            b.apply_defaults()
            r = (rng.randrange(1, 64) / 64, rng.randrange(1, 64) / 64, rng.randrange(500), rng.randrange(500, 10**6))
            rec.update(min=str(b.arguments["min_errors"]), atleast=bool(b.arguments["at_least_min_errors"]), returned=[str(x) for x in r])
            return r

        out = io.StringIO()
        Sim.__init__, Sim.logical_error_rate = init, rate
        argv = sys.argv
        sys.argv = [str(script), code, *[x for a in args for x in a if x]]
        try:
            with contextlib.redirect_stdout(out):
                ok, err = ctx.attempt(mod.main)
        finally:
            Sim.__init__, Sim.logical_error_rate, sys.argv = real_init, real_rate, argv
        printed = [x for x in re.split(r"[,\s]+", out.getvalue().strip()) if x]
        ctx.add("EvalScript", **{**RUN, "code": code, "args": [list(a) for a in args], "status": "ok" if ok else err.split(":")[0], "rec": rec, "printed": printed,
                                 "refs": refs, "stored": stored})
        if ok and len(seen) == 1:
            # naive verification is not fault tolerant for all codes: it does not measure logical operators
            nover = any(a[0] in ("--no_ver", "--naive_ver") for a in args)
            circ, cd = seen[0]
            ctx.add("PrepCircuit", label=f"circuit of script {text}", **{**pl.state_case(circ, cd, rec["zero"], judge=True), **wanted(cd, rec["zero"], not nover)})

    def options(known):
        """A random command line; known: only circuits that are stored or fast to construct."""
        args = []
        if rng.random() < 0.9:
            args.append([rng.choice(["-p", "--p_error"]), rng.choice(["0.1", "0.001", "0.25", "5e-05"])])
        if rng.random() < 0.5:
            args.append([rng.choice(["-n", "--n_errors"]), str(rng.randrange(1, 1000))])
        for flag, prob in (("--plus_state", 0.4), ("--zero_state", 0.1), ("--exact_circ", 0.4 if known else 0), ("--heuristic_circ", 0.2), ("--no_parallel_gates", 0.4),
                           ("--heuristic_ver", 0.5), ("--exact_ver", 0.2), ("--naive_ver", 0.2), ("--no_ver", 0.25)):
            if rng.random() < prob:
                args.append([flag, ""])
        rng.shuffle(args)
        if ["--exact_circ", ""] in args:  # only stored with exact verification
            args = [a for a in args if a[0] not in ("--heuristic_ver", "--naive_ver")]
        return args

    names = ["steane", "shor", "surface", "tetrahedral", "hamming", "carbon"]
    for name in names:
        run(name, [["-p", "0.1"]])
        run(name, [["--no_ver", ""], ["-p", "0.01"]])
        run(name, [["--no_ver", ""], ["--exact_circ", ""], ["-p", "0.01"]])
        if name != "carbon":
            run(name, [["--plus_state", ""], ["-p", "0.2"], ["--heuristic_ver", ""]])
            run(name, [["--plus_state", ""], ["-p", "0.2"]])
            run(name, [["--no_ver", ""], ["--plus_state", ""], ["-p", "0.01"]])
    for name in ("cc_4_8_8", "cc_6_6_6"):
        run(name, [["-p", "0.1"]])
        run(name, [["-p", "0.1"], ["-d", "5"]])
        run(name, [["-p", "0.1"], ["--no_ver", ""]])
        run(name, [["-p", "0.1"], ["--no_ver", ""], ["--plus_state", ""]])
        for more in ([], [["--plus_state", ""]], [["--naive_ver", ""]], [["--no_ver", ""]]):
            run(name, [["-d", "3"], ["-p", "0.1"], ["--heuristic_ver", ""], *more])
    run("surface", [["-d", "5"], ["-p", "0.1"]])
    run("surface", [["-d", "5"], ["-p", "0.1"], ["--naive_ver", ""]])
    run("surface", [["-d", "5"], ["-p", "0.1"], ["--no_ver", ""]])
    run("surface", [["-d", "3"], ["-p", "0.1"], ["--exact_circ", ""]])
    for bad in ("steene", "golay", "colour"):
        run(bad, [["-p", "0.1"]])
    for _ in range(20 if ctx.quick else 250):
        name = rng.choice(["steane", "shor", "surface"])
        run(name, options(True))
    for _ in range(4 if ctx.quick else 60):
        run(rng.choice(["cc_4_8_8", "cc_6_6_6"]), [["-d", "3"], ["--heuristic_ver", ""], *[a for a in options(False) if a[0] != "--exact_ver"]])

    # ---------------------------------------------------------------- the sweep, with stand-ins for parallel and python
    for given in ([["steane"], ["shor", "--plus_state"], ["cc_4_8_8", "-n", "7", "--no_ver"]] if ctx.quick else
                  [["steane"], ["shor", "--plus_state"], ["cc_4_8_8", "-n", "7", "--no_ver"], ["surface", "-d", "5"], ["hamming", "--exact_circ", "--heuristic_ver"]]):
        ctx.begin(f"sweep {' '.join(given)}")
        work = ctx.scratch / f"sweep{len(ctx.cases.get('EvalScript', []))}"
        tools = work / "bin"
        tools.mkdir(parents=True)
        # runs the calls one after another in a random order
        (tools / "parallel").write_text('#!/bin/bash\nwhile [[ $1 == -* ]]; do case $1 in --load|-j|--jobs|--delay) shift 2;; *) shift;; esac; done\n'
                                        'cmd=(); while [[ $# -gt 0 && $1 != ":::" ]]; do cmd+=("$1"); shift; done; shift\n'
                                        'for v in $(printf "%s\\n" "$@" | shuf --random-source=<(yes ' + str(rng.randrange(1000)) + ')); do "${SHELL:-/bin/bash}" -c "${cmd[*]} $v"; done\n')
        (tools / "python").write_text('#!/bin/bash\nn=$(wc -l < "$CALLS"); echo "$@ => 0.$n,0.5,$n,1000" >> "$CALLS"; echo "0.$n,0.5,$n,1000"\n')
        for t in tools.iterdir():
            t.chmod(t.stat().st_mode | stat.S_IXUSR)
        (work / "calls").write_text("")
        env = {**os.environ, "PATH": f"{tools}:{os.environ['PATH']}", "CALLS": str(work / "calls"), "SHELL": "/bin/bash"}
        (tools / "python3").symlink_to("python")
        r = subprocess.run(["bash", str(here / "run_eval_on_code.sh"), "results", *given], cwd=work, env=env, capture_output=True, text=True, timeout=120)
        csv = work / "results.csv"
        lines = csv.read_text().splitlines() if csv.exists() else []
        calls = []
        for line in (work / "calls").read_text().splitlines():
            a, out = line.split(" => ")
            calls.append({"args": a.split(), "out": out.split(",")})
        split = [[x for x in re.split(r"[,\s]+", line.strip()) if x] for line in lines]
        hund = [round(float(x["args"][-1]) * 10**5) if re.fullmatch(r"[0-9.e-]+", x["args"][-1]) else -1 for x in calls]
        ctx.add("EvalScript", **{**RUN, "kind": "sweep", "calls": calls, "rows": split[1:], "header": split[0] if split else [], "given": given,
                                 "script": "estimate_logical_error_rate.py", "range": [5, 50000], "hundredthousandths": hund, "status": str(r.returncode)})
