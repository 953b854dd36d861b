"""C03: logical error rates of colour code simulations are those of a lightest-solution decoder."""

import contextlib
import importlib.util
import json
import math
import os
import re
import sys

import qlib

ASSUMPTIONS = ["random errors: the number of failures of the perfect 7-qubit code is within 7 standard deviations of its expectation"]


def cli_run(cli_mod, args):
    old = sys.argv
    sys.argv = ["cc", *args]
    try:
        cli_mod.cli()
    finally:
        sys.argv = old


def generate(ctx):
    qlib.load()
    from mqt.qecc.cc_decoder import cli as cli_mod
    from mqt.qecc.cc_decoder import decoder
    from mqt.qecc.codes import HexagonalColorCode, SquareOctagonColorCode

    rng = ctx.rng
    from mqt.qecc.codes import ColorCode

    @contextlib.contextmanager
    def watched():
        """Errors (asked for their syndrome) and estimates, in their order."""
        errors, estimates = [], []
        get, solve = ColorCode.get_syndrome, decoder.LightsOut.solve

        def get2(self, error):
            errors.append(qlib.ones(error))
            return get(self, error)

        def solve2(self, *a, **k):
            out = solve(self, *a, **k)
            estimates.append(qlib.ones(out[0]))
            return out

        ColorCode.get_syndrome, decoder.LightsOut.solve = get2, solve2
        try:
            yield errors, estimates
        finally:
            ColorCode.get_syndrome, decoder.LightsOut.solve = get, solve

    makers = {"hexagon": HexagonalColorCode, "square_octagon": SquareOctagonColorCode}

    def exact(code, q, sims):
        """Bound of seven standard deviations, and one for rounding."""
        return math.ceil(7 * math.sqrt(sims * 0.25)) + 1

    def one(lattice, d, q, sims, how):
        code = makers[lattice](d)
        ctx.begin(f"{lattice} {d} at {q}/4, {sims} runs, {how}")
        p = q / 4
        cols = [sum(1 << f for f in code.qubits_to_faces[i]) for i in range(code.n)]
        rec = {"kind": "rate", "cols": cols, "depth": 20 if code.n < 8 else 1, "trace": [], "logical": qlib.ones(code.L[0]), "q": q, "sims": sims,
               "distance": d, "exact": code.n < 8, "tol": exact(code, q, sims), "asked": [lattice, d, q], "echo": [], "failures": -1,
               "minwt": -1, "eb_ok": False}

        def call():
            if how == "simulate":
                return decoder.simulate_error_rate(code, p, sims)
            out = ctx.scratch / f"r{lattice}{d}{q}{sims}{how}"
            if how == "run":
                decoder.run(lattice, d, p, sims, str(out))
            else:
                cli_run(cli_mod, [str(d), str(p), "--type", lattice, "--nr_sims", str(sims), "--results_dir", str(out)])
            (f,) = list(out.iterdir())
            return json.loads(f.read_text())

        with watched() as (errors, estimates):
            ok, r = ctx.attempt(call)
        pairs = [list(x) for x in zip(errors, estimates)] if len(errors) == len(estimates) else []
        if ok:
            ler = r["logical_error_rates"]
            f = ler[0] * sims
            lat = r["lattice"]
            rec.update(echo=[getattr(lat, "value", lat), r["distance"], round(r["p"] * 4)], failures=round(f) if abs(f - round(f)) < 1e-6 else -1,
                       minwt=int(r["min_wts_logical_err"][0]),
                       eb_ok=abs(float(r["logical_error_rate_ebs"][0]) - math.sqrt(ler[0] * (1 - ler[0]) / sims)) < 1e-9 and len(ler) == 1)
        ctx.add("LightsOut", **rec, pairs=pairs, status="ok" if ok else r)

    os.chdir(ctx.scratch)
    for lattice in makers:
        for d in (3, 5, 7):
            for q in (0, 4):
                for how in ("simulate", "run", "cli"):
                    if d == 3 or how == "simulate" or not ctx.quick:
                        one(lattice, d, q, rng.randint(1, 30), how)
        for d in (5, 7):
            for q in (1, 2):
                one(lattice, d, q, rng.randint(20, 80), "simulate")
        for q in (1, 2, 3):
            one(lattice, 3, q, 1500 if ctx.quick else 5000, "simulate")

    # results of many runs in one directory
    for i in range(2 if ctx.quick else 10):
        ctx.begin(f"files {i}")
        out = ctx.scratch / f"many{i}" / "deep"
        p0 = rng.randint(0, 900)
        rates = sorted({p0, p0 + 1, p0 + rng.randint(2, 9), p0 + 10 * rng.randint(1, 9), 0, rng.randint(0, 10000), 10000})
        runs = [[lat, d, p] for lat in makers for d in (3, 5) for p in rng.sample(rates, 5)]
        rng.shuffle(runs)

        def many(runs=runs, out=out):
            for lat, d, p in runs:
                decoder.run(lat, d, p / 10000, 1, str(out))

        ok, err = ctx.attempt(many)
        found, names = [], []
        if ok:
            for f in sorted(out.iterdir()):
                r = json.loads(f.read_text())
                found.append([getattr(r["lattice"], "value", r["lattice"]), r["distance"], round(r["p"] * 10000)])
                m = re.search(r"distance=(\d+),p=([0-9]\.?[0-9]*(?:e-[0-9]+)?)", f.name)
                names.append([found[-1][0], int(m[1]), round(float(m[2]) * 10000)] if m else [f.name, 0, 0])
        ctx.add("LightsOut", kind="files", cols=[1], depth=1, trace=[], runs=runs, found=found, names=names, status="ok" if ok else err)

    for name in ("mps", "MAXSAT", ""):  # decoders there are none of
        ctx.begin(f"decoder {name}")
        ok, err = ctx.attempt(lambda name=name: cli_run(cli_mod, ["3", "0.1", "--decoder", name, "--nr_sims", "1", "--results_dir", str(ctx.scratch / "unknown")]))
        ctx.add("LightsOut", kind="refused", cols=[1], depth=1, trace=[], status="ok" if ok else err)

    # the tensor network decoder that is compared with: no failures without errors, the asked number of runs
    if importlib.util.find_spec("qecsim"):
        for d, p, sims in ((3, 0.0, 9), (5, 0.0, 3), (3, 0.25, rng.randint(5, 30)), (5, 0.125, rng.randint(3, 9))):
            ctx.begin(f"tensor network {d} {p}")
            out = ctx.scratch / f"tn{d}{p}"
            ok, err = ctx.attempt(lambda d=d, p=p, sims=sims, out=out: cli_run(cli_mod, [str(d), str(p), "--decoder", "tn", "--nr_sims", str(sims), "--results_dir", str(out)]))
            found = []
            if ok:
                for f in out.iterdir():
                    r = json.loads(f.read_text())
                    found.append([r["n_k_d"][2], round(r["error_probability"] * 8), r["n_run"], r["n_fail"] if p == 0 else 0])
            runs = [[d, round(p * 8), sims, 0]]
            ctx.add("LightsOut", kind="files", cols=[1], depth=1, trace=[], runs=runs, found=found, names=found, status="ok" if ok else err)
