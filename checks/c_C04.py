"""C04: the figures show the stored results."""

import contextlib
import io
import json
import re
import sys
import warnings

import qlib

ASSUMPTIONS = ["enough results near the threshold for the fit of five parameters", "results made with the fitted function itself, rounded to millionths"]
CASE = {"mode": "", "results": [], "drawn": [], "thresholds": [], "lines": [], "printed": [], "colours": [], "saved": 0, "status": "ok"}


def generate(ctx):
    qlib.load()
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    warnings.simplefilter("ignore")
    from mqt.qecc.cc_decoder import plots

    rng = ctx.rng

    def f(x, scale):
        return round(float(x) * scale)

    def read(fig):
        """Labelled series, vertical lines and colours of a figure."""
        drawn, vertical, colours = [], [], []
        for ax in fig.axes:
            inside = set()
            for cont in ax.containers:
                line, _, bars = cont.lines
                inside |= {id(x) for x in ax.lines if x is line}
                segs = bars[0].get_segments() if bars else []
                pts = []
                for i, (x, y) in enumerate(zip(*line.get_data())):
                    pts.append([f(x, 10**5), f(y, 10**6), f((segs[i][1][1] - segs[i][0][1]) / 2, 10**6) if i < len(segs) else -1])
                drawn.append({"label": str(cont.get_label()), "pts": pts})
            for line in ax.lines:
                if id(line) in inside:
                    continue
                label = str(line.get_label())
                x, y = line.get_data()
                if label.startswith("_"):
                    if len(x) == 2 and x[0] == x[1]:
                        vertical.append(f(x[0], 10**5))
                    elif len(x) > 2 or any(a != b for a, b in zip(x, x[1:])):
                        drawn.append({"label": "unlabelled", "pts": [[f(a, 10**5), f(b, 10**6), -1] for a, b in zip(x, y)]})
                    continue
                if len(x):
                    drawn.append({"label": label, "pts": [[f(a, 10**5), f(b, 10**6), -1] for a, b in zip(x, y)]})
                    m = re.match(r"(solver=.*), d=\d+$|(p=[^,]*), ", label)
                    if m:
                        colours.append(["solver" if m.group(1) else "rate", m.group(1) or m.group(2), str(line.get_color())])
        return drawn, vertical, colours

    def run(mode, results, files, thresholds):
        """files: {relative name: content}."""
        base = ctx.scratch / f"plots{len(ctx.cases.get('PlotSeries', []))}"
        base.mkdir()
        for name, content in files.items():
            p = base / name
            p.parent.mkdir(exist_ok=True)
            p.write_text(content if isinstance(content, str) else json.dumps(content))
        target = ctx.scratch / f"{base.name}.pdf"
        figs = []
        real = Figure.savefig

        def save(self, name, *a, **k):
            figs.append((str(name), read(self)))

        out = io.StringIO()
        argv = sys.argv
        sys.argv = ["plots", str(base), "--results_file", str(target), *(["--mode", mode] if mode != "maxsat" or rng.random() < 0.5 else [])]
        Figure.savefig = save
        try:
            with contextlib.redirect_stdout(out):
                ok, err = ctx.attempt(plots.main)
        finally:
            Figure.savefig, sys.argv = real, argv
            plt.close("all")
        printed = [f(x, 10**5) for x in re.findall(r"threshold:\s*([-+0-9.e]+)", out.getvalue())]
        drawn, vertical, colours = figs[0][1] if figs else ([], [], [])
        ctx.add("PlotSeries", **{**CASE, "mode": mode, "results": results, "drawn": drawn, "thresholds": thresholds, "lines": vertical, "printed": printed, "colours": colours,
                                 "saved": sum(1 for n, _ in figs if n == str(target)), "status": "ok" if ok else err.split(":")[0]})

    def names(count):
        """File names in an order of their own."""
        ids = rng.sample(range(1000), count)
        return [f"res_{i}.json" for i in ids]

    def rate(p):
        return p / 10**5

    def value(q, p, d):
        x = (rate(p) - q["pth"]) * d ** (1 / q["mu"])
        return q["b0"] + q["b1"] * x + q["b2"] * x * x

    def law(ds):
        """Parameters of a curve that is positive where it is fitted."""
        while True:
            q = {"pth": rng.uniform(0.08, 0.11), "mu": rng.uniform(0.9, 1.6), "b0": rng.uniform(0.1, 0.4), "b1": rng.uniform(0.5, 2), "b2": rng.uniform(0.1, 2)}
            if all(value(q, p, d) > 0.001 for d in ds for p in range(6000, 13100, 100)):
                return q

    for i in range(12 if ctx.quick else 120):
        ctx.begin(f"maxsat figure {i}")
        nlog = rng.randint(1, 4)
        ds = rng.sample([3, 5, 7, 9, 11, 13, 15], rng.randint(3, 5))
        par = [law(ds) for _ in range(nlog)]
        results, files = [], {}
        for d in ds:
            ps = set(range(6200 + rng.choice([0, 100, 200]), 13000, rng.choice([400, 500, 600])))
            ps |= set(rng.sample([100, 2000, 5000, 8000, 13000], rng.randint(0, 5)))  # not for every distance
            if i % 3 != 0 or d == ds[0]:
                ps |= {1000}
            if i % 4 == 3:
                ps -= {1000}
            for p in ps:
                lers, ebs = [], []
                for q in par:
                    lers.append(max(1, round(value(q, p, d) * 10**6)))
                    ebs.append(rng.randrange(1, 5000))
                results.append({"p": p, "ptext": str(rate(p)), "d": d, "lers": lers, "ebs": ebs, "t": rng.randrange(1, 2000) * 10**6, "solver": ""})
        rng.shuffle(results)
        for name, r in zip(names(len(results)), results):
            files[name] = {"distance": r["d"], "p": rate(r["p"]), "logical_error_rates": [x / 10**6 for x in r["lers"]], "logical_error_rate_ebs": [x / 10**6 for x in r["ebs"]],
                           "avg_total_time": r["t"] / 10**6, "min_wts_logical_err": [-1] * nlog}
        files["notes.txt"] = "no result"
        run("maxsat", results, files, [round(q["pth"] * 10**5) for q in par])

    for i in range(8 if ctx.quick else 80):
        ctx.begin(f"tensor network figure {i}")
        results, files = [], {}
        for d in rng.sample([3, 5, 7, 9, 11], rng.randint(1, 4)):
            for p in rng.sample(list(range(1000, 13000, 500)), rng.randint(1, 5)) + rng.sample([100, 2100, 5100, 8100, 11100], rng.randint(0, 5)):
                results.append({"p": p, "ptext": str(rate(p)), "d": d, "lers": [rng.randrange(10**6)], "ebs": [0], "t": rng.randrange(1, 2000) * 10**6, "solver": ""})
        rng.shuffle(results)
        for name, r in zip(names(len(results)), results):
            n = rng.choice([1, 7, 1000])
            files[name] = {"n_k_d": [3 * r["d"], 1, r["d"]], "physical_error_rate": rate(r["p"]), "error_probability": rate(r["p"]), "logical_failure_rate": r["lers"][0] / 10**6,
                           "wall_time": r["t"] / 10**12 * n, "n_run": n}
        run("tn", results, files, [])

    for i in range(8 if ctx.quick else 80):
        ctx.begin(f"comparison figure {i}")
        results, files = [], {}
        for solver in rng.sample(["z3", "CASHWMaxSAT-CorePlus", "other", "fourth"], rng.randint(1, 4)):
            rs = []
            for d in rng.sample([3, 9, 17, 21, 23], rng.randint(1, 4)):
                for p in rng.sample(list(range(1000, 13000, 500)), rng.randint(1, 4)) + rng.sample([100, 5100, 13100], rng.randint(0, 3)):
                    rs.append({"p": p, "ptext": str(rate(p)), "d": d, "lers": [0], "ebs": [0], "t": rng.randrange(1, 2000) * 10**6, "solver": solver})
            rng.shuffle(rs)
            for name, r in zip(names(len(rs)), rs):
                files[f"{solver}/{name}"] = {"distance": r["d"], "p": rate(r["p"]), "avg_total_time": r["t"] / 10**6}
            results += rs
        run("comparison", results, files, [])

    for mode in ("maxsats", "TN", "plot"):
        ctx.begin(f"mode {mode}")
        run(mode, [], {}, [])
