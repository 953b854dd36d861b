"""U04: word error rate simulations report what the decoder did."""

import json

import uflib as ul
import vlib
from c_U02 import TWO

ASSUMPTIONS = ["default growth, in which a fresh decoder gives one answer"]


def generate(ctx):
    mod = vlib.load_pyqecc()
    rng = ctx.rng

    def parse(text):
        return [int(x) for x in text.strip("[]").split(",")] if text != "[]" else []

    def run(i, name, hx, hz, dec, kind, nruns, rates, k):
        ctx.begin(f"simulation {i}: {name} {dec} {rates}", runs=nruns, k=k)
        lo, hi, step = rates
        d = ctx.scratch / f"s{i}"
        d.mkdir()
        code = mod.Code(ul.boolmat(hx), ul.boolmat(hz))
        code.k = k
        want = []
        p = lo
        while p < hi:
            want.append(p)
            p += step
        rec = {"kind": "wer", "hx": hx, "hz": hz, "nrates": len(want), "nruns": nruns}
        ok, err = ctx.attempt(rng.choice([mod.DecodingSimulator, mod.DecodingSimulator()]).simulate_wer, str(d / "raw"), str(d / "stats"), lo, hi, nruns, code, step,
                              getattr(mod.DecoderType, kind))
        files = sorted(d.iterdir())
        out, fresh = [], []
        if ok:
            ok, val = ctx.attempt(lambda: [json.loads(f.read_text()) for f in files])
            err = val
        if ok:
            raw = next(x for f, x in zip(files, val) if f.name.startswith("raw"))
            stats = next(x for f, x in zip(files, val) if f.name.startswith("stats"))
            by = {f"{p:.6f}": raw.get(f"{p:.6f}") for p in want}
            for p, r in zip(want, stats["runs"]):
                runs = []
                for x in r["run"]["data"]:
                    res = x["decodingResult"]
                    runs.append({"error": parse(x["error"]), "syndrome": parse(x["syndrome"]), "estimate": parse(res["estimate"]),
                                 "status": x["decodingStatus"]})
                w = by[f"{p:.6f}"]
                f = -1 if w is None else w * k * nruns
                out.append({"rate0": p == 0, "rate1": p == 1, "runs": runs, "failures": round(f) if abs(f - round(f)) < 1e-6 else -1})
            for syn in {tuple(y["syndrome"]) for x in out for y in x["runs"]}:
                dd = getattr(mod, dec)()
                dd.set_code(code)
                dd.decode([bool(b) for b in syn])
                fresh.append({"syn": list(syn), "est": vlib.vec(dd.result.estimate)})
        ctx.add("UfAlgebra", **rec, rates=out, fresh=fresh, status="ok" if ok else str(err))

    i = 0
    for name, (hx, hz) in TWO.items():
        for dec, kind in (("UFDecoder", "ORIGINAL_UF"), ("UFHeuristic", "UF_HEURISTIC")):
            for _ in range(8 if ctx.quick else 12):
                k = rng.randint(1, 3)
                i += 1
                run(i, name, hx, hz, dec, kind, rng.randint(1, 3), (0.0, 1.5, 1.0), k)
                i += 1
                lo = rng.choice([0.05, 0.1, 0.2])
                run(i, name, hx, hz, dec, kind, rng.randint(2, 12), (lo, lo * rng.choice([1.5, 2.5, 3.5]), lo), k)
