"""A03: analog Tanner graph decoding and its simulation."""

import itertools
import json
import math
import os

import numpy as np

import analoglib as al

ASSUMPTIONS = ["the external decoder (ldpc) is replaced by a recorder with arbitrary answers", "error and flip rates within seven standard deviations"]
INF = float("inf")
BIASES = {(INF, 0, 0): ([[1, 0]], (6, 0, 0)), (0, INF, 0): ([[1, 1]], (0, 6, 0)), (0, 0, INF): ([[0, 1]], (0, 0, 6)),
          (1, 1, 1): ([[1, 0], [1, 1], [0, 1]], (2, 2, 2)), (1, 0, 1): ([[1, 0], [0, 1]], (3, 0, 3)), (1, 1, 0): ([[1, 0], [1, 1]], (3, 3, 0)),
          (0, 1, 2): ([[1, 1], [0, 1]], (0, 2, 4)), (3, 2, 1): ([[1, 0], [1, 1], [0, 1]], (3, 2, 1))}


def generate(ctx):
    al.load()
    from mqt.qecc import AnalogTannergraphDecoder, AtdSimulator
    from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams

    rng = ctx.rng

    def matrix(m, n, ident=False):
        h = np.array([[rng.randrange(2) for _ in range(n)] for _ in range(m)], dtype=np.int32)
        if ident:
            h[:n] = np.eye(n, dtype=np.int32)
        return h

    def shown(r, inputs=True):
        try:
            return {"runs": int(r["nr_runs"]), "x": int(r["x_success_cnt"]), "z": int(r["z_success_cnt"]), "xler": int(r["x_ler"] * 10**5 + 1e-4),
                    "zler": int(r["z_ler"] * 10**5 + 1e-4), "n": int(r["code_N"]), "k": int(r["code_K"]), "per": al.scaled(r["pers"], 1e4), "ser": 0,
                    "cfg": [str(r[k]) for k in ("codename", "data_err_rate")] if inputs else []}
        except (KeyError, TypeError):
            return {"runs": -1, "x": -1, "z": -1, "xler": -1, "zler": -1, "n": -1, "k": -1, "per": -1, "ser": -1, "cfg": []}

    base = {"xmeta": False, "zmeta": False, "mx": [], "mz": [], "single": False, "atg": True, "perfect": False, "depth": 0, "logicals": True}

    def one(number, bias, per, ser, sigma, samples, stats=False):
        combos, parts = BIASES[bias]
        if per == 0:
            combos = [[0, 0]]
        elif per < 1:
            combos = [[0, 0], *combos]
        n = 4
        certain = len(combos) == 1
        hx, hz = matrix(5, n, not certain), matrix(6, n, not certain)
        lx, lz = matrix(rng.choice([1, 2]), n), matrix(rng.choice([1, 2]), n)
        label = f"simulation {number}: bias {bias}, rate {per}, syndrome error rate {ser}, sigma {sigma}, {samples} samples"
        ctx.begin(label)
        params = {"n": 40 + number % 7, "k": 1 + number % 3}
        seed = rng.randrange(10**6)
        runs = []
        cut = {"events": 0, "every": 1, "file": []}
        for attempt in range(3):
            rec = al.start(seed)
            more = {}
            if attempt == 2:
                if not runs[0][3]:
                    break
                cut = {"events": rng.randrange(len(runs[0][3])), "every": rng.choice([1, 2, 2, 3]), "file": []}
                more = {"save_interval": cut["every"]}
                al.stopping(rec, cut["events"])

            def simulate():
                sim = AtdSimulator(**more, hx=hx.copy(), lx=lx.copy(), hz=hz.copy(), lz=lz.copy(), codename="c", seed=seed, bp_params=BpParams(osd_method="osd0"), data_err_rate=per,
                                   code_params=dict(params), bias=np.array(bias, dtype=float), output_path="result.json", eb_precision=1e-9,
                                   **({"syndr_err_rate": ser} if sigma is None else {"sigma": sigma}))
                return sim.run(samples)

            with al.inside(ctx.scratch / f"r{number}"), al.quiet():
                if attempt == 2:
                    os.unlink("result.json") if os.path.exists("result.json") else None
                    try:
                        simulate()
                    except (al.Stop, Exception):  # noqa: BLE001
                        pass
                    okf, file = ctx.attempt(lambda: json.loads(open("result.json").read()))
                    cut["file"] = [shown(file)] if okf else []
                    runs.append((True, None, None, rec.events))
                    continue
                ok, val = ctx.attempt(simulate)
                okf, file = ctx.attempt(lambda: json.loads(open("result.json").read()))
            runs.append((ok, val, file if okf else {}, rec.events))
        ok, out, file, events = runs[0]
        again = not ok or (runs[1][0] and [e["in"].tolist() + e["ch"].tolist() for e in events] == [e["in"].tolist() + e["ch"].tolist() for e in runs[1][3]])
        if ok and len(runs) > 2:
            again = again and [e["in"].tolist() for e in events[: cut["events"]]] == [e["in"].tolist() for e in runs[2][3]]
        rate = ser if sigma is None else 0.5 * math.erfc(1 / (sigma * math.sqrt(2)))
        bx, by, bz = parts
        fx, fz = (bx + by) * rate / 6, (bz + by) * rate / 6

        def units(p):
            u = float(p) * 6 / per if per else float(p)
            return int(round(u)) if abs(u - round(u)) < 1e-6 else -1

        sides = {"x": [], "z": []}
        for e in events:
            sides["x" if e["pcm"].shape[0] == 6 else "z"].append({"pcm": al.rows(e["pcm"]), "cols": int(e["pcm"].shape[1]), "inp": al.mask(e["in"]), "bin": al.binary(e["in"]),
                                                                  "out": al.mask(e["out"]), "ch": [units(p) for p in e["ch"]], "virt": [al.scaled(p, 10**4) for p in e["ch"][n:]]})
        flips = [[0] if f < 1e-5 else [0, 1] for f in (fx, fz)]
        ctx.add("SingleShot", **base, n=n, hx=al.rows(hx), hz=al.rows(hz), lx=al.rows(lx), lz=al.rows(lz), samples=samples, combos=combos, flipx=flips[0], flipz=flips[1],
                chx=(bx + by) if per else 0, chz=(bz + by) if per else 0, schx=(bx + by) if rate else 0, schz=(bz + by) if rate else 0, evx=sides["x"], evz=sides["z"],
                out={**shown(out if ok else {}, False), "cfg": ["c", str(per)]}, file=shown(file), cut=cut, status="ok" if ok else str(out), again=bool(again),
                rates=[int(1e4 * v) for v in (bx * per / 6, by * per / 6, bz * per / 6, fx, fz)] if stats else [], params={**params, "per": al.scaled(per, 1e4), "ser": 0, "cfg": ["c", str(per)]})

    def decoder(number, sigma, ser, count):
        """The decoder on its own: a history of analog syndromes, judged as noise-free samples of the given signs."""
        n, m = 4, 5
        h = matrix(m, n, True)
        label = f"decoder {number}: sigma {sigma}, ser {ser}, {count} analog syndromes"
        ctx.begin(label)
        rec = al.start(number)
        evs, outs = [], []

        def run():
            dec = AnalogTannergraphDecoder(pcm=h.copy(), bp_params=BpParams(osd_method="osd0"), error_channel=np.full(n, 0.05),
                                           **({"sigma": sigma} if sigma is not None else {}), **({"ser": ser} if ser is not None else {}))
            s = sigma if sigma else math.inf if ser == 0 else None
            if s is None:  # ser = P(N(1, s) < 0)
                lo, hi = 1e-3, 50.0
                for _ in range(200):
                    mid = (lo + hi) / 2
                    lo, hi = (mid, hi) if 0.5 * math.erfc(1 / (mid * math.sqrt(2))) < ser else (lo, mid)
                s = lo
            for _ in range(count):
                y = np.array([rng.choice([-1, 1]) * rng.choice([0.05, 0.4, 0.9, 1.0, 1.3, 2.2]) for _ in range(m)])
                if rng.random() < 0.3:
                    y[rng.randrange(m)] = 0.0
                keep = y.copy()
                out = dec.decode(y)
                want = [0.0 if ser == 0 and not sigma else 1 / (math.exp(abs(2 * v / s**2)) + 1) for v in keep]
                e = rec.events[-1]
                evs.append({"pcm": al.rows(e["pcm"]), "bin": al.binary(e["in"]), "inp": al.mask(e["in"]), "ch": [al.scaled(p, 10**6) for p in e["ch"]], "out": al.mask(e["out"]),
                            "sign": [1 if v < 0 else -1 if v > 0 else 0 for v in keep], "soft": [al.scaled(w, 10**6) for w in want], "res": al.mask(out), "same": bool(np.array_equal(y, keep))})

        ok, val = ctx.attempt(run)
        refuse = (sigma is None) == (ser is None)
        ctx.add("AnalogTanner", n=n, h=al.rows(h), rate=50000, events=evs, status="ok" if ok else str(val), refuse=refuse)

    number = 0
    for _ in range(8 if ctx.quick else 20):
        for bias in BIASES:
            number += 1
            samples = rng.randrange(1, 6)
            flat = INF in bias
            per, ser, sigma = rng.choice([(1, 1e-9, None), (1, 0, None), (1, None, 0.15), (0, 1e-9, None), (0, None, 0.1)] + ([] if flat else [(0.4, 0, None)]))
            one(number, bias, per, ser, sigma, samples)
        for bias, (ser, sigma) in itertools.product([(1, 1, 1), (3, 2, 1), (0, 0, INF), (0, 1, 2)], [(0.2, None), (None, 0.8)]):
            number += 1
            one(number, bias, 0, ser, sigma, 80, stats=True)
        for bias in [(1, 1, 1), (3, 2, 1)]:
            number += 1
            one(number, bias, 0.3, 1e-9, None, 80, stats=True)
        for sigma, ser in [(0.3, None), (0.7, None), (1.5, None), (None, 0.05), (None, 0.2), (None, 0.0), (None, None), (0.5, 0.1)]:
            number += 1
            decoder(number, sigma, ser, 8)
    ctx.notes.append(f"{number} simulations and decoder histories")
