"""A01: single-shot simulations follow their protocol and report its outcome."""

import itertools
import json

import numpy as np

import analoglib as al
import vlib

ASSUMPTIONS = ["the external decoder (ldpc) is replaced by a recorder with arbitrary answers", "analog_info is not judged (its decoder is not part of the package)",
               "error and flip rates within seven standard deviations"]
INF = float("inf")
CFG = ("codename", "seed", "sus_th_depth", "single_stage", "x_meta", "z_meta", "analog_tg")
# bias -> possible (x, z) parts of the error of a qubit and the sixths of x, y, z
BIASES = {(INF, 0, 0): ([[1, 0]], (6, 0, 0)), (0, INF, 0): ([[1, 1]], (0, 6, 0)), (0, 0, INF): ([[0, 1]], (0, 0, 6)),
          (1, 1, 1): ([[1, 0], [1, 1], [0, 1]], (2, 2, 2)), (1, 0, 1): ([[1, 0], [0, 1]], (3, 0, 3)), (1, 1, 0): ([[1, 0], [1, 1]], (3, 3, 0)),
          (0, 1, 2): ([[1, 1], [0, 1]], (0, 2, 4)), (3, 2, 1): ([[1, 0], [1, 1], [0, 1]], (3, 2, 1))}


def generate(ctx):
    al.load()
    from mqt.qecc.analog_information_decoding.simulators.simulation import SingleShotSimulator
    from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams

    rng = ctx.rng

    def matrix(m, n, ident=False, rank=None):
        h = np.array([[rng.randrange(2) for _ in range(n)] for _ in range(m)], dtype=np.int32)
        if ident:
            h[:n] = np.eye(n, dtype=np.int32)
        elif rank:
            for i in range(rank, m):
                h[i] = sum(h[j] * rng.randrange(2) for j in range(rank)) % 2
        return h

    def one(number, bias, per, ser, xm, zm, single, atg, logicals, depth, samples, stats=False):
        combos, parts = BIASES[bias]
        if per == 0:
            combos = [[0, 0]]
        elif per < 1:
            combos = [[0, 0], *combos]
        certain = len(combos) == 1
        n = 4
        hx, hz = matrix(5, n, not certain, 2), matrix(6, n, not certain, 2)
        mx, mz = matrix(2, 5), matrix(3, 6)
        lx, lz = matrix(rng.choice([1, 2]), n), matrix(rng.choice([1, 2]), n)
        label = (f"simulation {number}: bias {bias}, rates {per} {ser}, meta {xm} {zm}, single stage {single}, analog {atg}, "
                 f"logicals {logicals}, depth {depth}, {samples} samples")
        ctx.begin(label)
        params = {"n": 40 + number % 7, "k": 1 + number % 3}
        seed = rng.randrange(10**6)
        def shown(r):
            try:
                return {"runs": int(r["nr_runs"]), "x": int(r["x_success_cnt"]), "z": int(r["z_success_cnt"]), "xler": int(r["x_ler"] * 10**5 + 1e-4),
                        "zler": int(r["z_ler"] * 10**5 + 1e-4), "n": int(r["code_N"]), "k": int(r["code_K"]), "per": al.scaled(r["pers"], 1e4), "ser": al.scaled(r["sers"], 1e4),
                        "cfg": [str(r[k]) for k in CFG]}
            except (KeyError, TypeError):
                return {"runs": -1, "x": -1, "z": -1, "xler": -1, "zler": -1, "n": -1, "k": -1, "per": -1, "ser": -1, "cfg": []}

        runs = []
        cut = {"events": 0, "every": 1, "file": []}
        for attempt in range(3):
            rec = al.start(seed)
            every = rng.choice([2, 50])
            if attempt == 2:  # stopped in the middle of a decoding
                if not runs[0][3]:
                    break
                every = rng.choice([1, 1, 2, 3])
                cut = {"events": rng.randrange(len(runs[0][3])), "every": every, "file": []}
                al.stopping(rec, cut["events"])

            name = []

            def simulate():
                sim = SingleShotSimulator(codename=f"code{number}", per=per, ser=ser, single_stage=single, seed=seed, bias=np.array(bias, dtype=float), x_meta=xm,
                                          z_meta=zm, sus_th_depth=depth, bp_params=BpParams(osd_method="osd0"), code_params=dict(params), hx=hx.copy(), hz=hz.copy(),
                                          mx=mx.copy() if xm else None, mz=mz.copy() if zm else None, lx=lx.copy() if logicals else None,
                                          lz=lz.copy() if logicals else None, analog_tg=atg, eb_precision=1e-9, save_interval=every)
                name.append(sim.outfile)
                return sim.run(samples), sim.outfile

            folder = ctx.scratch / f"r{number}"
            with al.inside(folder), al.quiet():
                file = {}
                if attempt == 2:
                    try:
                        simulate()
                    except al.Stop:
                        pass
                    except Exception:  # noqa: BLE001
                        continue  # another run than the first one: SeedReproduces
                    okf, file = ctx.attempt(lambda: json.loads(open(name[0]).read()))
                    cut["file"] = [shown(file)] if okf else []
                    runs.append((True, None, None, rec.events))
                    continue
                ok, val = ctx.attempt(simulate)
                if ok:
                    okf, file = ctx.attempt(lambda: json.loads(open(val[1]).read()))
                    if not okf:
                        file = {}
            runs.append((ok, val[0] if ok else str(val), file, rec.events))
        ok, out, file, events = runs[0]

        def key(evs):
            return [(e["pcm"].tolist(), e["ch"].tolist(), e["in"].tolist()) for e in evs]

        def units(p, rate):
            u = float(p) * 6 / rate if rate else float(p)
            return int(round(u)) if abs(u - round(u)) < 1e-6 else -1

        again = (ok and runs[1][0] and key(events) == key(runs[1][3])) or not ok
        if len(runs) > 2 and ok:
            again = again and key(events[: cut["events"]]) == key(runs[2][3])
        sides = {"x": [], "z": []}
        fam = {"x": {(6, n), (6, n + 6), (9, n + 6), (3, 6)}, "z": {(5, n), (5, n + 5), (7, n + 5), (2, 5)}}
        for e in events:
            d = "x" if e["pcm"].shape in fam["x"] else "z"
            meta = e["pcm"].shape in {(3, 6), (2, 5)}
            sides[d].append({"pcm": al.rows(e["pcm"]), "cols": int(e["pcm"].shape[1]), "inp": al.mask(e["in"]), "bin": al.binary(e["in"]), "out": al.mask(e["out"]),
                             "ch": [units(p, ser if meta or i >= n else per) for i, p in enumerate(e["ch"])], "virt": [al.scaled(p, 10**4) for p in e["ch"][n:]] if not meta else []})

        bx, by, bz = parts
        fx, fz = (bx + by) * ser / 6, (bz + by) * ser / 6

        def flips(f):
            if f < 1e-5:
                return [0]
            return [1] if f == 1 else [0, 1]

        rates = [int(1e4 * v) for v in (bx * per / 6, by * per / 6, bz * per / 6, fx, fz)] if stats else []
        ctx.add("SingleShot", perfect=True, n=n, hx=al.rows(hx), hz=al.rows(hz), mx=al.rows(mx), mz=al.rows(mz), xmeta=xm, zmeta=zm, single=single, atg=atg,
                logicals=logicals, lx=al.rows(lx), lz=al.rows(lz), depth=depth, samples=samples, combos=combos, flipx=flips(fx), flipz=flips(fz),
                chx=(bx + by) if per else 0, chz=(bz + by) if per else 0, schx=(bx + by) if ser else 0, schz=(bz + by) if ser else 0,
                evx=sides["x"], evz=sides["z"], out=shown(out if ok else {}), file=shown(file), status="ok" if ok else str(out), cut=cut, again=bool(again), rates=rates,
                params={**params, "per": al.scaled(per, 1e4), "ser": al.scaled(ser, 1e4),
                        "cfg": [str(v) for v in (f"code{number}", seed, depth, single, xm, zm, atg)]})

    for i in range(4):  # options that exclude each other
        tg, info = bool(i % 2), bool(i // 2)
        al.start(1)
        label = f"analog options {tg} {info}"
        ctx.begin(label)

        def build(tg=tg, info=info):
            SingleShotSimulator(codename="c", per=0.1, ser=0.1, single_stage=True, seed=1, bias=np.array([1.0, 1.0, 1.0]), x_meta=False, z_meta=False, sus_th_depth=1,
                                bp_params=BpParams(osd_method="osd0"), code_params={"n": 4, "k": 1}, hx=matrix(2, 4), hz=matrix(2, 4), mx=None, mz=None, lx=None, lz=None,
                                analog_tg=tg, analog_info=info)

        with al.inside(ctx.scratch / f"o{i}"), al.quiet():
            ok, val = ctx.attempt(build)
        ctx.add("SingleShotOptions", tg=tg, info=info, status="ok" if ok else str(val).split(":")[0])
    number = 0
    reps = 3 if ctx.quick else 6
    for _ in range(reps):
        for xm, zm, single, atg in itertools.product([False, True], repeat=4):
            for bias in BIASES:
                depth, samples = rng.randrange(0, 4), rng.randrange(1, 5)
                logicals = rng.random() < 0.6
                # errors of certain kinds with certain or no flips
                flat = bias[0] == INF or bias[1] == INF or bias[2] == INF
                per, ser = rng.choice([(1, 0), (1, 1), (0, 1)] if flat else [(1, 0), (1, 0), (0, 0.3)])
                if atg:  # analog noise that never turns a sign around, or errors known otherwise
                    per, ser = rng.choice([(1, 0), (1, 1e-9), (0, 0), (0, 1e-9)])
                number += 1
                one(number, bias, per, ser, xm, zm, single, atg, logicals, depth, samples)
        for bias, (xm, zm, single, atg) in itertools.product([(1, 1, 1), (3, 2, 1), (0, 0, INF), (0, 1, 2)], [(False, False, False, False), (True, False, True, True), (True, True, False, True), (True, True, True, False), (False, True, True, True)]):
            number += 1
            if atg or number % 2:
                one(number, bias, 0, 0.2, xm, zm, single, atg, True, 5, 16, stats=True)
            else:
                one(number, bias, 0.3, 0, xm, zm, single, atg, True, 5, 16, stats=True)
    ctx.notes.append(f"{number} simulations")
