"""A02: overlapping window decoding commits, carries over and reports as specified."""

import itertools
import json
import os

import numpy as np

import analoglib as al
import vlib

ASSUMPTIONS = ["the external decoders (ldpc, pymatching) are replaced by a recorder with arbitrary or exact answers",
               "the number of rounds fills the last window", "error and flip rates within seven standard deviations"]
INF = float("inf")
BIASES = {(INF, 0, 0): (6, 0, 0), (0, INF, 0): (0, 6, 0), (0, 0, INF): (0, 0, 6), (1, 1, 1): (2, 2, 2), (1, 0, 1): (3, 0, 3), (3, 2, 1): (3, 2, 1)}


def generate(ctx):
    al.load()
    from mqt.qecc import QssSimulator
    from mqt.qecc.analog_information_decoding.simulators import memory_experiment_v2 as me
    from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams

    rng = ctx.rng

    def matrix(m, n, ident=False):
        h = np.array([[rng.randrange(2) for _ in range(n)] for _ in range(m)], dtype=np.int32)
        if ident:
            h[:n] = np.eye(n, dtype=np.int32)
        return h

    def event(e, n, m, reps, dpart, spart, per, ser, prob, result=()):
        ch = [float(x) for x in e["ch"]]
        if not prob:  # weights of the matching decoder
            ch = [1 / (1 + np.exp(w)) if np.isfinite(w) else (0.0 if w > 0 else 1.0) for w in ch]

        def units(p, rate, part):
            if p < 1e-13:
                return 0
            return part if rate and part and abs(p * 6 / rate - part) < 1e-6 * max(1, part) else -1

        k = reps * n
        s = [float(x) for x in e["in"]]
        return {"pcm": [[int(j) for j in np.nonzero(r)[0]] for r in e["pcm"]], "bin": al.binary(s),
                "ch": [units(p, per, dpart) for p in ch[:k]] + [units(p, ser, spart) for p in ch[k:]], "virt": [al.scaled(p, 10**4) for p in ch[k:]],
                "diff": [al.mask(s[i * m:(i + 1) * m]) for i in range(reps)], "space": [al.mask(e["out"][i * n:(i + 1) * n]) for i in range(reps)],
                "result": list(result)}

    def shown(r, side):
        try:
            return {"runs": int(r["nr_runs"]), "won": int(r[f"{side}_success_cnt"]), "ler": int(r[f"{side}_ler"] * 10**5 + 1e-4), "n": int(r["code_N"]),
                    "k": int(r["code_K"]), "per": al.scaled(r["pers"], 1e4), "ser": al.scaled(r["sers"], 1e4),
                    "cfg": [str(r[k]) for k in ("codename", "check_side", "repetitions", "rounds", "analog_tg", "decoding_method")]}
        except (KeyError, TypeError):
            return {"cfg": [], **{k: -1 for k in ("runs", "won", "ler", "n", "k", "per", "ser")}}

    def qss(number, bias, side, per, ser, analog, method, reps, extra, samples, stats=False):
        bx, by, bz = BIASES[bias]
        part = by + bz if side == "X" else bx + by
        pd, ps = part * per / 6, part * ser / 6
        deltas = [0] if pd < 1e-6 else [1] if pd == 1 else [0, 1]
        flips = [0] if ps < 1e-5 else [1] if ps == 1 else [0, 1]
        n, m = rng.choice([(3, 5), (4, 5), (2, 3)])
        h = matrix(m, n, len(deltas) > 1)
        lg = matrix(rng.choice([1, 2]), n)
        rounds = reps + extra * reps // 2
        label = (f"simulation {number}: bias {bias}, {side} checks, rates {per} {ser}, analog {analog}, {method}, windows of {reps}, {rounds} rounds, {samples} samples")
        ctx.begin(label)
        params = {"n": 30 + number % 9, "k": 1 + number % 3}
        seed = rng.randrange(10**6)
        runs = []
        folder = ctx.scratch / f"r{number}"
        cut = {"events": 0, "every": 1, "file": []}
        for attempt in range(3):
            rec = al.start(seed)
            more = {}
            if attempt == 2:
                if not runs[0][3]:
                    break
                cut = {"events": rng.randrange(len(runs[0][3])), "every": rng.choice([1, 2, 2, 3]), "file": []}
                more = {"save_interval": cut["every"]}
                al.stopping(rec, cut["events"])

            def simulate():
                sim = QssSimulator(**more, pcm=h.copy(), per=per, ser=ser, logicals=lg.copy(), bias=np.array(bias, dtype=float), codename="c", bp_params=BpParams(osd_method="osd0"),
                                   code_params=dict(params), decoding_method=method, check_side=side, seed=seed, analog_tg=analog, repetitions=reps, rounds=rounds,
                                   outpath="result.json", eb_precision=1e-9)
                return sim.run(samples)

            with al.inside(folder), al.quiet(), np.errstate(all="ignore"):
                if attempt == 2:
                    os.unlink("result.json") if os.path.exists("result.json") else None
                    try:
                        simulate()
                    except (al.Stop, Exception):  # noqa: BLE001
                        pass
                    okf, file = ctx.attempt(lambda: json.loads(open("result.json").read()))
                    cut["file"] = [shown(file, "z" if side == "X" else "x")] if okf else []
                    runs.append((True, None, None, rec.events))
                    continue
                ok, val = ctx.attempt(simulate)
                okf, file = ctx.attempt(lambda: json.loads(open("result.json").read()))
            runs.append((ok, val, file if okf else {}, rec.events))
        ok, out, file, evs = runs[0]
        again = not ok or (runs[1][0] and [e["in"].tolist() for e in evs] == [e["in"].tolist() for e in runs[1][3]])
        if ok and len(runs) > 2:
            again = again and [e["in"].tolist() for e in evs[: cut["events"]]] == [e["in"].tolist() for e in runs[2][3]]
        s = "z" if side == "X" else "x"
        ctx.add("WindowDecoding", n=n, h=al.rows(h), l=al.rows(lg), reps=reps, rounds=rounds, samples=samples, deltas=deltas, flips=flips, given=[], exact=False,
                dch=part if per else 0, sch=part if ser else 0, analog=analog, events=[event(e, n, m, reps, part, part, per, ser, method == "bposd") for e in evs],
                out=shown(out if ok else {}, s), file=shown(file, s), cut=cut, again=bool(again), status="ok" if ok else str(out),
                rates=[int(1e4 * pd), int(1e4 * ps)] if stats else [], params={**params, "per": al.scaled(per, 1e4), "ser": al.scaled(ser, 1e4),
                    "cfg": ["c", side, str(reps), str(rounds), str(analog), method]})

    def direct(number, method, analog, reps, extra, exact):
        n, m = rng.choice([(3, 4), (4, 4), (5, 3), (2, 1)])
        h = matrix(m, n)
        rounds = reps + extra * reps // 2
        label = f"windows {number}: {method}, analog {analog}, windows of {reps}, {rounds} rounds, exact answers {exact}"
        ctx.begin(label)
        errs = [np.array([int(rng.random() < 0.25) for _ in range(n)]) for _ in range(rounds)]
        meas = [np.array([int(rng.random() < 0.3) for _ in range(m)]) for _ in range(rounds - 1)] + [np.zeros(m, dtype=int)]
        rec = al.start(rng.randrange(10**6))
        pd, ps = 0.06, 0.12
        events = []
        ok, h3d = ctx.attempt(me.build_multiround_pcm, h.copy(), reps - 1)

        def simulate():
            t = reps // 2
            probs = np.array([pd] * (reps * n) + [ps] * (reps * m))
            dec = al.StubDecoder(h3d, channel_probs=probs.copy()) if method == "bposd" else al.StubMatching(h3d, weights=np.log((1 - probs) / probs))
            syn = np.zeros((m, reps), dtype=np.int32)
            ana = np.zeros((m, reps)) if analog else None
            left = []  # errors not committed yet, per round of the window
            mleft = []
            state = np.zeros(n, dtype=int)
            cnt = 0
            for r in range(rounds):
                state = (state + errs[r]) % 2
                left.append(errs[r])
                mleft.append(meas[r])
                s = (h @ state + meas[r]) % 2
                syn[:, cnt] = s
                if analog:
                    ana[:, cnt] = [(1 - 2 * b) * (0.2 + rng.random()) for b in s]
                cnt += 1
                if cnt < reps:
                    continue
                last = r == rounds - 1
                if exact:
                    est = np.concatenate([*left, *mleft])
                    rec.plan = lambda pcm, sy, est=est: est
                corr, syn, ana, _ = me.decode_multiround(syndrome=syn, pcm=h, decoder=dec, channel_probs=probs.copy(), repetitions=reps, analog_syndr=ana, last_round=last,
                                                         check_block_size=n * reps, sigma=0.7 if analog else 0.0, h3d=h3d if method == "matching" else None, decoding_method=method)
                e = rec.events[-1]
                events.append(event(e, n, m, reps, 6, 6, pd, ps, method == "bposd", (al.mask(corr), [al.mask(syn[:, i]) for i in range(reps)])))
                if last:
                    return
                state = (state + np.array(corr)) % 2
                left = left[t:]
                mleft = mleft[t:]
                syn = me.move_syndrome(syn)
                if analog:
                    ana = me.move_syndrome(ana, data_type=np.float64)
                cnt = t

        if ok:
            with np.errstate(all="ignore"):
                ok, val = ctx.attempt(simulate)
        else:
            val = h3d
        known = [[al.mask(e), al.mask(f)] for e, f in zip(errs, meas)]
        none = shown({}, "x")
        ctx.add("WindowDecoding", n=n, h=al.rows(h), l=[], reps=reps, rounds=rounds, samples=1, deltas=[0], flips=[0], given=known, exact=exact, dch=6, sch=6,
                analog=analog, events=events, out=none, file=none, cut={}, again=True, status="ok" if ok else str(val), rates=[], params={})

    number = 0
    for _ in range(5 if ctx.quick else 12):
        for method, analog, reps, extra, exact in itertools.product(["bposd", "matching"], [False, True], [2, 4, 6], [0, 1, 2, 5], [False, True]):
            number += 1
            direct(number, method, analog, reps, extra, exact)
    for _ in range(3 if ctx.quick else 6):
        for bias, side, analog, reps in itertools.product(BIASES, ["X", "Z"], [False, True], [2, 4, 6]):
            number += 1
            samples = rng.randrange(1, 4)
            flat = INF in bias
            if analog:
                per, ser = rng.choice([(1, 1e-9), (1, 0), (0, 1e-9)] if flat else [(1, 1e-9), (0.4, 0), (0, 1e-9)])
            else:
                per, ser = rng.choice([(1, 0), (1, 1), (0, 1)] if flat else [(1, 0), (0.4, 0), (0, 1)])
            qss(number, bias, side, per, ser, analog, "bposd", reps, rng.randrange(0, 4), samples)
            if number % 3 == 0:
                number += 1
                per, ser = rng.choice([(0.3, 1e-9), (1e-9, 0.4)]) if not analog else (0.3, 1e-9)
                qss(number, bias, side, per, ser, analog, "matching", reps, rng.randrange(0, 4), samples)
        for bias, side, analog in itertools.product([(1, 1, 1), (3, 2, 1), (0, 0, INF)], ["X", "Z"], [False, True]):
            number += 1
            qss(number, bias, side, 0, 0.25, analog, "bposd", 4, 4, 12, stats=True)
            number += 1
            if not analog:
                qss(number, bias, side, 0.25, 0, analog, "bposd", 4, 4, 12, stats=True)
    ctx.notes.append(f"{number} simulations and window sequences")
