"""A06: reserving the files of simulation results, and reading settings."""

import json
import os
import re

import analoglib as al
import turns

ASSUMPTIONS = ["calls meet at their file system calls", "schedules with few changes of the running caller", "rates differ within the three digits a folder name shows"]

BASE = {"experiment": "wer", "analog_info": False, "analog_tg": False, "bias": [1.0, 1.0, 1.0], "single_stage": True, "sus_th_depth": None, "rounds": None, "repetitions": None, "x_meta": False,
        "z_meta": False, "codename": "code", "data_err_rate": 0.1, "syndr_err_rate": 0.05}


def ident(path):
    m = re.search(r"(\d+)\.json$", str(path))
    return int(m.group(1)) if m else -2


def generate(ctx):
    al.load(stub=False)
    from mqt.qecc.analog_information_decoding.utils import data_utils as du

    rng = ctx.rng
    count = [0]

    def settings():
        s = dict(BASE)
        for k, vs in (("experiment", ["wer", "atd"]), ("analog_info", [False, True]), ("analog_tg", [False, True]), ("bias", [[1.0, 1.0, 1.0], [0.0, 0.0, 1.0], [1.0, 2.0, 3.0]]), ("single_stage", [True, False]),
                      ("rounds", [None, 1, 11]), ("repetitions", [None, 1, 11]), ("x_meta", [False, True]), ("z_meta", [False, True]), ("codename", ["code", "code2", "c"]),
                      ("data_err_rate", [0.1, 0.01, 0.2]), ("syndr_err_rate", [0.05, 0.005, None])):
            if rng.random() < 0.4:
                s[k] = rng.choice(vs)
        if s["analog_info"]:
            s["analog_tg"] = False
        if s["rounds"] is None and rng.random() < 0.3:
            s["sus_th_depth"] = rng.choice([1, 2, 12])
        if s["syndr_err_rate"] is None:
            s["sigma"] = rng.choice([0.3, 0.5])
        return s

    def fresh():
        count[0] += 1
        d = ctx.scratch / f"r{count[0]}"
        d.mkdir()
        os.chdir(d)
        return d

    def files(root):
        return {p: p.read_text() for p in root.rglob("*") if p.is_file()}

    def reserve(name, froms, pre, schedule, kill=None, made=True, s=None):
        """One history of concurrent calls from a state with the files `pre`."""
        s = s or BASE
        d = fresh()
        folder = None
        if made or pre:
            probe = os.path.abspath(du.create_outpath(**{k: v for k, v in s.items()}, identifier=0))
            folder = os.path.dirname(probe)
            stem = re.sub(r"\d+\.json$", "", probe)
            os.remove(probe)
            for p in pre:
                with open(f"{stem}{p}.json", "w") as fh:
                    fh.write(json.dumps({"run": p}))
        before = files(d)

        def caller(f):
            return lambda: os.path.abspath(du.create_outpath(**s, identifier=f))

        results = schedule([caller(f) for f in froms], kill)
        res, spans, _ = results
        after = files(d)
        ids = {str(p): ident(p) for p in after}
        same = all(after.get(p) == t for p, t in before.items())
        post = sorted(ids.values())
        outs = []
        for (st, v), f, (a, b) in zip(res, froms, spans):
            outs.append({"from": f, "id": ident(v) if st == "ok" else -1, "status": st, "first": a, "last": b if b > 0 else 10**6})
            if st == "ok" and (v not in ids or (folder and os.path.dirname(v) != folder)):
                outs[-1]["id"] = -3
        # a file that no call returned may be the one a killed call has made
        stray = sorted(set(post) - set(pre) - {o["id"] for o in outs})
        for o in outs:
            if o["status"] == "killed" and stray:
                o["id"] = stray.pop(0)
        ctx.add("ResultFiles", label=name, kind="reserve", pre=sorted(pre), post=post, calls=outs, kept=same)

    here = os.getcwd()
    try:
        # one call after the other
        for i in range(20 if ctx.quick else 150):
            ctx.begin(f"sequential {i}")
            pre = sorted(rng.sample(range(6), rng.randint(0, 4)))
            froms = [rng.choice([0, 0, 0, 1, 3]) for _ in range(rng.randint(1, 5))]

            def seq(callers, kill):
                res, spans = [], []
                for k, fn in enumerate(callers):
                    ok, v = ctx.attempt(fn)
                    res.append(("ok" if ok else "error", v))
                    spans.append((2 * k + 1, 2 * k + 2))
                return res, spans, []

            reserve(f"sequential {i} {pre} {froms}", froms, pre, seq, s=settings())

        # calls at the same time: all schedules with few changes
        budget = 250 if ctx.quick else 4000
        plans = [([0, 0], [], True), ([0, 0], [], False), ([0, 0], [0, 1], True), ([0, 1], [0], True), ([2, 0], [0, 1, 3], True), ([0, 0, 0], [], True), ([0, 0, 1], [1], True)]
        for froms, pre, made in plans:
            stack, seen = [[]], 0
            bound = 2 if ctx.quick else 3
            while stack and seen < budget // (1 if len(froms) == 2 else 2):
                choices = stack.pop()
                seen += 1
                ctx.begin(f"callers from {froms} with {pre}, schedule {seen}")
                trace = []

                def go(callers, kill, choices=choices, trace=trace):
                    r = turns.run(callers, choices, kill)
                    trace.extend(r[2])
                    return r

                reserve(f"callers from {froms} with {pre}, schedule {choices}", froms, pre, go, made=made)
                pre_cost = 0
                for k, (can, last, who) in enumerate(trace):
                    if k >= len(choices):
                        for alt in can:
                            if alt != who and pre_cost + (1 if last in can and alt != last else 0) <= bound:
                                stack.append([w for _, _, w in trace[:k]] + [alt])
                    if last in can and who != last:
                        pre_cost += 1
                if len(stack) > 2000:
                    rng.shuffle(stack)
                    del stack[1000:]

        # a call that is killed at any of its steps, with others around it
        for i in range(60 if ctx.quick else 600):
            froms = [0] * rng.randint(1, 3)
            pre = sorted(rng.sample(range(4), rng.randint(0, 2)))
            choices = [rng.randrange(len(froms)) for _ in range(rng.randint(0, 25))]
            kill = (rng.randrange(len(froms)), rng.randint(1, 8))
            ctx.begin(f"killed {i}")

            def go(callers, kill, choices=choices):
                return turns.run(callers, choices, kill)

            reserve(f"killed {kill} callers {froms} with {pre}, schedule {choices}", froms, pre, go, kill=kill, made=rng.random() < 0.7)

        # settings lie apart
        for i in range(6 if ctx.quick else 40):
            ctx.begin(f"apart {i}")
            fresh()
            runs, keys = [], []
            base = settings()
            variants = [base, {**base}]
            for k, vs in (("bias", [[1.0, 1.0, 1.0], [0.0, 1.0, 1.0], [1.0, 0.0, 1.0], [1.0, 1.0, 0.0]]), ("single_stage", [True, False]), ("x_meta", [False, True]), ("z_meta", [False, True]),
                          ("codename", ["code", "code2", "c"]), ("data_err_rate", [0.1, 0.01, 0.101]), ("experiment", ["wer", "atd"]), ("repetitions", [None, 1, 2, 11])):
                variants += [{**base, k: v} for v in vs]
            if not base["sus_th_depth"]:
                variants += [{**base, "rounds": v} for v in (None, 1, 2, 11)]
            variants += [{**base, "rounds": None, "sus_th_depth": v} for v in (1, 2, 11)]
            variants += [{**base, "analog_info": a, "analog_tg": t} for a, t in ((False, False), (False, True), (True, False))]
            if "sigma" in base:
                variants += [{**base, "sigma": v} for v in (0.3, 0.5, 0.503)]
            else:
                variants += [{**base, "syndr_err_rate": v} for v in (0.05, 0.005, 0.051)]
            variants += [{**base, "syndr_err_rate": None, "sigma": v} for v in (0.3, 0.5, 0.503)]
            variants += [{**base, "syndr_err_rate": None, "x_sigma": v, "z_sigma": w} for v in (0.3, 0.5) for w in (0.3, 0.4)]
            for j, s in enumerate([*variants, *(settings() for _ in range(6))]):
                ok, p = ctx.attempt(du.create_outpath, **s)
                key = json.dumps(s, sort_keys=True)
                runs.append({"set": key, "place": os.path.dirname(p) if ok else f"error {p} {j}"})
            ctx.add("ResultFiles", kind="apart", runs=runs)
    finally:
        os.chdir(here)

    # settings files, and combinations of their values
    vals = [1, 2, 3, "a", "b", "0.1", "x y", "1"]
    norm = lambda v: json.dumps(v)  # noqa: E731
    for i in range(40 if ctx.quick else 400):
        ctx.begin(f"settings {i}")
        lines = []
        for _ in range(rng.randint(0, 6)):
            d = {}
            for k in rng.sample(["per", "ser", "code", "bias"], rng.randint(0, 4)):
                d[k] = rng.choice(vals) if rng.random() < 0.7 else [rng.choice(vals), 0.5]
            lines.append(d)
        p = ctx.scratch / f"settings{i}.txt"
        p.write_text("".join(json.dumps(d) + "\n" for d in lines))
        ok, r = ctx.attempt(du.extract_settings, str(p))
        ok2, out = ctx.attempt(lambda r=r: [{"key": str(k), "vals": [norm(v) for v in vs]} for k, vs in r.items()])
        ctx.add("ResultFiles", kind="settings", lines=[[{"key": k, "val": norm(v)} for k, v in d.items()] for d in lines], status="ok" if ok and ok2 else "error", out=out if ok and ok2 else [])
        lists = {f"k{j}": [rng.choice(vals) if rng.random() < 0.2 else f"{j}-{m}" for m in range(rng.randint(0 if rng.random() < 0.2 else 1, 4))] for j in rng.sample(range(4), rng.randint(1, 4))}
        for kind, fn in (("product", du.product_dict), ("zip", du.zip_dict)):
            if kind == "product" and not all(len(set(map(norm, v))) == len(v) for v in lists.values()):
                continue

            def call(fn=fn, lists=lists):
                out = []
                for d in fn(**lists):
                    if set(d) != set(lists):
                        raise ValueError("keys")
                    out.append([norm(d[k]) for k in lists])
                return out

            ok, out = ctx.attempt(call)
            ctx.add("ResultFiles", kind=kind, lists=[[norm(v) for v in vs] for vs in lists.values()], status="ok" if ok else "error", out=out if ok else [])
