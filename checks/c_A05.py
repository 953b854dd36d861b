"""A05: merging of the result files of simulations."""

import copy
import json

import analoglib as al

ASSUMPTIONS = ["error bars per logical qubit are judged for one logical qubit only", "one code per folder"]


def generate(ctx):
    al.load(stub=False)
    from mqt.qecc.analog_information_decoding.utils import data_utils as du

    rng = ctx.rng

    def rates(succ, runs, k):
        return du.calculate_error_rates(succ, runs, {"k": k})

    def dataset(k, sides, meta):
        runs = rng.choice([1, 2, 7, rng.randint(1, 300)])
        d = {"code_K": k, "code_N": 5 * k, "nr_runs": runs, "pers": 0.1, "sers": 0.05, "note": meta, "bias": [1.0, 1.0, "i"]}
        for s in sides:
            succ = rng.choice([0, runs, rng.randint(0, runs)])
            d[f"{s}_success_cnt"] = succ
            d[f"{s}_ler"], d[f"{s}_ler_eb"], d[f"{s}_wer"], d[f"{s}_wer_eb"] = map(float, rates(succ, runs, k))
        return d

    def rec(d):
        """A data set for the specification."""
        return {"valid": True, "runs": d["nr_runs"], "x": d.get("x_success_cnt", -1), "z": d.get("z_success_cnt", -1), "meta": d["note"]}

    def near(v):
        return round(v) if abs(v - round(v)) < 1e-4 else -1

    def side(o, s, k):
        try:
            return judged_side(o, s, k)
        except Exception:  # noqa: BLE001 - a record with fields missing or of another kind agrees with no totals
            return {"has": True, "runs": -1, "succ": 0, "fails": 0, "wersucc": 0, "eb2": 0}

    def judged_side(o, s, k):
        if not isinstance(o[f"{s}_success_cnt"] if f"{s}_success_cnt" in o else 0, int):
            raise TypeError
        if f"{s}_success_cnt" not in o:
            return {"has": False, "runs": 0, "succ": 0, "fails": 0, "wersucc": 0, "eb2": 0}
        runs = o.get(f"{s}_runs", o.get("nr_runs", -1))
        if not isinstance(runs, int) or runs <= 0:
            return {"has": True, "runs": -1, "succ": 0, "fails": 0, "wersucc": 0, "eb2": 0}
        eb2 = near(o[f"{s}_ler_eb"] ** 2 * runs**3)
        if k == 1 and abs(o[f"{s}_wer_eb"] - o[f"{s}_ler_eb"]) > 1e-9:
            eb2 = -1
        return {"has": True, "runs": runs, "succ": o[f"{s}_success_cnt"], "fails": near(o[f"{s}_ler"] * runs), "wersucc": near((1 - o[f"{s}_wer"]) ** k * runs), "eb2": eb2}

    def out(o, k):
        meta = o.get("note", -1) if isinstance(o, dict) else -1
        return {"x": side(o, "x", k), "z": side(o, "z", k), "meta": meta if isinstance(meta, int) else -1}

    funs = {"both": (du.merge_datasets, du.merge_json_files), "x": (du._merge_datasets_x, du.merge_json_files_x), "z": (du._merge_datasets_z, du.merge_json_files_z),
            "xz": (None, du.merge_json_files_xz)}
    n = 0
    for i in range(600 if ctx.quick else 2000):
        mode = rng.choice(list(funs))
        k = rng.choice([1, 1, 2, 4])
        sided = ["xz"] if mode == "both" else ["xz", "x", "z"]
        how = rng.choice(["lists", "files", "files", "load"]) if mode == "both" else "files" if mode == "xz" else rng.choice(["lists", "files"])
        ctx.begin(f"merge {i} {mode} {how}")
        if how == "lists":
            ds = [dataset(k, rng.choice(sided), j) for j in range(rng.randint(0, 5))]
            before = copy.deepcopy(ds)
            ok, r = ctx.attempt(funs[mode][0], ds)
            ctx.add("ResultMerge", mode=mode, folders=[[rec(d) for d in before]], out=[out(r, k)] if ok and r else [], unchanged=ds == before, status="ok" if ok else str(r))
            continue
        root = ctx.scratch / f"m{i}" / rng.choice(["code", "some.code.v2", "a b"])
        root.mkdir(parents=True)
        folders, texts = [], {}
        for f in range(rng.randint(0, 4)):
            d = root / f"per_{f}"
            d.mkdir()
            files = []
            for j in range(rng.randint(0, 4)):
                kind = rng.random()
                p = d / f"id_{j}.json"
                if kind < 0.15:
                    p.write_text("{\"nr_runs\": 3,")
                    files.append({"valid": False, "runs": 0, "x": -1, "z": -1, "meta": -1})
                elif kind < 0.25:
                    p = d / f"id_{j}.txt"
                    p.write_text("{\"nr_runs\": 3, \"x_success_cnt\": 1, \"z_success_cnt\": 1, \"code_K\": 1}")
                else:
                    s = dataset(k, rng.choice(sided), n)
                    n += 1
                    p.write_text(json.dumps(s))
                    files.append(rec(s))
            folders.append(files)
        if rng.random() < 0.3:  # a file beside the folders is no result of them
            (root / "other.json").write_text(json.dumps(dataset(k, "xz", n)))
            n += 1
        for p in root.rglob("*"):
            if p.is_file():
                texts[p] = p.read_text()
        target = root.parent / f"{root.name}.json"
        if how == "load":
            # a result file that is broken is merged again from the folder
            target.write_text(rng.choice(["", "[{", "{\"a\": "]))
            extra = root.parent / "good.json"
            good = dataset(k, "xz", n)
            extra.write_text(json.dumps(good))

            def call(target=target, extra=extra, good=good):
                first, second = du.load_data([str(extra), str(target)])
                if first != good:
                    raise ValueError("another file's data")
                return second
        else:
            if rng.random() < 0.3:
                target.write_text("old")

            def call(target=target, root=root, fn=funs[mode][1]):
                fn(str(root))
                return json.loads(target.read_text())

        ok, r = ctx.attempt(call)
        now = {p: p.read_text() for p in root.rglob("*") if p.is_file()}
        if ok and not isinstance(r, list):
            ok, r = False, "no list of records"
        ctx.add("ResultMerge", mode=mode, folders=folders, out=[out(o, k) for o in r] if ok else [], unchanged=now == texts, status="ok" if ok else str(r))
