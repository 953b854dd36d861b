"""A07: construction of product codes, dense and sparse."""

import json
import os
from pathlib import Path

import analoglib as al
import numpy as np

ASSUMPTIONS = ["seed matrices of few rows and columns", "the external program that estimates distances is replaced by one that states planned numbers"]

GAP = """#!/usr/bin/env python3
import json, os, re, sys
plan = json.loads(os.environ["PLAN"])
for line in sys.stdin:
    m = re.match(r'\\s*Print\\("(\\w+) = "', line)
    if m:
        print(f"{m.group(1)} = {plan[m.group(1).lower()]}")
"""


def generate(ctx):
    al.load(stub=False)
    import scipy.io as sio
    import scipy.sparse as sp
    from bposd.hgp import hgp
    from mqt.qecc.analog_information_decoding.code_construction import code_constructor as dense
    from mqt.qecc.analog_information_decoding.code_construction import sparse_code_constructor as sparse

    rng = ctx.rng
    np_rng = np.random.default_rng(rng.randrange(2**32))

    def mat(m):
        m = np.asarray(m.todense() if hasattr(m, "todense") else m)
        if m.ndim != 2 or not np.all((m == 0) | (m == 1)):
            return {"r": 0, "c": -1, "rows": []}
        return {"r": int(m.shape[0]), "c": int(m.shape[1]), "rows": [[int(j) for j in np.nonzero(r)[0]] for r in m]}

    def some(r, c):
        kind = rng.random()
        if kind < 0.15 and r == c and r > 1:
            return (np.eye(r, dtype=int) + np.roll(np.eye(r, dtype=int), 1, axis=1)) % 2
        if kind < 0.3 and r == c - 1:
            return np.array([[int(j in (i, i + 1)) for j in range(c)] for i in range(r)])
        return np_rng.integers(0, 2, (r, c))

    def kernel(m):
        """All vectors of the kernel, small matrices only."""
        n = m.shape[1]
        out = []
        for v in range(2**n):
            x = np.array([(v >> i) & 1 for i in range(n)])
            if not np.any(m @ x % 2):
                out.append(x)
        return out

    def complex_of(lengths):
        maps = [some(*lengths[:2])]
        for w in lengths[2:]:
            ker = kernel(maps[-1])
            maps.append(np.array([rng.choice(ker) for _ in range(w)]).T.astype(int))
        return maps

    # the product functions
    for i in range(200 if ctx.quick else 600):
        three = rng.random() < 0.5
        ctx.begin(f"product {i} {'3D' if three else '4D'}")
        maps = complex_of([rng.randint(1, 4) for _ in range(3 if three else 4)])
        if rng.random() < 0.25:  # not a complex any more
            k = rng.randrange(len(maps))
            maps[k] = maps[k].copy()
            maps[k][rng.randrange(maps[k].shape[0]), rng.randrange(maps[k].shape[1])] ^= 1
        p = some(rng.randint(1, 3), rng.randint(1, 3))
        checked = True if three else rng.random() < 0.6
        for name, mod, conv in (("dense", dense, lambda m: m.astype(np.int32)), ("sparse", sparse, sp.csr_matrix)):
            args = [conv(m) for m in maps] + [conv(p)]
            if three:
                ok, out = ctx.attempt(mod.generate_3d_product_code, *args)
            else:
                ok, out = ctx.attempt(mod.generate_4d_product_code, *args, checks=checked)
            ok2, ms = ctx.attempt(lambda out=out: [mat(m) for m in out]) if ok else (True, [])
            ctx.add("ProductCode", label=f"product {i} {name}", kind="maps", start=[mat(m) for m in maps], seeds=[mat(p)], checked=checked, out=ms if ok2 else [], status="ok" if ok and ok2 else str(out).split(":")[0])

    # codes that are stored
    def read(d, name):
        t = [[int(x) for x in line.split()] for line in (d / f"{name}.txt").read_text().splitlines() if line.strip()]
        m = np.asarray(sio.mmread(d / f"{name}.mtx").todense()).astype(int)
        a = np.array(t, dtype=int).reshape(len(t), -1) if t else np.zeros((0, m.shape[1]), dtype=int)
        return a, a.shape == m.shape and bool(np.all(a == m))

    here = os.getcwd()
    oldpath = os.environ.get("PATH", "")
    real_path, real_out = sparse.Path, sparse.create_outpath
    try:
        for i in range(80 if ctx.quick else 200):
            four = rng.random() < 0.5
            big = 2 if four else 3
            if not ctx.quick and i % 5 == 0:
                big += 1
            shapes = [(rng.randint(1, big), rng.randint(1, big)) for _ in range(4 if four else 3)]
            if i < 2:
                shapes = [(2, 2)] * len(shapes)
            seeds = [some(*s) for s in shapes]
            if i < 2 or rng.random() < 0.15:
                seeds = [np.ones((2, 2), dtype=int)] * len(seeds) if four else [np.array([[1, 1, 0], [0, 1, 1], [1, 0, 1]])] * 3
            ok, _ = ctx.attempt(hgp, seeds[0], seeds[1])
            if not ok:
                continue
            ctx.begin(f"code {i} {'dense' if four else 'sparse'} {[s.tolist() for s in seeds]}")
            work = ctx.scratch / f"code{i}"
            work.mkdir()
            os.chdir(work)
            logicals = rng.random() < 0.6
            distances = rng.random() < 0.4
            plan = {k: rng.randint(1, 40) for k in (("dx", "dz", "dmx", "dmz") if four else ("dx", "dz"))}
            if distances:
                (work / "bin").mkdir()
                (work / "bin" / "gap").write_text(GAP)
                (work / "bin" / "gap").chmod(0o755)
                os.environ["PATH"] = f"{work / 'bin'}:{oldpath}"
                os.environ["PLAN"] = json.dumps(plan)
                src = Path(dense.__file__).parent
                for f in ("compute_distances.sh", "compute_distances_3D.sh"):
                    (work / f).write_text((src / f).read_text().replace("/codes/", f"{work}/codes/"))
            if four:
                ok, err = ctx.attempt(dense.create_code, "hgp", seeds, "a.code", compute_distance=distances, compute_logicals=logicals, checks=rng.random() < 0.5)
                d = work / "generated_codes" / "a.code"
            else:
                # the sparse constructor stores below /codes, here below the folder of the run
                def moved(p, work=work):
                    s = str(p)
                    return real_path(f"{work}{s}" if s.startswith("/codes/") else s)

                def moved_out(name, work=work):
                    s = str(real_out(name))
                    return f"{work}{s}" if s.startswith("/codes/") else s

                def moved_run(cmd, *a, work=work, **k):
                    return real_run([f"{work}{x}" if str(x).startswith("/codes/") else x for x in cmd], *a, **k)

                sparse.Path, sparse.create_outpath = moved, moved_out
                real_run = sparse.subprocess.run
                sparse.subprocess.run = moved_run
                try:
                    ok, err = ctx.attempt(sparse.create_code, "hgp", [s for s in seeds], "a.code", compute_distance=distances, compute_logicals=logicals)
                finally:
                    sparse.subprocess.run = real_run
                    sparse.Path, sparse.create_outpath = real_path, real_out
                d = work / "codes" / "generated_codes" / "a.code"
                if not d.exists():
                    d = work / "generated_codes" / "a.code"
            names = (["mx"] if four else []) + ["hx", "hz", "mz"]

            def collect(d=d, names=names, logicals=logicals, four=four, distances=distances, plan=plan):
                got = {n: read(d, n) for n in names + (["lx", "lz"] if logicals else [])}
                par = {"n": -1, "k": -1}
                stored = []
                f = d / "code_params.txt"
                if f.exists() or distances or not four:
                    j = json.loads(f.read_text())
                    par = {"n": int(j["n"]), "k": int(j["k"])}
                    if distances:
                        stored = [int(j[{"dx": "dX", "dz": "dZ", "dmx": "dMX", "dmz": "dMZ"}[k]]) for k in plan]
                out = [mat(got[n][0].T if n in ("hz", "mz") else got[n][0]) for n in names]
                return out, all(v[1] for v in got.values()), mat(got["lx"][0]) if logicals else mat(np.zeros((0, 1))), mat(got["lz"][0]) if logicals else mat(np.zeros((0, 1))), par, stored

            ok2, r = ctx.attempt(collect) if ok else (False, err)
            out, formats, lx, lz, par, stored = r if ok2 else ([], False, mat(np.zeros((0, 1))), mat(np.zeros((0, 1))), {"n": -1, "k": -1}, [])
            ctx.add("ProductCode", kind="code", start=[mat(seeds[0])], seeds=[mat(seeds[1].T), *(mat(s) for s in seeds[2:])], q=2 if four else 1, out=out, formats=formats, logicals=logicals, lx=lx, lz=lz, params=par,
                    distances=list(plan.values()) if distances else [], stored=stored, status="ok" if ok and ok2 else str(r))
            os.environ["PATH"] = oldpath
    finally:
        os.chdir(here)
        os.environ["PATH"] = oldpath
        sparse.Path, sparse.create_outpath = real_path, real_out
