"""A08: lifted products of protographs and the stored code files."""

import importlib.util
import re

import numpy as np
import vlib

ASSUMPTIONS = ["protographs of few rows and columns, lift parameters up to 6 (32 for the stored product)", "the stated distances of files other than the toric codes are not decided"]


def generate(ctx):
    import ldpc.protograph as pt
    import scipy.sparse as sp

    rng = ctx.rng
    folder = vlib.REPO / "scripts" / "numerics" / "code_construct"
    spec = importlib.util.spec_from_file_location("lifted_hgp_checked", folder / "lifted_hgp.py")
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    none = {"r": 0, "c": 0, "rows": []}

    def mat(m):
        m = np.asarray(m.todense() if hasattr(m, "todense") else m)
        if m.ndim != 2 or not np.all((m == 0) | (m == 1)):
            return {"r": 0, "c": -1, "rows": []}
        return {"r": int(m.shape[0]), "c": int(m.shape[1]), "rows": [[int(j) for j in np.nonzero(r)[0]] for r in m]}

    def proto(entries):
        o = np.empty((len(entries), len(entries[0])), dtype=object)
        for i, row in enumerate(entries):
            for j, e in enumerate(row):
                o[i, j] = pt.RingOfCirculantsF2(e)
        return pt.array(o)

    def some(lift, r, c):
        dens = rng.random()

        def entry():
            x = rng.random()
            if x > dens:
                return []
            if x < dens / 4:
                return [rng.randrange(2 * lift) for _ in range(rng.randint(2, 3))]
            return [rng.randrange(lift)]

        return [[entry() for _ in range(c)] for _ in range(r)]

    def construct(kind, label, lift, a, b, second):
        ctx.begin(f"{label} {a} {b if second else ''}")

        def run():
            pa, pb = proto(a), proto(b)
            cls = mod.LiftedHgp if kind == "css" else mod.BiasTailoredLiftedProduct
            code = cls(lift, pa, pb) if second else cls(lift, pa)
            r = {"hx": mat(code.hx), "hz": mat(code.hz), "lx": mat(code.lx), "lz": mat(code.lz), "n": int(code.N), "k": int(code.K), "whole": mat(code.protograph.to_binary(lift))}
            for p in ("hx1", "hx2", "hz1", "hz2"):
                r[p] = mat(getattr(code, p)) if kind == "css" else none
            return r

        ok, r = ctx.attempt(run)
        if not ok:
            r0 = dict.fromkeys(("hx", "hz", "lx", "lz", "whole", "hx1", "hx2", "hz1", "hz2"), none) | {"n": -1, "k": -1}
        ctx.add("LiftedCode", kind=kind, lift=lift, a={"r": len(a), "c": len(a[0]), "rows": a}, b={"r": len(b), "c": len(b[0]), "rows": b}, second=second, status="ok" if ok else str(r), toric=0, rows=[0, 0], **(r if ok else r0))

    for i in range(60 if ctx.quick else 500):
        lift = rng.randint(1, 4 if ctx.quick else 6)
        big = 3 if lift < 4 else 2
        a, b = (some(lift, rng.randint(1, big), rng.randint(1, big)) for _ in range(2))
        if i % 5 == 4:  # of the same shape, the only kind that has been built before
            b = some(lift, len(a), len(a[0]))
        for kind in ("css", "bias"):
            construct(kind, f"{kind} {i} lift {lift}", lift, a, b, rng.random() < 0.7)

    # code files
    def stored(label, n, k, hx=None, hz=None, toric=0, rows=(0, 0)):
        ctx.begin(label)
        ok, ms = ctx.attempt(lambda: [none if f is None else mat(f()) for f in (hx, hz)])
        ctx.add("LiftedCode", kind="file", lift=1, a=none, b=none, second=False, status="ok" if ok else str(ms), hx=ms[0] if ok else none, hz=ms[1] if ok else none, n=n, k=k, toric=toric, rows=list(rows))

    def text(f):
        return lambda: np.array([[int(x) for x in line.split()] for line in f.read_text().splitlines() if line.strip()])

    ex = vlib.REPO / "examples"
    for f in sorted(ex.rglob("toric_*.txt")):
        m = re.search(r"\[\[(\d+),(\d+),(\d+)\]\]_h([xz])\.txt$", f.name)
        n, k, d = (int(m.group(i)) for i in (1, 2, 3))
        if ctx.quick and d > 12:
            continue
        stored(f"{f.relative_to(ex)}", n, k, **{f"h{m.group(4)}": text(f)}, toric=d)
    for f in sorted(ex.rglob("*_hx.txt")):
        m = re.search(r"\((\d+),(\d+)\)-\[\[(\d+),(\d+),\w+\]\]_hx\.txt$", f.name)
        if m and (int(m.group(3)) < 1000 or not ctx.quick):
            stored(f"{f.relative_to(ex)}", int(m.group(3)), int(m.group(4)), hx=text(f), hz=text(f.with_name(f.name.replace("_hx", "_hz"))), rows=(int(m.group(1)), int(m.group(2))))
    d = vlib.REPO / "src" / "mqt" / "qecc" / "analog_information_decoding" / "codes" / "lifted_product"
    for lift, k in ((16, 80), (21, 100), (30, 136)):
        if ctx.quick and lift > 16:
            continue
        stored(f"lp_l={lift}", 34 * lift, k, hx=lambda lift=lift: sp.load_npz(d / f"lp_l={lift}_hx.npz"), hz=lambda lift=lift: sp.load_npz(d / f"lp_l={lift}_hz.npz"))
