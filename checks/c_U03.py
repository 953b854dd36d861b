"""U03: syndromes, stabilizer membership, GF(2) solving and the union-find tree of the C++ library."""

import json
import subprocess

import uflib as ul
import vlib
from c_U02 import TWO

ASSUMPTIONS = ["matrices of at most 12 x 14, clusters of at most 16 nodes"]


def rnd(rng, m, n, p):
    return [[int(rng.random() < p) for _ in range(n)] for _ in range(m)]


def generate(ctx):
    rng = ctx.rng
    exe = vlib.build_harness(vlib.VERIF / "lib" / "gf2_harness.cpp")

    def flat(m):
        return " ".join(str(x) for r in m for x in r)

    reqs = []
    for _ in range(1800 if ctx.quick else 6000):
        r, c = rng.randint(1, 12), rng.randint(1, 14)
        m = rnd(rng, r, c, rng.choice([0.15, 0.3, 0.5, 0.8]))
        if rng.random() < 0.4 and r > 2:  # dependent rows
            for _ in range(rng.randint(1, 3)):
                a, b = rng.sample(range(r), 2)
                m[rng.randrange(r)] = [x ^ y for x, y in zip(m[a], m[b])]
        v = rnd(rng, 1, c, 0.4)[0]
        if rng.random() < 0.5:
            v = [0] * c
            for row in m:
                if rng.random() < 0.5:
                    v = [x ^ y for x, y in zip(v, row)]
        y = rnd(rng, 1, r, 0.5)[0]
        if rng.random() < 0.7:
            y = ul.syn(m, rnd(rng, 1, c, 0.5)[0])
        reqs.append(("plu", {"m": m, "v": v, "y": y}, f"plu {r} {c} {flat(m)} {flat([v])} {flat([y])}"))
    for _ in range(500 if ctx.quick else 1500):
        n = rng.randint(2, 9)
        check = [rng.randrange(2) for _ in range(n)]
        ops = [rng.choices(range(n), k=2) for _ in range(rng.randint(1, 12))]
        if rng.random() < 0.4:  # clusters of alike sizes: deep trees
            n = rng.randint(8, 16)
            check = [rng.randrange(2) for _ in range(n)]
            groups = [[i] for i in range(n)]
            ops = []
            while len(groups) > 1:
                groups.sort(key=lambda g: (len(g), rng.random()))
                a, b = groups.pop(0), groups.pop(0)
                ops.append([rng.choice(a), rng.choice(b)])
                groups.append(a + b)
        reqs.append(("tree", {"check": check}, f"tree {n} {len(ops)} {flat([check])} {flat(ops)}"))
    ctx.begin("algebra")
    p = subprocess.run([str(exe)], input="\n".join(t for *_, t in reqs) + "\n", capture_output=True, text=True, timeout=300, check=False)
    lines = p.stdout.splitlines()
    for i, (kind, rec, _) in enumerate(reqs):
        ok = i < len(lines)
        val = json.loads(lines[i]) if ok else {}
        if kind == "plu":
            empty = {"rank": 0, "x": [], "inrow": False, "trans": [], "prod": [], "resid": [], "swapped": []}
            ctx.add("UfAlgebra", f"algebra {i}", kind=kind, **rec, **{**empty, **val}, status="ok" if ok else p.stderr[-200:])
        else:
            ctx.add("UfAlgebra", f"tree {i}", kind=kind, **rec, trace=val, status="ok" if ok else p.stderr[-200:])
        if not ok:
            break

    mod = vlib.load_pyqecc()
    for i in range(250 if ctx.quick else 600):
        if rng.random() < 0.5:
            hx, hz = rng.choice([*TWO.values(), *[(b, a) for a, b in TWO.values()]])
        else:
            n = rng.randint(2, 10)
            hx, hz = rnd(rng, rng.randint(1, 7), n, 0.4), rnd(rng, rng.randint(1, 7), n, 0.4)
        n = len(hz[0])
        two = rng.random() < 0.8
        how = rng.choice(["matrices", "files", "set"])
        ctx.begin(f"code {i} from {how}", hx=hx, hz=hz)
        paths = []
        for name, h in (("hx", hx), ("hz", hz)):
            f = ctx.scratch / f"{name}{i}.txt"
            f.write_text("\n".join(" ".join(map(str, r)) for r in h) + "\n")
            paths.append(str(f))
        if how == "matrices":
            code = mod.Code(ul.boolmat(hx), ul.boolmat(hz)) if two else mod.Code(ul.boolmat(hz))
        elif how == "files":
            code = mod.Code(*paths) if two else mod.Code(paths[1])
        else:
            code = mod.Code()
            code.setHz(ul.boolmat(hz))
            code.n = n
            if two:
                code.setHx(ul.boolmat(hx))
        ops = []

        def op(f, fn, *a):
            ok, val = ctx.attempt(fn, *[[bool(x) for x in v] for v in a])
            if ok and isinstance(val, list):
                val = vlib.mat(val) if val and isinstance(val[0], list) else vlib.vec(val)
            ops.append({"f": f, "a": a[0] if a else [], "b": a[1] if len(a) > 1 else [], "status": "ok" if ok else val, "val": val})

        def inside(h):
            v = [0] * n
            for row in h:
                if rng.random() < 0.5:
                    v = [x ^ y for x, y in zip(v, row)]
            if rng.random() < 0.5:
                v[rng.randrange(n)] ^= 1
            return v

        op("n", lambda: code.n)
        op("hz", code.getHz)
        if two:
            op("hx", code.getHx)
        for _ in range(4):
            a, b = inside(hx), inside(hz)
            op("x_syndrome", code.get_x_syndrome, a)
            op("is_x_stabilizer", code.is_x_stabilizer, a)
            if two:
                op("x_syndrome", code.get_x_syndrome, a + b)
                op("syndrome", code.get_syndrome, a, b)
                op("is_stabilizer", code.is_stabilizer, a, b)
                op("is_stabilizer1", code.is_stabilizer, a)
                op("is_stabilizer1", code.is_stabilizer, a + b)
        if two:
            short = rnd(rng, 1, rng.choice([x for x in range(1, n + 3) if x != n]), 1)[0]
            op("syndrome", code.get_syndrome, short, [1] * n)
            op("syndrome", code.get_syndrome, [1] * n, short)
            op("is_x_stabilizer", code.is_x_stabilizer, short)
        ctx.add("UfAlgebra", kind="code", hx=hx if two else [], hz=hz, ops=ops, how=how)
