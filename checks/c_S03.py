"""S03: CSS codes: refusal of invalid matrices, logical operators, syndromes, stabilizers and cosets."""

import numpy as np

import qlib
import vlib

ASSUMPTIONS = ["at most 30 qubits"]
EMPTY = {"n_": 0, "k_": 0, "distance_": [], "hx_": [], "hz_": [], "lx_": [], "lz_": [], "strings": [], "selfdual": False, "queries": [],
         "stated": [], "witx": [], "witz": [], "tight": False, "enumerate": False, "layers": 0, "apart": 0, "rows": 0}


def orthogonal(rng, n):
    """Random orthogonal check matrices with dependent and zero rows now and then."""
    def null(rows):
        out = []
        for v in range(1, 1 << n):
            if all(bin(v & r).count("1") % 2 == 0 for r in rows):
                out.append(v)
        return out

    hx = [rng.randrange(1, 1 << n) for _ in range(rng.randint(0, n - 1))]
    space = null(hx)
    hz = [rng.choice(space) for _ in range(rng.randint(0, n - 1))] if space else []
    kind = rng.random()
    if kind < 0.2:
        # self-dual: self-orthogonal rows
        hx = []
        for _ in range(n):
            v = rng.randrange(1, 1 << n)
            if bin(v).count("1") % 2 == 0 and all(bin(v & r).count("1") % 2 == 0 for r in hx):
                hx.append(v)
        hz = list(hx)
        if len(hz) > 1 and rng.random() < 0.5:
            hz[0] ^= hz[1]
        if len(hz) > 1 and rng.random() < 0.3:
            hz.append(hz[0] ^ hz[-1])
    for h in (hx, hz):
        if len(h) > 1 and rng.random() < 0.3:
            h.append(h[0] ^ h[1])
        rng.shuffle(h)
    m = lambda h: [[v >> i & 1 for i in range(n)] for v in h]  # noqa: E731
    return m(hx), m(hz)


def generate(ctx):
    qlib.load()
    from mqt.qecc.codes import CSSCode

    rng = ctx.rng

    def one(label, hx, hz, n, dist=(1, None, None), dtype=np.int8):
        """hx, hz: 0/1 lists, or None."""
        ctx.begin(label, hx=hx, hz=hz)
        ax = None if hx is None else np.array(hx, dtype=dtype).reshape(len(hx), -1 if hx else n)
        az = None if hz is None else np.array(hz, dtype=dtype).reshape(len(hz), -1 if hz else n)
        ok, code = ctx.attempt(lambda: CSSCode(dist[0], ax, az, x_distance=dist[1], z_distance=dist[2]))
        case = dict(EMPTY, n=n, hx=qlib.supports(hx or []), hz=qlib.supports(hz or []), nx=0 if ax is None else int(ax.shape[1]),
                    nz=0 if az is None else int(az.shape[1]), distance=dist[0], dx=dist[0] if dist[1] is None else dist[1],
                    dz=dist[0] if dist[2] is None else dist[2])
        if ok:
            case.update(qlib.css_record(ctx, code))
            qs = []

            def ask(f, p, fn, *args):
                ok2, v = ctx.attempt(fn, *[np.array(a, dtype=np.int8) for a in args])
                v = vlib.vec(v) if ok2 and f == "syndrome" else v
                qs.append({"f": f, "p": p, "a": qlib.ones(args[0]), "b": qlib.ones(args[-1]), "val": v})

            def vectors(h, lg):
                out = [[rng.randrange(2) for _ in range(n)], [0] * n]
                for _ in range(4):
                    v = np.zeros(n, dtype=int)
                    for r in list(h):
                        if rng.random() < 0.5:
                            v = v ^ np.array(r)
                    out.append(v.tolist())
                    for r in list(lg):
                        if rng.random() < 0.4:
                            v = v ^ np.array(r)
                    out.append(v.tolist())
                return out
            for p, h, lg, syn, st, eq, log in (
                    ("X", hx or [], code.Lx, code.get_z_syndrome, code.check_if_x_stabilizer, code.stabilizer_eq_x_error, code.check_if_logical_x_error),
                    ("Z", hz or [], code.Lz, code.get_x_syndrome, code.check_if_z_stabilizer, code.stabilizer_eq_z_error, code.check_if_logical_z_error)):
                vs = vectors(h, lg)
                for v in vs:
                    e = [rng.randrange(2) for _ in range(n)]
                    ask("syndrome", p, syn, e)
                    ask("stabilizer", p, st, v)
                    ask("logical", p, log, v)
                    ask("equivalent", p, eq, e, [a ^ b for a, b in zip(e, v)])
                    ask("equivalent", p, eq, rng.choice(vs), v)
            case["queries"] = qs
        ctx.add("CssCode", **case, status="ok" if ok else code)

    for i in range(300 if ctx.quick else 900):
        n = rng.randint(1, 8 if ctx.quick else 9)
        hx, hz = orthogonal(rng, n)
        kind = rng.choice(["plain"] * 4 + ["onlyx", "onlyz", "none", "overlap", "columns", "distances", "int64"])
        if kind == "plain" and (hx or hz):
            one(f"code {i}", hx, hz, n)
        elif kind == "int64" and (hx or hz):
            one(f"code {i} (int64)", hx, hz, n, dtype=np.int64)
        elif kind == "onlyx" and hx:
            one(f"only X checks {i}", hx, None, n)
        elif kind == "onlyz" and hz:
            one(f"only Z checks {i}", None, hz, n)
        elif kind == "none" and i % 5 == 0:
            one(f"no checks {i}", None, None, n)
        elif kind == "overlap" and hx and hz:
            hz = [list(r) for r in hz]
            hz[rng.randrange(len(hz))] = [rng.randrange(2) for _ in range(n)]
            one(f"random checks {i}", hx, hz, n)
        elif kind == "columns" and hx and hz:
            one(f"columns {i}", hx, [r + [0] for r in hz], n)
        elif kind == "distances" and hx and hz:
            one(f"distances {i}", hx, hz, n, dist=(rng.randint(0, 3), rng.choice([None, 1, 2, 3, 4]), rng.choice([None, 1, 2, 3, 4])))
    for i in range(20 if ctx.quick else 60):  # longer codes: hypergraph products and rows of large weight
        a, b = rng.randint(2, 3), rng.randint(2, 3)
        h1 = np.array([[rng.randrange(2) for _ in range(a + 1)] for _ in range(a)])
        h2 = np.array([[rng.randrange(2) for _ in range(b + 1)] for _ in range(b)])
        hx = np.hstack([np.kron(h1, np.eye(b + 1, dtype=int)), np.kron(np.eye(a, dtype=int), h2.T)])
        hz = np.hstack([np.kron(np.eye(a + 1, dtype=int), h2), np.kron(h1.T, np.eye(b, dtype=int))])
        one(f"hypergraph product {i}", hx.tolist(), hz.tolist(), hx.shape[1])
