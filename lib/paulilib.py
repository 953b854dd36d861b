"""Random Pauli strings and stabilizer groups for the drivers."""

MUL = {}
for a in "IXYZ":
    for b in "IXYZ":
        if a == "I":
            MUL[a, b] = (0, b)
        elif b == "I":
            MUL[a, b] = (0, a)
        elif a == b:
            MUL[a, b] = (0, "I")
        else:
            third = next(x for x in "XYZ" if x not in (a, b))
            MUL[a, b] = (1 if (a + b) in ("XY", "YZ", "ZX") else 3, third)


def mul(p, q):
    """Product of signed Paulis (sign, letters) that commute."""
    ph, out = 2 * (p[0] + q[0]), []
    for a, b in zip(p[1], q[1]):
        e, r = MUL[a, b]
        ph += e
        out.append(r)
    return (ph % 4) // 2, "".join(out)


def anti(p, q):
    return sum(a != "I" and b != "I" and a != b for a, b in zip(p[1], q[1])) % 2


def rand(rng, n):
    return rng.randrange(2), "".join(rng.choice("IXYZ") for _ in range(n))


# conjugation by Clifford gates on letters; signs from the usual tables
H1 = {"I": (0, "I"), "X": (0, "Z"), "Y": (1, "Y"), "Z": (0, "X")}
S1 = {"I": (0, "I"), "X": (0, "Y"), "Y": (1, "X"), "Z": (0, "Z")}


def random_group(rng, n, r, signs=True):
    """r independent commuting signed Paulis on n qubits (images of Z_1..Z_r under a random Clifford) and logical pairs."""
    xs = [(0, "I" * i + "X" + "I" * (n - i - 1)) for i in range(n)]
    zs = [(0, "I" * i + "Z" + "I" * (n - i - 1)) for i in range(n)]

    def one(p, q, t):
        s, a = t[p[1][q]]
        return (p[0] + s) % 2, p[1][:q] + a + p[1][q + 1 :]

    def cx(p, a, b):
        xa, za = p[1][a] in "XY", p[1][a] in "ZY"
        xb, zb = p[1][b] in "XY", p[1][b] in "ZY"
        s = (p[0] + (xa and zb and (xb == za))) % 2
        xb, za = xb ^ xa, za ^ zb
        let = {(0, 0): "I", (1, 0): "X", (0, 1): "Z", (1, 1): "Y"}
        w = list(p[1])
        w[a], w[b] = let[int(xa), int(za)], let[int(xb), int(zb)]
        return s, "".join(w)

    for _ in range(4 * n):
        g = rng.randrange(3 if n > 1 else 2)
        if g == 0:
            q = rng.randrange(n)
            xs, zs = [one(p, q, H1) for p in xs], [one(p, q, H1) for p in zs]
        elif g == 1:
            q = rng.randrange(n)
            xs, zs = [one(p, q, S1) for p in xs], [one(p, q, S1) for p in zs]
        else:
            a, b = rng.sample(range(n), 2)
            xs, zs = [cx(p, a, b) for p in xs], [cx(p, a, b) for p in zs]
    if signs:
        zs = [((s + rng.randrange(2)) % 2, p) for s, p in zs]
    return zs[:r], xs[r:], zs[r:]


def mix(rng, gens, steps=6):
    """Other generators of the same signed group."""
    g = list(gens)
    for _ in range(steps):
        if len(g) > 1:
            i, j = rng.sample(range(len(g)), 2)
            g[i] = mul(g[i], g[j])
    rng.shuffle(g)
    return g


def text(p, rng=None):
    """As a string; a plus sign is optional."""
    return ("-" if p[0] else ("+" if rng and rng.random() < 0.3 else "")) + p[1]


def rec(p):
    return {"p": list(p[1]), "sign": p[0]}


def parse(s):
    sign = 1 if s[:1] == "-" else 0
    return {"p": list(s.lstrip("+-")), "sign": sign}


def binary(p):
    return [int(a in "XY") for a in p[1]] + [int(a in "ZY") for a in p[1]] + [p[0]]
