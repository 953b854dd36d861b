"""U01: estimates of the union-find decoders explain the syndrome from inside the grown clusters."""

import itertools

import uflib as ul
import vlib

ASSUMPTIONS = ["Tanner graphs of at most 18 bits", "random growth is compared with every choice it may make"]
GROWTH = ["ALL_COMPONENTS", "INVALID_COMPONENTS", "SINGLE_SMALLEST", "SINGLE_RANDOM", "SINGLE_QUBIT_RANDOM"]


def generate(ctx):
    mod = vlib.load_pyqecc()
    rng = ctx.rng
    codes = dict(ul.CODES)
    for i in range(12 if ctx.quick else 60):
        n = rng.randint(5, 10)
        codes[f"random{i}"] = ul.random_pcm(rng, rng.randint(3, n - 1), n)

    def one(name, h, dec, growth, s, single):
        ctx.begin(f"{name} {dec} {growth}", pcm=h, syndrome=s)
        rec = {"decoder": dec, "growth": growth, "n": len(h[0]), "rows": ul.masks(h), "syn": vlib.bits(s), "single": single,
               "coarse": growth == "SINGLE_QUBIT_RANDOM" and (len(h[0]) > 7 or sum(s) > 2)}

        def run():
            d = getattr(mod, dec)()
            d.set_code(mod.Code(ul.boolmat(h)))
            d.set_growth(getattr(mod.GrowthVariant, growth))
            d.decode([bool(x) for x in s])
            return list(d.result.estim_vec_idxs), vlib.vec(d.result.estimate)

        ok, val = ctx.attempt(run)
        ctx.add("UnionFind", **rec, status="ok" if ok else val, est=val[0] if ok else [], vec=val[1] if ok else [])

    for name, h in codes.items():
        n, m = len(h[0]), len(h)
        singles = {tuple(ul.syn(h, [int(i == j) for i in range(n)])) for j in range(n)}
        if 2**n <= 600:
            reach = sorted({tuple(ul.syn(h, e)) for e in itertools.product((0, 1), repeat=n)})
        else:
            reach = sorted({tuple(ul.syn(h, [int(rng.random() < p) for _ in range(n)])) for _ in range(150) for p in (0.08, 0.2)})
        for dec in ("UFDecoder", "UFHeuristic"):
            for growth in GROWTH:
                if dec == "UFHeuristic" and growth == "SINGLE_QUBIT_RANDOM":
                    continue
                regular = dec == "UFHeuristic" and name in ul.REGULAR and growth in ("ALL_COMPONENTS", "INVALID_COMPONENTS")
                some = reach
                lim = 40 if ctx.quick else 300
                if growth == "SINGLE_RANDOM" and n > 12:
                    some = [s for s in reach if sum(s) <= 4]
                if len(some) > lim:
                    some = rng.sample(some, lim)
                for s in some:
                    one(name, h, dec, growth, list(s), regular and s in singles)
                if regular:
                    for s in sorted(singles - set(some)):
                        one(name, h, dec, growth, list(s), True)
                # syndromes no error has: the decoder still answers
                if dec == "UFDecoder":
                    for _ in range(2 if ctx.quick else 6):
                        s = [rng.randrange(2) for _ in range(m)]
                        if tuple(s) not in reach:
                            one(name, h, dec, growth, s, False)
