"""U02: a union-find decoder has no memory; two-sided syndromes are decoded half by half."""

import uflib as ul
import vlib

ASSUMPTIONS = ["growth variants without random choices, so that a fresh decoder gives one answer"]
GROWTH = ["ALL_COMPONENTS", "INVALID_COMPONENTS", "SINGLE_SMALLEST"]
TWO = {"surf3": (ul.SURF3X, ul.SURF3), "steane": (ul.HAMMING, ul.HAMMING), "toric3": (ul.toric_vertex(3), ul.toric(3)),
       "toric23": (ul.toric_vertex(2, 3), ul.toric(2, 3)), "shor": ([[1, 1, 1, 1, 1, 1, 0, 0, 0], [0, 0, 0, 1, 1, 1, 1, 1, 1]],
       [[1, 1, 0, 0, 0, 0, 0, 0, 0], [0, 1, 1, 0, 0, 0, 0, 0, 0], [0, 0, 0, 1, 1, 0, 0, 0, 0], [0, 0, 0, 0, 1, 1, 0, 0, 0],
        [0, 0, 0, 0, 0, 0, 1, 1, 0], [0, 0, 0, 0, 0, 0, 0, 1, 1]])}


def generate(ctx):
    mod = vlib.load_pyqecc()
    rng = ctx.rng
    # codes of a history: (hx or None, hz)
    pool = [(None, h) for n, h in ul.CODES.items() if n != "rep9"] + list(TWO.values()) + [(hz, hx) for hx, hz in TWO.values()]

    def make(code):
        hx, hz = code
        return mod.Code(ul.boolmat(hz)) if hx is None else mod.Code(ul.boolmat(hx), ul.boolmat(hz))

    def answer(dec, h, growth, s):
        d = getattr(mod, dec)()
        d.set_code(mod.Code(ul.boolmat(h)))
        d.set_growth(getattr(mod.GrowthVariant, growth))
        d.decode([bool(x) for x in s])
        return [int(x) for x in d.result.estim_vec_idxs]

    for i in range(2500 if ctx.quick else 8000):
        dec = rng.choice(["UFDecoder", "UFHeuristic"])
        codes = rng.sample(pool, rng.randint(1, 3))
        d = getattr(mod, dec)()
        trace, fresh = [], []
        cur, growth = None, "ALL_COMPONENTS"
        ctx.begin(f"history {i} of {dec}", codes=codes)
        for step in range(rng.randint(3, 12)):
            op = rng.choices(["set_code", "set_growth", "decode", "reset"], [1, 2, 5, 1])[0]
            if cur is None or step == 0:
                op = "set_code"
            if op == "reset" and dec == "UFDecoder":
                op = "decode"  # reset of UFDecoder is not exported
            ev = {"op": op, "code": 0, "growth": "", "syn": [], "est": [], "vec": [], "status": "ok"}
            if op == "set_code":
                ev["code"] = rng.randint(1, len(codes))
                ci = ev["code"]
                cur = codes[ci - 1]
                d.set_code(make(cur))
            elif op == "set_growth":
                growth = ev["growth"] = rng.choice(GROWTH)
                d.set_growth(getattr(mod.GrowthVariant, growth))
            elif op == "reset":
                ok, err = ctx.attempt(d.reset)
                growth = "ALL_COMPONENTS"
                ev.update(growth=d.growth.name, est=[int(x) for x in d.result.estim_vec_idxs], vec=vlib.vec(d.result.estimate),
                          status="ok" if ok else err)
            else:
                hx, hz = cur
                n = len(hz[0])
                e = [[int(rng.random() < 0.2) for _ in range(n)] for _ in range(2)]
                if rng.random() < 0.15:
                    e[0] = [0] * n
                if rng.random() < 0.15:
                    e[1] = [0] * n
                s = ul.syn(hz, e[0])
                ok, a = ctx.attempt(answer, dec, hz, growth, s)
                fresh.append({"code": ci, "growth": growth, "half": "x", "syn": s, "est": a if ok else []})
                if hx is not None and rng.random() < 0.7:
                    z = ul.syn(hx, e[1])
                    ok, a = ctx.attempt(answer, dec, hx, growth, z)
                    fresh.append({"code": ci, "growth": growth, "half": "z", "syn": z, "est": a if ok else []})
                    s = s + z
                ok, err = ctx.attempt(d.decode, [bool(x) for x in s])
                ev.update(syn=s, status="ok" if ok else err)
                if ok:
                    ev.update(est=[int(x) for x in d.result.estim_vec_idxs], vec=vlib.vec(d.result.estimate))
            trace.append(ev)
        ctx.add("UfHistory", trace=trace, fresh=fresh, decoder=dec,
                sizes=[{"n": len(hz[0]), "mz": len(hz), "mx": len(hx or [])} for hx, hz in codes])
