"""A04: error channels, sampled errors, soft information and statistics of the analog simulations."""

import collections

import numpy as np

import analoglib as al

ASSUMPTIONS = ["sampled frequencies within seven standard deviations", "error bars per logical qubit are judged for one logical qubit only"]


def generate(ctx):
    al.load(stub=False)
    from mqt.qecc.analog_information_decoding.simulators import memory_experiment_v2 as me
    from mqt.qecc.analog_information_decoding.simulators.analog_tannergraph_decoding import get_analog_pcm
    from mqt.qecc.analog_information_decoding.utils import data_utils as du
    from mqt.qecc.analog_information_decoding.utils import simulation_utils as su

    rng = ctx.rng
    inf = float("inf")
    su.set_seed(ctx.seed)
    f = 3 if ctx.quick else 10

    def mil(v):
        return [al.scaled(x, 10**6) for x in np.ravel(v)]

    def case(kind, label, fn, n=0, **kw):
        ctx.begin(label)
        ok, calls = ctx.attempt(fn)
        ctx.add("NoiseModel", kind=kind, n=n, calls=calls if ok else [], status="ok" if ok else str(calls), **kw)

    def channels():
        out = []
        for _ in range(60 * f):
            rate, n = rng.choice([0, 10000, 1, 37, 500, 3333, rng.randrange(10001)]), rng.randrange(1, 9)
            if rng.random() < 0.3:
                bias = [0, 0, 0]
                bias[rng.randrange(3)] = -1
                if rng.random() < 0.3:
                    bias = [b if b == -1 else 1 for b in bias]
            else:
                bias = [rng.randrange(0, 6) for _ in range(3)]
                bias[rng.randrange(3)] += 1
            b = [inf if v == -1 else float(v) for v in bias]
            x, y, z = su.error_channel_setup(rate / 10**4, np.array(b), n) if rng.random() < 0.7 else su.error_channel_setup(rate / 10**4, b, n)
            out.append({"rate": rate, "bias": bias, "n": n, "x": mil(x), "y": mil(y), "z": mil(z)})
        return out

    case("channel", "error channels", channels)

    def samples(label, px, py, pz, total):
        n = len(px)

        def run():
            got = collections.Counter()
            for _ in range(total):
                rx, rz = [np.array([rng.randrange(2) for _ in range(n)], dtype=np.int32) for _ in range(2)]
                x, z = su.generate_err(nr_qubits=n, channel_probs=tuple(np.array(p) / 10**4 for p in (px, py, pz)), residual_err=[rx.copy(), rz.copy()])
                got[al.mask(x), al.mask(z), al.mask(rx), al.mask(rz)] += 1
            return [{"x": k[0], "z": k[1], "rx": k[2], "rz": k[3], "times": v} for k, v in sorted(got.items())]

        case("sample", label, run, n=n, px=px, py=py, pz=pz, total=total)

    for t in range(4 * f):
        n = 3
        px, py, pz = [], [], []
        for q in range(n):
            k = rng.choice(["mixed", "mixed", "certain", "none", "two"])
            v = [0, 0, 0]
            if k == "mixed":
                v = [rng.randrange(0, 3300) for _ in range(3)]
            elif k == "certain":
                v[rng.randrange(3)] = 10000
            elif k == "two":
                v = [0, 0, 0]
                v[rng.randrange(3)] = 4000
                v[rng.randrange(3)] += 6000
            px.append(v[0]), py.append(v[1]), pz.append(v[2])
        samples(f"errors {t} of chances {px} {py} {pz}", px, py, pz, 30000)

    def syndromes(t):
        n = 3
        p = [rng.choice([0, 10000, rng.randrange(1, 10000), rng.randrange(1, 10000)]) for _ in range(n)]

        def run():
            got = collections.Counter(al.mask(su.generate_syndr_err(np.array(p) / 10**4)) for _ in range(30000))
            return [{"x": k, "z": 0, "rx": 0, "rz": 0, "times": v} for k, v in sorted(got.items())]

        case("sample", f"syndrome errors {t} of chances {p}", run, n=n, px=p, py=[0] * n, pz=[0] * n, total=30000)

    for t in range(4 * f):
        syndromes(t)

    def soft():
        out = []
        for _ in range(20 * f):
            n = rng.randrange(1, 8)
            y = [rng.choice([0, 1, -1, 100, -100, rng.randrange(-250, 250)]) for _ in range(n)]
            out.append({"f": "threshold", "in": y, "out": [int(v) for v in su.get_binary_from_analog(np.array(y) / 100)]})
            b = np.array([rng.randrange(2) for _ in range(n)], dtype=np.int32)
            out.append({"f": "signed", "in": b.tolist(), "out": [int(v) for v in su.get_signed_from_binary(b)]})
            out.append({"f": "noiseless", "in": b.tolist(), "out": [int(round(v * 10**4)) for v in su.get_noisy_analog_syndrome(b, 0.0)]})
            s = rng.choice([0, 30, 50, 80, 150, 300])
            out.append({"f": "llr", "in": y, "sigma": s, "out": [int(round(v * 100)) for v in su.get_analog_llr(np.array(y) / 100, s / 100)]})
            out.append({"f": "virtual", "in": y, "sigma": s, "out": [int(round(v * 10**6)) for v in su.get_virtual_check_init_vals(np.array(y) / 100, s / 100)]})
        rates = sorted({rng.randrange(1, 500000) for _ in range(12)} | {1, 499999})
        sig = [su.get_sigma_from_syndr_er(r / 10**6) for r in rates]
        for r, s in zip([0, *rates], [su.get_sigma_from_syndr_er(0.0), *sig]):
            out.append({"f": "sigma", "rate": r, "back": al.scaled(su.get_error_rate_from_sigma(s), 10**6)})
        out.append({"f": "monotone", "out": [al.scaled(s, 1e4) for s in sig[::2]]})
        for r in [0.02, 0.1, 0.25, 0.4] * f:
            s = su.get_sigma_from_syndr_er(r)
            b = np.array([rng.randrange(2) for _ in range(4000)], dtype=np.int32)
            y = su.get_noisy_analog_syndrome(b, s)
            wrong = np.array([int((v <= 0) != bool(w)) for v, w in zip(y, b)])
            out.append({"f": "flips", "count": int(wrong.sum()), "total": 4000, "rate": int(round(r * 10**4))})
            v = su.get_virtual_check_init_vals(y, s)
            # overall, for weak and for strong values
            for part in (np.ones(4000, dtype=bool), abs(y) < 0.5, abs(y) >= 0.5):
                q = v[part]
                out.append({"f": "calibrated", "count": int(wrong[part].sum()), "sum": int(round(q.sum() * 10**4)), "var": int(round((q * (1 - q)).sum() * 10**4))})
        return out

    case("soft", "soft information", soft)

    def matrices():
        out = []

        def mat(m, n):
            return np.array([[int(rng.random() < 0.45) for _ in range(n)] for _ in range(m)], dtype=np.int32)

        for _ in range(60 * f):
            n, m, k = rng.randrange(1, 10), rng.randrange(1, 7), rng.randrange(1, 5)
            h, mm, l = mat(m, n), mat(k, m), mat(k, n)
            v, w = mat(1, n)[0], mat(1, n)[0]
            if rng.random() < 0.6:
                w = (v + mat(1, m)[0] @ h) % 2
            out.append({"f": "logical", "l": al.rows(l), "v": al.mask(v), "out": bool(su.is_logical_err(l, v))})
            out.append({"f": "residual", "h": al.rows(h), "v": al.mask(v), "w": al.mask(w), "out": bool(su.check_logical_err_h(h, v, w))})
            out.append({"f": "analog", "n": n, "h": al.rows(h), "out": al.rows(get_analog_pcm(h))})
            out.append({"f": "single", "n": n, "h": al.rows(h), "m": al.rows(mm), "out": al.rows(su.build_single_stage_pcm(h, mm))})
            s = mat(m, 2 * rng.randrange(1, 4))
            out.append({"f": "move", "in": s.tolist(), "out": [[int(x) for x in r] for r in me.move_syndrome(s)]})
        return out

    case("matrix", "logical errors and matrices", matrices)

    def rates():
        out = []
        for _ in range(80 * f):
            runs = rng.choice([1, 2, 7, 50, rng.randrange(1, 2000)])
            won = rng.choice([0, runs, rng.randrange(runs + 1)])
            k = rng.choice([1, 1, 2, 3, 8])
            if won == 0:
                k = 1
            ler, eb, wer, _ = du.calculate_error_rates(won, runs, {"k": k})
            out.append({"runs": runs, "won": won, "k": k, "ler": al.scaled(ler, 1e4), "eb": al.scaled(eb, 1e4), "wer": al.scaled(wer, 1e4)})
        return out

    case("rates", "error rates", rates)

    def converged():
        out = []
        for _ in range(150 * f):
            runs = rng.randrange(10, 300)
            x, z = [rng.choice([runs, 0, rng.randrange(runs + 1), runs - rng.randrange(0, 6)]) for _ in range(2)]
            x, z = max(x, 0), max(z, 0)
            p = rng.choice([500, 1000, 2000, 4000])
            with np.errstate(all="ignore"):
                got = du.is_converged(x, z, runs, {"k": 1}, p / 10**4)
            out.append({"runs": runs, "x": x, "z": z, "p": p, "out": bool(got)})
        return out

    case("converged", "convergence", converged)
