"""Access to the Python part of mqt-qecc from /repo's current tree."""

import sys

import numpy as np

import vlib

_done = False


def load():
    """Makes `import mqt.qecc` use /repo/src with the extension built from the current tree."""
    global _done
    if not _done:
        # the redirection of an editable installation would prefer the folder it was installed from
        sys.meta_path[:] = [f for f in sys.meta_path if type(f).__name__ != "ScikitBuildRedirectingFinder"]
        sys.path.insert(0, str(vlib.REPO / "src"))
        for m in [m for m in sys.modules if m == "mqt" or m.startswith("mqt.qecc")]:
            del sys.modules[m]
        import mqt

        mqt.__path__ = [str(vlib.REPO / "src" / "mqt"), *[p for p in mqt.__path__ if not p.startswith(str(vlib.REPO))]]
        vlib.load_pyqecc()
        _done = True


def ones(row):
    return [int(i) for i in np.nonzero(np.asarray(row).astype(int) % 2)[0]]


def supports(m):
    return [ones(r) for r in np.asarray(m)]


def pack(rows):
    """0/1 matrix -> list of python integers, for search in the drivers only."""
    return [sum(1 << int(i) for i in np.nonzero(np.asarray(r).astype(int) % 2)[0]) for r in rows]


def lightest(stabs, logical, limit=20):
    """A lightest element of logical + span(stabs), as a list of positions (search helper; TLC judges the result)."""
    rows = pack(stabs)
    basis = []
    for r in rows:
        for b in basis:
            r = min(r, r ^ b)
        if r:
            basis.append(r)
    if len(basis) > limit:
        return []
    v = pack([logical])[0]
    best, bw = v, v.bit_count()
    for i in range(1, 1 << len(basis)):
        v ^= basis[(i & -i).bit_length() - 1]
        w = v.bit_count()
        if w < bw:
            best, bw = v, w
    return [i for i in range(best.bit_length()) if best >> i & 1]


def codeword(rows, logicals, iters, rng):
    """A light word of the span of rows that anticommutes with a logical (information sets; TLC judges the result)."""
    n = len(rows[0])
    ls = pack(logicals)
    best = None
    base = pack(rows)
    for _ in range(iters):
        perm = list(range(n))
        rng.shuffle(perm)
        m, r = list(base), 0
        for col in perm:
            p = next((i for i in range(r, len(m)) if m[i] >> col & 1), None)
            if p is None:
                continue
            m[r], m[p] = m[p], m[r]
            for i in range(len(m)):
                if i != r and m[i] >> col & 1:
                    m[i] ^= m[r]
            r += 1
            if r == len(m):
                break
        m = m[:r]
        for v in m + [a ^ b for i, a in enumerate(m) for b in m[:i]]:
            if v and (best is None or v.bit_count() < best.bit_count()) and any((v & x).bit_count() & 1 for x in ls):
                best = v
    return [i for i in range(n) if best and best >> i & 1]


def css_record(ctx, code, hx=None, hz=None):
    """What a CSSCode shows, for CssCode.tla."""
    sup = lambda m: [sorted(ones(r)) for r in m]  # noqa: E731
    return {"n_": int(code.n), "k_": int(code.k), "distance_": [int(code.distance), int(code.x_distance), int(code.z_distance)],
            "hx_": sup(code.Hx), "hz_": sup(code.Hz), "lx_": sup(code.Lx), "lz_": sup(code.Lz),
            "strings": [[list(s) for s in f()] for f in (code.x_checks_as_pauli_strings, code.z_checks_as_pauli_strings,
                                                         code.x_logicals_as_pauli_strings, code.z_logicals_as_pauli_strings)],
            "selfdual": bool(code.is_self_dual())}
