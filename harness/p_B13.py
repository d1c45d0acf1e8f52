"""Wigner d tables by extended exponents: WignerAngles.tla, WignerIndex.tla and
WignerTrace.tla, and the extended numbers themselves."""
import math

import torch

from p_B12 import angles, index_cases, judge
from wigner_common import CPU, beta_of, column, sgn, tri, values

F64 = torch.float64


def run(ck):
    from ebsdtorch.harmonics import wigner_d_xnum as X

    rng = ck.numpy_rng(0)
    cases = index_cases(ck)
    with ck.guard("index", {}, 60):
        co = torch.tensor([c[:3] for c in cases])
        ck.expect(X.index_from_coords(co).tolist() == [c[3] for c in cases], "index of coordinates", {})
        ck.trace()
    special, pick = angles(ck, 4 if ck.quick else 40, rng)
    out = []

    def table(t, L):
        T = X.wigner_d_xnum(torch.tensor(beta_of(t), dtype=F64), L, CPU)
        ok = ck.expect(tuple(T.shape) == (tri(L + 1),) and T.dtype == F64, "size and precision of the table", {"L": L, "shape": list(T.shape)})
        return T if ok else None

    def both(t, L):
        return table(t, L), table((-t[0], t[1], t[2]), L)

    jobs = [(t, L) for t in special + pick for L in (8,)] + [(t, L) for L in (1, 2, 3) for t in special + pick[:2]]
    for t, L in jobs:
        ident = {"angle": list(t), "L": L}
        with ck.guard("table", ident, 60):
            A, B = both(t, L)
            if A is not None and B is not None:
                out += [column(A, B, l, n, t, 30, ident) for l in range(L + 1) for n in range(l + 1)]
            ck.trace()
    # high bandwidths: values pass through many exponents
    for L in (64, 330) if ck.quick else (64, 330, 600):
        for t in [(0, 1, 1)] + pick[:4 if L < 600 else 2] + ([(-15, 112, 113), (-7, 24, 25)] if L == 330 else []):
            ident = {"angle": list(t), "L": L}
            with ck.guard("table", ident, 300):
                A, B = both(t, L)
                if A is None or B is None:
                    continue
                mid = int(L * abs(t[0]) / t[2])
                ns = {0, 1, L // 3, L // 2, max(mid - 1, 0), mid, L - 1, L} | ({int(x) for x in rng.integers(0, L + 1, 6)} if t[0] < 0 or not ck.quick else set())
                out += [column(A, B, L, n, t, 200, ident) for n in sorted(ns)]
                for l in sorted({L - 1, int(rng.integers(3, L))}):
                    out += [column(A, B, l, n, t, 200, ident) for n in sorted({int(x) for x in rng.integers(0, l + 1, 2)})]
                ck.trace()
    # equatorial powers of one half that need a second exponent
    L, t = 512, (0, 1, 1)
    with ck.guard("table", {"angle": list(t), "L": L}, 300):
        A = table(t, L)
        if A is not None:
            out += [column(A, A, L, n, t, 200, {"angle": list(t), "L": L}) for n in (0, 170, L - 3, L)]
            del A
            ck.trace()
    # degrees above 1000: every entry is finite and the last column is a power
    L = 1026
    t = pick[2]
    with ck.guard("very high degree", {"angle": list(t), "L": L}, 300):
        A = table(t, L)
        if A is not None:
            ck.expect(bool((A.abs() <= 1 + 1e-6).all()), "entries of very high degrees are finite", {"angle": list(t), "L": L, "bad": int((~(A.abs() <= 1 + 1e-6)).sum())})
            if not ck.quick:
                B = table((-t[0], t[1], t[2]), L)
                out += [column(A, B, L, n, t, 400, {"angle": list(t), "L": L}) for n in (0, 300, int(L * abs(t[0]) / t[2]))]
                del B
            del A
            ck.trace()
    # reading any pair of non-negative orders
    L = 7
    for t in pick[:3] + [(0, 1, 1)]:
        ident = {"angle": list(t), "reader": True}
        with ck.guard("reader", ident, 60):
            A, B = both(t, L)
            for l in range(L + 1):
                m, n = torch.meshgrid(torch.arange(l + 1), torch.arange(l + 1), indexing="ij")
                co = torch.stack([torch.full_like(m, l), m, n], -1)
                for sw in (False, True):
                    r = [X.retrieve_wigner_d(T, co, sw) for T in (A, B)]
                    r = [x.T if sw else x for x in r]
                    for k in range(l + 1):
                        full = [float(r[1][j, k]) * (-1) ** (l - k) for j in range(l, 0, -1)] + [float(x) for x in r[0][:, k]]
                        out.append(values(full, l, k, t, 30, ident))
            ck.trace()
    # extended numbers: powers of two of either sign
    n, num = 600 if ck.quick else 6000, []
    e = rng.integers(-2, 3, (2, n))
    p = rng.integers(-225, 226, (2, n))
    p[1, : n // 2] = (p[0] + 460 * (e[0] - e[1]) + rng.integers(-24, 25, n))[: n // 2]     # of similar size
    p[0, -8:] = [229, 230, 231, -229, -230, -231, 0, 225]     # on the edge of the normal range
    keep = abs(p[1]) < 440
    p, e = p[:, keep], e[:, keep]
    sg = rng.choice([-1, 1], p.shape)
    with ck.guard("extended numbers", {}, 60):
        a, b = [(torch.tensor(sg[k] * 2.0 ** p[k]), torch.tensor(e[k], dtype=torch.int32)) for k in range(2)]
        na, nb = X.xnum_norm(a), X.xnum_norm(b)
        z, iz = X.xnum_sum(na, nb, 1.0, 1.0)
        for j in range(p.shape[1]):
            def parts(x):
                m, k = math.frexp(abs(float(x)))
                return k - 1, int(m * 2e8 + 0.5), sgn(float(x))
            rec = dict(kind="xnum", id={"a": [int(sg[0, j]), int(p[0, j]), int(e[0, j])], "b": [int(sg[1, j]), int(p[1, j]), int(e[1, j])]},
                       pa=int(p[0, j]), ea=int(e[0, j]), sa=int(sg[0, j]), pb=int(p[1, j]), eb=int(e[1, j]), sb=int(sg[1, j]))
            for w, m in (("na", na), ("nb", nb), ("z", (z, iz))):
                k, f, s = parts(m[0][j]) if abs(float(m[0][j])) > 0 else (0, 0, 0)
                rec[w] = [k, f, s, int(m[1][j])]
            num.append(rec)
        ck.trace()
    ck.sample({"angle": list(pick[0])})
    ck.count("extended numbers", len(num))
    ck.tlc("WignerTrace", data=dict(Samples=num), invariants=["Judged"], verdict=True, label="extended numbers")
    judge(ck, out, "columns")
