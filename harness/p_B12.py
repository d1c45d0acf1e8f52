"""Wigner d tables in logspace: angles and table order from WignerAngles.tla and
WignerIndex.tla, every column judged by WignerTrace.tla."""
import math
from concurrent.futures import ThreadPoolExecutor

import torch

from wigner_common import CPU, beta_of, column, tri, values

F64, F32 = torch.float64, torch.float32


def judge(ck, recs, label, size=400):
    """heavy columns first, spread over parallel model-checker runs"""
    ck.count("columns", len(recs))
    recs = sorted(recs, key=lambda r: -r["l"])
    n = max(1, min(8, len(recs) // 50))
    parts = [recs[i::n] for i in range(n)]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda k: ck.tlc("WignerTrace", data=dict(Samples=parts[k]), invariants=["Judged"], verdict=True, timeout=1500, label=f"{label} {k}"), range(n)))


def index_cases(ck):
    return ck.tlc("WignerIndex", {"MaxL": 24 if ck.quick else 60, "Far": "{100, 101, 255, 256, 500, 899, 1000, 1200, 1499, 1500, 1600}"},
                  invariants=["Counted", "EmitIt"], label="table order").cases


def angles(ck, n, rng):
    a = ck.tlc("WignerAngles", {"MaxU": 12 if ck.quick else 24}, invariants=["OnCircle", "EmitIt"], label="angles").cases
    a = sorted({tuple(x) for x in a})
    special = [t for t in a if t[1] <= 1 or t[0] == 0]
    rest = [t for t in a if t not in special]
    rest.sort(key=lambda t: -t[0] / t[2])
    pick = [rest[0], rest[-1], min(rest, key=lambda t: (abs(t[0] / t[2]), t))] + [rest[i] for i in rng.permutation(len(rest))[:n]]
    return special, pick


def run(ck):
    from ebsdtorch.harmonics import wigner_d_logspace as W

    rng = ck.numpy_rng(0)
    # order of the table
    cases = index_cases(ck)
    for dt in (torch.int64, torch.int32):
        with ck.guard("index", {"dtype": str(dt)}, 60):
            co = torch.tensor([c[:3] for c in cases], dtype=dt)
            ix = torch.tensor([c[3] for c in cases], dtype=dt)
            small = co[:, 0] <= 1000
            g = W.index_from_coords(co)
            bad = (g != ix)
            ck.expect(not bad.any(), "index of coordinates", lambda: {"coords": co[bad][:3].tolist(), "got": g[bad][:3].tolist(), "want": ix[bad][:3].tolist()})
            for sel in (small, ~small, torch.ones_like(small)) if dt == torch.int64 else (co[:, 0] <= 500,):
                r = W.coords_from_index(ix[sel])
                bad = (r.long() != co[sel].long()).any(-1)
                ck.expect(not bad.any(), "coordinates of an index", lambda: {"index": ix[sel][bad][:3].tolist(), "got": r[bad][:3].tolist(), "want": co[sel][bad][:3].tolist()})
            k = len(co) // 4 * 4
            ck.expect(torch.equal(W.index_from_coords(co[:k].reshape(2, k // 2, 3)), ix[:k].reshape(2, k // 2)), "index of batched coordinates", {})
            ck.trace()
    special, pick = angles(ck, 4 if ck.quick else 40, rng)
    out = []

    def table(t, L, dt, fold=None):
        b = beta_of(t)
        if t[0] == 0:
            T = W.wigner_d_eq_half_pi(L, dt, CPU)
        else:
            T = (W.wigner_d_lt_half_pi if t[0] > 0 else W.wigner_d_gt_half_pi)(b, L, dt, CPU)
        ck.expect(tuple(T.shape) == (tri(L + 1),) and T.dtype == dt, "size and precision of the table", {"L": L, "shape": list(T.shape), "dtype": str(T.dtype)})
        return T if tuple(T.shape) == (tri(L + 1),) else None

    def both(t, L, dt):
        s = (-t[0], t[1], t[2])
        return table(t, L, dt), table(s, L, dt)

    for t in special + pick:
        for dt, L, tol in ((F64, 9, 30), (F32, 6, 4000)):
            ident = {"angle": list(t), "L": L, "dtype": str(dt)}
            with ck.guard("table", ident, 60):
                A, B = both(t, L, dt)
                if A is None or B is None:
                    continue
                out += [column(A, B, l, n, t, tol, ident) for l in range(L + 1) for n in range(l + 1)]
                ck.trace()
    for L in (0, 1, 2):
        for t in (special[0], special[1], special[2], pick[0], pick[1]):
            ident = {"angle": list(t), "L": L}
            with ck.guard("small table", ident, 60):
                A, B = both(t, L, F64)
                if A is not None and B is not None:
                    out += [column(A, B, l, n, t, 30, ident) for l in range(L + 1) for n in range(l + 1)]
                ck.trace()
    # moderate bandwidths, selected columns
    sizes = [(F64, 64, 60), (F32, 48, 20000)] + ([(F64, 150, 100)] if ck.quick else [(F64, 150, 100), (F64, 350, 200), (F32, 100, 40000)])
    for dt, L, tol in sizes:
        for t in [(0, 1, 1)] + pick[:3 if ck.quick or L > 200 else 12]:
            ident = {"angle": list(t), "L": L, "dtype": str(dt)}
            with ck.guard("table", ident, 200):
                A, B = both(t, L, dt)
                if A is None or B is None:
                    continue
                mid = int(L * abs(t[0]) / t[2])
                ns = {0, 1, L // 3, L // 2, max(mid - 1, 0), mid, L - 1, L}
                out += [column(A, B, L, n, t, tol, ident) for n in sorted(ns)]
                for l in sorted({L - 1, L - 2, int(rng.integers(3, L)), int(rng.integers(3, L))}):
                    out += [column(A, B, l, n, t, tol, ident) for n in sorted({int(x) for x in rng.integers(0, l + 1, 2)} | {l})]
                ck.trace()
    # reading the table for 90 degrees for orders of either sign
    L = 8
    T = W.wigner_d_eq_half_pi(L, F64, CPU)
    H = (0, 1, 1)
    for l in range(L + 1):
        with ck.guard("reader", {"l": l}, 60):
            m, n = torch.meshgrid(torch.arange(-l, l + 1), torch.arange(-l, l + 1), indexing="ij")
            co = torch.stack([torch.full_like(m, l), m, n], -1)
            for sw in (False, True):
                v = W.read_lmn_wigner_d_half_pi_table(T, co, sw)
                u = W.read_mn_wigner_d_half_pi_table(T, m, n, l, sw)
                ck.expect(tuple(v.shape) == tuple(m.shape) and torch.equal(u, v), "both readers agree", {"l": l, "swap": sw})
                for k in range(-l, l + 1):
                    # with orders swapped in meaning the matrix is transposed
                    out.append(values((v[k + l] if sw else v[:, k + l]), l, k, H, 30, {"l": l, "n": k, "swap": sw}))
            flat = W.read_lmn_wigner_d_half_pi_table(T, co.reshape(-1, 3))
            ck.expect(torch.equal(flat.reshape(m.shape), W.read_lmn_wigner_d_half_pi_table(T, co)), "reading batched coordinates", {"l": l})
            ck.trace()
    ck.sample({"angle": list(pick[0])})
    judge(ck, out, "columns")
