"""Incident directions sampled for a cell, judged by KVectorTrace.tla."""
from concurrent.futures import ThreadPoolExecutor

import torch

import crystal_common as X

HEX = (10, 12, 14, 15, 16, 17, 18, 19)


def points(k, ij):
    k = k.double()
    az = torch.atan2(k[:, 1].abs(), k[:, 0].abs())
    out = []
    for p, v, a in zip(ij.tolist(), k.tolist(), az.tolist()):
        out.append([int(x) for x in p] + X.fixn(v, 1e6) + X.fixn([a], 1e4))
    return out


def run(ck):
    from ebsdtorch.crystallography.kvectors import kvectors_grid
    from ebsdtorch.crystallography.unit_cell import Cell

    rng = ck.numpy_rng(0)
    recs = []

    def cell_of(n):
        while True:
            e, c = X.edges(X.system_of(n), rng)
            if 1000 - 10 * sum(x * x for x in c) + 2 * c[0] * c[1] * c[2] > 300:
                break
        return X.make(Cell, n, 1, e, c, [(13, 0.1, 0.2, 0.3, 1.0, 0.005)], "angstrom", True)

    def add(kind, n, cell, N, scheme=None):
        ident = {"space_group": n, "half_width": N, "scheme": scheme or 0}
        with ck.guard("directions", ident, 60):
            k, ij = kvectors_grid(cell, N) if scheme is None else kvectors_grid(cell, N, scheme) if rng.integers(0, 2) else kvectors_grid(cell, N, stnum=scheme)
            ck.expect(tuple(ij.shape) == (len(k), 3) and tuple(k.shape) == (len(ij), 3), "shapes", ident)
            hexa = scheme in HEX if scheme is not None else X.system_of(n) in (5, 6)
            recs.append(dict(kind=kind, sg=n, n=N, hex=hexa, units=2 if 195 <= n <= 199 else 1, scheme=scheme or 0, pts=points(k, ij), id=ident))
        ck.trace()

    for n in range(1, 231):
        for N in [int(rng.integers(4, 9))] if ck.quick else [int(v) for v in rng.integers(1, 25, 3)]:
            add("grid", n, cell_of(n), N)
    big = [1, 2, 3, 6, 10, 16, 25, 47, 75, 81, 83, 89, 99, 111, 115, 123, 143, 147, 149, 156, 157, 162, 164, 168, 174, 175, 177, 183, 187, 189, 191, 195, 200, 207, 215, 221]
    for n in big:
        add("grid", n, cell_of(n), 12)
    for s in range(1, 20):
        for N in [1, int(rng.integers(2, 9)), int(rng.integers(9, 16))] if ck.quick else list(range(1, 26)):
            n = int(rng.choice([1, 10, 47, 99, 168, 191, 225]))
            if s not in (11, 13):
                add("region", n, cell_of(n), N, s)
    for n in (1, 143, 148, 166, 225):
        for s, errors in ((11, NotImplementedError), (13, NotImplementedError), (20, ValueError), (0, ValueError), (-2, ValueError)):
            try:
                kvectors_grid(cell_of(n), 3, stnum=s)
                ck.expect(False, "schemes that do not exist are refused", {"space_group": n, "scheme": s})
            except errors:
                pass
    ck.count("records", len(recs))
    ck.sample({k: (v if k != "pts" else v[:3]) for k, v in recs[0].items()})
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: ck.tlc("KVectorTrace", data=dict(Samples=recs[j::8]), invariants=["Judged"], verdict=True, timeout=1500, label=f"directions {j}"), range(8)))
