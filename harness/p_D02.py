"""Non-local pattern averaging judged by NlparTrace.tla."""
import numpy as np
import torch

import crystal_common as X
import image_common as I


def reachable(d, coeff):
    """whether Newton's method from 1 meets the coefficient (selects inputs only)"""
    h, w, n = d.shape
    near = []
    D = ((d[:, :, None, None] - d[None, None]) ** 2).sum(-1).astype(float)
    adj = lambda i, j: [(a, b) for a in range(max(i - 1, 0), min(i + 2, h)) for b in range(max(j - 1, 0), min(j + 2, w))]
    s = np.array([[min([D[i, j, a, b] for a, b in adj(i, j) if (a, b) != (i, j)] or [0]) for j in range(w)] for i in range(h)])
    if (s == 0).any():
        return False
    rows = [np.array([0 if (a, b) == (i, j) else max((2 * D[i, j, a, b] - s[i, j] - s[a, b]) / 2 / (s[i, j] + s[a, b]) * np.sqrt(2 * n), 0) for a, b in adj(i, j)]) for i in range(h) for j in range(w)]
    f = lambda g: np.mean([1 / np.exp(-r / g**2).sum() for r in rows]) - coeff
    g = 1.0
    for _ in range(8):
        o = f(g)
        df = (f(g * (1 + 1e-5)) - f(g * (1 - 1e-5))) / (2e-5 * g)
        if df == 0:
            return False
        g -= o / df
        if not 0.3 < g < 3:
            return False
        if abs(o) < 1e-7:
            return g < 1.8
    return False


def run(ck):
    from ebsdtorch.preprocessing.nlpar import nlpar

    rng = ck.numpy_rng(0)
    recs = []
    full = 0
    goal = 60 if ck.quick else 700
    q = 0
    while full < goal and q < 20 * goal:
        q += 1
        h, w = (int(v) for v in rng.integers(1, 5, 2))
        ph, pw = (int(v) for v in rng.integers(1, 6, 2))
        n = ph * pw
        kind = q % 4
        base = rng.integers(100, 220, n)
        if q % 3 == 0:
            base = base - 160  # patterns less their mean
        if q % 7 == 0:
            base = rng.integers(-4, 5, n)
        d = base[None, None] + rng.integers(-8, 9, (h, w, n))
        if kind == 1:
            d[:, w // 2:] += rng.integers(0, 6, n)
        if kind == 3:
            d = rng.integers(0, [2, 3, 40][int(rng.integers(0, 3))], (h, w, n)) + (int(rng.integers(0, 2)) * 90)
        coeff = float(rng.integers(250, 700)) / 1000 if q % 3 else 0.375
        ok = kind != 3 and n >= 4 and reachable(d, coeff)
        if not ok and rng.random() < (0.8 if ck.quick else 0.9):
            continue
        full += ok
        rad = int(rng.integers(1, 4))
        bias = float(rng.integers(1, 300)) / 100 if rng.integers(0, 3) == 0 else 0.0
        double = bool(rng.integers(0, 4) == 0)
        data = {"scan": [h, w], "pattern": [ph, pw], "radius": rad, "coefficient": coeff, "bias": bias, "double": double}
        with ck.guard("averaging", data, 30):
            td = torch.tensor(d, dtype=torch.float64 if double else torch.float32).reshape(h, w, ph, pw)
            keep = td.clone()
            kw = {}
            if rad != 5:
                kw["k_rad"] = rad
            if coeff != 0.375:
                kw["coeff"] = coeff
            if bias:
                kw["center_logit_bias"] = bias
            g = nlpar(td, **kw)
            ck.expect(torch.equal(td, keep), "the scan is left as it was", data)
            if ck.expect(g.shape == td.shape and g.dtype == td.dtype, "one pattern per scan position", data):
                recs.append(dict(data=d.tolist(), got=[[X.fixn(p.flatten().tolist(), 1e5) for p in r] for r in g.double()], rad=rad, coeff=X.fixn([coeff], 1e8)[0], bias=X.fixn([bias], 1e8)[0], full=ok, tol=1000, id=data))
        ck.trace()
        if q % 40 == 0:
            ck.sample(data)
    ck.count("scans weighed exactly", full)
    I.judge(ck, recs, "NlparTrace")
