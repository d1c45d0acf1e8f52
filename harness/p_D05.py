"""Mutual information of images judged by MutualTrace.tla."""
import numpy as np
import torch

import crystal_common as X
import image_common as I

MODES = ("none", "Kvalseth Sum", "Kvalseth Min", "Kvalseth Max", "Yao", "Strehl-Ghosh", "Logarithmic")


def levels(rng, n, bins, like=None, edges=False):
    """values in units of half bins: bin centers, 0 and the top; with edges also those of the bins"""
    u = 2 * rng.integers(0, bins, n) + 1
    kind = rng.integers(0, 5)
    if like is not None and kind < 3:
        u = np.minimum(like // 2, bins - 1) * 2 + 1
        m = rng.random(n) < 0.3
        u[m] = 2 * rng.integers(0, bins, int(m.sum())) + 1
    elif kind == 3:
        u[:] = u[0]
    if edges and bins & (bins - 1) == 0 and rng.integers(0, 2):
        u[rng.random(n) < 0.7] -= 1
    u[rng.random(n) < 0.1] = 0
    u[rng.random(n) < 0.1] = 2 * bins
    return u


def run(ck):
    from ebsdtorch.utils.mutual_information import batch_binned_nmi, binned_nmi, mutual_information

    rng = ck.numpy_rng(0)
    recs = []
    F = torch.float32
    for q in range(250 if ck.quick else 4000):
        bins = [2, 3, 4, 7, 8, 16, 64, int(rng.integers(2, 40))][q % 8]
        if q % 24 == 5:
            bins = int(rng.choice([255, 256, 257, 300, 500]))
        n = int(rng.integers(4, 60))
        b1, b2 = [(1, 1), (2, 2), (1, 3), (3, 1)][int(rng.integers(0, 4))]
        normed = bool(rng.integers(0, 2))
        a = np.stack([levels(rng, n, bins) for _ in range(b1)])
        b = np.stack([levels(rng, n, bins, a[i % b1]) for i in range(b2)])
        if normed:
            for m in (a, b):
                for r in m:
                    if rng.integers(0, 6) == 0:
                        r[:] = r[0]
                    else:
                        i, j = rng.choice(n, 2, replace=False)
                        r[i], r[j] = 0, 2 * bins
        data = {"bins": bins, "pixels": n, "batches": [b1, b2], "normalize": normed}
        with ck.guard("mutual information", data, 30):
            lo, hi = (float(rng.uniform(-3, 3)), float(rng.uniform(0.5, 9))) if normed else (0.0, 1.0)
            ta, tb = torch.tensor(lo + hi * a / (2 * bins), dtype=F), torch.tensor(b / (2 * bins), dtype=F)
            ka, kb = ta.clone(), tb.clone()
            kw = {}
            if bins != 64 or q % 2:
                kw["n_bins"] = bins
            if not normed or q % 2:
                kw["normalize"] = normed
            g = mutual_information(ta, tb, **kw)
            ck.expect(torch.equal(ta, ka) and torch.equal(tb, kb), "images are left as they were", data)
            if ck.expect(g.shape == (max(b1, b2),), "one value per pair", data):
                for i in range(max(b1, b2)):
                    recs.append(dict(op="plain", a=a[i % b1].tolist(), b=b[i % b2].tolist(), bins=bins, normed=normed, got=X.fixn([float(g[i])], 1e8)[0], id=data))
        ck.trace()
    for q in range(250 if ck.quick else 4000):
        bx, by = int(rng.integers(2, 17)), int(rng.integers(2, 17))
        n = int(rng.integers(6, 60))
        b1, b2 = [(1, 1), (2, 2), (1, 3), (3, 1), (0, 0)][int(rng.integers(0, 5))]
        a = np.stack([levels(rng, n, bx) for _ in range(max(b1, 1))])
        b = np.stack([levels(rng, n, by, a[0]) for _ in range(max(b2, 1))])
        mode, bits, trim = MODES[q % 7], bool(rng.integers(0, 2)), bool(rng.integers(0, 3) == 0)
        data = {"bins": [bx, by], "pixels": n, "batches": [b1, b2], "mode": mode, "bits": bits, "trimmed": trim}
        with ck.guard("binned mutual information", data, 30):
            ta, tb = torch.tensor(a / (2 * bx), dtype=F), torch.tensor(b / (2 * by), dtype=F)
            if n % 2 == 0:
                ta, tb = ta.reshape(-1, 2, n // 2), tb.reshape(-1, 2, n // 2)
            kw = {}
            if bits or q % 2:
                kw["mode"] = "bits" if bits else "nats"
            if mode != "none" or q % 2:
                kw["norm_mode"] = mode
            if trim or q % 2:
                kw["exclude_lowest_bin"] = trim
            if b1 == 0:
                g = torch.tensor([float(binned_nmi(ta[0], tb[0], bx, by, **kw))])
            else:
                g = batch_binned_nmi(ta, tb, bx, by, **kw)
            m = max(b1, b2, 1)
            if ck.expect(g.shape == (m,), "one value per pair", data):
                for i in range(m):
                    recs.append(dict(op="binned", a=a[i % len(a)].tolist(), b=b[i % len(b)].tolist(), bins=bx, binsy=by, mode=mode, bits=bits, trim=trim, got=X.fixn([float(g[i])], 1e8)[0], id=data))
        ck.trace()
        if q % 60 == 0:
            ck.sample(data)
    # images with the same entropy up to a rounding: the farthest off of many
    pool = []
    for q in range(400 if ck.quick else 4000):
        bx, n = [64, 256][q % 2], int(rng.integers(60, 190))
        a = (2 * np.floor(rng.random(n) ** 2 * bx) + 1).astype(np.int64)
        b = 2 * bx - a if q % 3 else 2 * rng.permutation(bx)[a // 2] + 1
        data = {"bins": bx, "pixels": n, "mode": "Logarithmic", "same entropy": True}
        with ck.guard("binned mutual information", data, 30):
            g = float(binned_nmi(torch.tensor(a / (2 * bx), dtype=F), torch.tensor(b / (2 * bx), dtype=F), bx, bx, norm_mode="Logarithmic"))
            pool.append((-abs(g - 1) if g == g else -9, q, dict(op="binned", a=a.tolist(), b=b.tolist(), bins=bx, binsy=bx, mode="Logarithmic", bits=False, trim=False, got=X.fixn([g], 1e8)[0], id=data)))
    recs += [x[2] for x in sorted(pool, key=lambda x: x[:2])[:12]]
    for what, f in (("unknown normalisations", lambda: binned_nmi(torch.rand(9), torch.rand(9), 2, 2, norm_mode="x")), ("batches that do not match", lambda: batch_binned_nmi(torch.rand(2, 9), torch.rand(3, 9), 2, 2)),
                    ("batches that do not match", lambda: mutual_information(torch.rand(2, 9), torch.rand(3, 9), 2))):
        try:
            f()
            ck.expect(False, f"{what} are refused", {})
        except Exception:
            pass
    I.judge(ck, recs, "MutualTrace")
