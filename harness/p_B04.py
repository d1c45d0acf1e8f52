"""Membership of the orientation fundamental zone, judged by FzTrace.tla."""
import numpy as np
import torch

from fz_common import FINE, SC, batch, fxs, qmul, quats, rounding, wall_quats


def run(ck):
    from ebsdtorch.s2_and_so3 import laue_fz_ori as F
    from ebsdtorch.s2_and_so3.laue_generators import laue_elements

    out, fine = [], []
    n = 160 if ck.quick else 2500
    for l in range(1, 12):
        els = laue_elements(l).numpy()
        for k, dtype in enumerate((torch.float64, torch.float32, torch.float64, torch.float32, torch.float64)):
            rng = ck.numpy_rng(100 * l + k)
            q = quats(rng, n)
            # near the walls of the zone: bisectors of the group elements
            g = els[rng.integers(0, len(els), n)]
            m = g + np.array([1.0, 0, 0, 0])
            m /= np.maximum(np.linalg.norm(m, axis=1, keepdims=True), 1e-9)
            s = np.concatenate([rng.uniform(0.7, 1, (n, 1)), rng.uniform(-0.4, 0.4, (n, 3))], 1)
            w = qmul(m, s / np.linalg.norm(s, axis=1, keepdims=True))
            half = np.concatenate([np.ones((n, 1)), rng.uniform(-1, 1, (n, 3)) * 0.6], 1)
            q = np.concatenate([q, w, half / np.linalg.norm(half, axis=1, keepdims=True)])
            q = q[np.linalg.norm(q, axis=1) > 0.5]
            q = np.where(q[:, :1] < 0, -q, q)
            q = batch(torch.tensor(q, dtype=dtype), k)
            desc = {"laue": l, "shape": list(q.shape), "dtype": str(dtype)}
            with ck.guard("membership", desc, 60):
                keep = q.clone()
                a, b = F.ori_in_fz_laue(q, l), F.ori_in_fz_laue_brute(q, l)
                ck.expect(torch.equal(q, keep), "the input is not changed", desc)
                if not ck.expect(a.shape == q.shape[:-1] and b.shape == q.shape[:-1] and a.dtype == torch.bool,
                                 "one truth value per orientation", desc):
                    continue
                for v, x, y in zip(fxs(q.reshape(-1, 4), SC), a.reshape(-1).tolist(), b.reshape(-1).tolist()):
                    out.append(dict(kind="member", l=l, q=v, fast=bool(x), brute=bool(y)))
                ck.count("inside", int(a.sum()))
                ck.trace()
            ck.sample(desc)
        rng = ck.numpy_rng(7000 + l)
        for dtype in (torch.float64, torch.float32):
            q = wall_quats(rng, els, els[:1], 300 if ck.quick else 3000)
            # most of the walls of the zone itself
            near = F.ori_to_fz_laue(torch.tensor(q), l).numpy()
            q = np.concatenate([near, q[: len(q) // 3], near * [1, -1, -1, -1]])
            q = torch.tensor(np.where(q[:, :1] < 0, -q, q), dtype=dtype)
            with ck.guard("membership", {"laue": l, "dtype": str(dtype), "where": "near the walls"}, 60):
                a, b = F.ori_in_fz_laue(q.clone(), l), F.ori_in_fz_laue_brute(q.clone(), l)
                for v, x, y in zip(q, a.tolist(), b.tolist()):
                    fine.append(dict(kind="member", l=l, r=rounding(q), q=fxs(v, FINE), fast=bool(x), brute=bool(y)))
                ck.trace()
    ck.count("records", len(out))
    ck.count("records near walls", len(fine))
    for lo in range(0, len(fine), 8000):
        ck.tlc("FzFine", data=dict(Samples=fine[lo:lo + 8000]), invariants=["FineZones", "Judged"], verdict=True, label="near the walls")
    for lo in range(0, len(out), 30000):
        ck.tlc("FzTrace", data=dict(Samples=out[lo:lo + 30000]), invariants=["ZonesCover", "Judged"], verdict=True, label="membership")
