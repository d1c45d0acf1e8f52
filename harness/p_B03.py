"""Reduction of orientations to the fundamental zone, judged by FzTrace.tla."""
import numpy as np
import torch

from fz_common import FINE, SC, batch, clip4, fxs, quats, rounding, wall_quats


def run(ck):
    from ebsdtorch.s2_and_so3 import laue_fz_ori as F

    from ebsdtorch.s2_and_so3.laue_generators import laue_elements

    out, fine = [], []
    n = 300 if ck.quick else 700
    for l in range(1, 12):
        for k, dtype in enumerate((torch.float64, torch.float32, torch.float64, torch.float32, torch.float64)):
            rng = ck.numpy_rng(100 * l + k)
            q = batch(torch.tensor(quats(rng, n), dtype=dtype), k)
            desc = {"laue": l, "shape": list(q.shape), "dtype": str(dtype)}
            with ck.guard("reduction", desc, 60):
                keep = q.clone()
                r = F.ori_to_fz_laue(q, l)
                e = F.ori_equiv_laue(q, l)
                ck.expect(torch.equal(q, keep), "the input is not changed", desc)
                ck.expect(r.shape == q.shape and r.dtype == dtype, "one orientation of the same kind per orientation", desc)
                if not ck.expect(e.shape[:-2] == q.shape[:-1] and e.shape[-1] == 4, "one orbit per orientation", desc):
                    continue
                again = F.ori_to_fz_laue(e, l).reshape(-1, e.shape[-2], 4)
                q, r = q.reshape(-1, 4), r.reshape(-1, 4)
                e = e.reshape(len(q), -1, 4)
                for j in range(len(q)):
                    out.append(dict(kind="reduce", l=l, q=fxs(q[j], SC), out=clip4(fxs(r[j], SC))))
                    if j % 6 == 0:
                        out.append(dict(kind="equiv", l=l, q=fxs(q[j], SC), outs=[clip4(v) for v in fxs(e[j], SC)]))
                        g = int(rng.integers(0, e.shape[1]))
                        out.append(dict(kind="reduce", l=l, q=fxs(e[j, g], SC), out=clip4(fxs(again[j, g], SC))))
                        # every equivalent reduces to the same angle
                        out.append(dict(kind="reduce", l=l, q=fxs(q[j], SC), out=clip4(fxs(again[j, g], SC))))
                ck.trace()
            ck.sample(desc)
        # next to the walls of the zone, to the last digits
        rng = ck.numpy_rng(7000 + l)
        els = laue_elements(l).numpy()
        for dtype in (torch.float64, torch.float32):
            q = torch.tensor(wall_quats(rng, els, els[:1], 150 if ck.quick else 1500), dtype=dtype)
            with ck.guard("reduction", {"laue": l, "dtype": str(dtype), "where": "near the walls"}, 60):
                r = F.ori_to_fz_laue(q.clone(), l)
                for a, b in zip(q, r):
                    fine.append(dict(kind="reduce", l=l, r=rounding(q), q=fxs(a, FINE), out=clip4(fxs(b, FINE), 11 * FINE // 10)))
                ck.trace()
    ck.count("records", len(out))
    ck.count("records near walls", len(fine))
    for lo in range(0, len(fine), 8000):
        ck.tlc("FzFine", data=dict(Samples=fine[lo:lo + 8000]), invariants=["FineZones", "Judged"], verdict=True, label="near the walls")
    for lo in range(0, len(out), 20000):
        ck.tlc("FzTrace", data=dict(Samples=out[lo:lo + 20000]), invariants=["ZonesCover", "Judged"], verdict=True, label="orientations")
