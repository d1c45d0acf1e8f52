"""Crystal directions and the fundamental sector, judged by FzTrace.tla."""
import numpy as np
import torch

from fz_common import SC, batch, clip4, fxs
from p_B11 import sphere_points


def run(ck):
    from ebsdtorch.s2_and_so3 import laue_fz_s2 as S

    out = []
    n = 80 if ck.quick else 300
    for l in range(1, 12):
        for k, dtype in enumerate((torch.float64, torch.float32, torch.float64, torch.float32, torch.float64)):
            rng = ck.numpy_rng(100 * l + k)
            p = sphere_points(rng, n)
            az = np.radians(rng.choice([0, 15, 30, 45, 60, 90, 120, -30, -60, -90, -120, 180], n))
            z = rng.uniform(-1, 1, n)
            h = np.sqrt(1 - z * z)
            edge = np.stack([h * np.cos(az), h * np.sin(az), z], 1)
            s3 = np.array([[a, b, c] for a in (-1, 1) for b in (-1, 1) for c in (-1, 1)]) / 3 ** 0.5
            p = np.concatenate([p, edge, s3])
            # the same directions a little off the walls
            off = edge + rng.normal(0, 0.01, edge.shape)
            p = np.concatenate([p, off / np.linalg.norm(off, axis=1, keepdims=True)])
            p = p[rng.permutation(len(p))]
            # poles a rounding outside of the sphere
            one = 1 + torch.finfo(dtype).eps
            p = np.concatenate([p, [(0, 0, one), (0, 0, -one), (1e-5, 2e-5, one), (2e-5, -1e-5, -one)]])
            t = batch(torch.tensor(p, dtype=dtype), k)
            desc = {"laue": l, "shape": list(t.shape), "dtype": str(dtype)}
            with ck.guard("directions", desc, 60):
                keep = t.clone()
                r, e, i = S.s2_to_fz_laue(t, l), S.s2_equiv_laue(t, l), S.s2_in_fz_laue(t, l)
                ri = S.s2_in_fz_laue(r, l)
                ck.expect(torch.equal(t, keep), "the input is not changed", desc)
                ok = r.shape == t.shape and e.shape[:-2] == t.shape[:-1] and i.shape == t.shape[:-1]
                if not ck.expect(ok, "one result per direction", desc):
                    continue
                t, r, i, ri = t.reshape(-1, 3), r.reshape(-1, 3), i.reshape(-1), ri.reshape(-1)
                e = e.reshape(len(t), -1, 3)
                for j in range(len(t)):
                    out.append(dict(kind="direction", l=l, p=fxs(t[j], SC), out=clip4(fxs(r[j], SC)),
                                    outs=[clip4(v) for v in fxs(e[j], SC)], inside=bool(i[j]), outinside=bool(ri[j])))
                ck.trace()
            ck.sample(desc)
    ck.count("records", len(out))
    for lo in range(0, len(out), 20000):
        ck.tlc("FzTrace", data=dict(Samples=out[lo:lo + 20000]), invariants=["ZonesCover", "Judged"], verdict=True, label="directions")
