"""Projections between sphere and plane, judged by Projection.tla."""
import numpy as np
import torch

from vp import fx

SC = 10000


def sphere_points(rng, n):
    p = rng.normal(size=(n, 3))
    p /= np.linalg.norm(p, axis=1, keepdims=True)
    s = 0.5 ** 0.5
    sp = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (s, s, 0), (-s, s, 0), (s, -s, 0),
          (-s, -s, 0), (s, 0, s), (0, s, s), (-s, 0, -s), (0, -s, -s), (0.6, 0.8, 0), (0.6, 0, -0.8),
          (0.48, 0.64, 0.6), (0.6, 0.6, 0.28 ** 0.5), (1e-9, 1e-9, 1), (1e-5, -2e-5, -1)]
    sp = np.array(sp, float)
    near = p[: n // 8].copy()
    near[:, 2] *= 0.01
    near /= np.linalg.norm(near, axis=1, keepdims=True)
    return np.concatenate([p, sp, near])


def square_points(rng, n):
    g = np.linspace(-1, 1, 9)
    grid = np.stack(np.meshgrid(g, g), -1).reshape(-1, 2)
    return np.concatenate([rng.uniform(-1, 1, (n, 2)), grid, rng.uniform(-1e-3, 1e-3, (4, 2))])


def hex_points(rng, n):
    p = rng.uniform(-1, 1, (3 * n, 2))
    x, y = np.abs(p[:, 1]), np.abs(p[:, 0])
    ok = (x <= 0.866) & (y + x / 3 ** 0.5 <= 1)
    sp = [(0, 0), (1, 0), (-1, 0), (0.5, 0.8660254), (-0.5, -0.8660254), (0, 0.8), (0, -0.8), (0.3, 0), (0.25, 0.4330127)]
    return np.concatenate([p[ok][:n], np.array(sp)])


def reshape(t, rng):
    """the same points as a batch of some shape"""
    n = len(t)
    k = int(rng.integers(0, 4))
    if k == 0:
        return t
    if k == 1:
        return t[: n - n % 6].reshape(2, -1, 3, t.shape[-1])
    if k == 2:
        return t[: n - n % 5].reshape(5, -1, t.shape[-1])
    return t.unsqueeze(0)


def run(ck):
    from ebsdtorch.crystallography import kvectors as kv
    from ebsdtorch.s2_and_so3 import sphere as sp
    from ebsdtorch.simulation import monte_carlo as mc
    from ebsdtorch.utils import rosca_lambert as rl

    n = 300 if ck.quick else 2500
    out = []
    fns = [("square", sp.rosca_lambert, "sphere"), ("square", mc.rosca_lambert, "sphere"), ("side", sp.rosca_lambert_side_by_side, "sphere"),
           ("inverse", sp.inv_rosca_lambert, "square"), ("inverse", rl.square_to_hemisphere, "square"),
           ("inverse", rl.square_to_hemisphere_v2, "square"), ("inverse", kv.square_to_hemisphere, "square"),
           ("hexagon", rl.hexagon_to_hemisphere, "hex"), ("hexagon", kv.hexagon_to_hemisphere, "hex"),
           ("polar", sp.xyz_to_theta_phi, "sphere"), ("polar", sp.theta_phi_to_xyz, "angles")]
    for f_i, (kind, fn, dom) in enumerate(fns):
        for dtype in (torch.float64, torch.float32):
            rng = ck.numpy_rng(10 * f_i + (dtype == torch.float32))
            if dom == "sphere":
                x = sphere_points(rng, n)
            elif dom == "square":
                x = square_points(rng, n)
            elif dom == "hex":
                x = hex_points(rng, n)
            else:
                x = np.stack([rng.uniform(0, np.pi, n), rng.uniform(-np.pi, np.pi, n)], 1)
                x = np.concatenate([x, [(0, 0), (np.pi, 1), (np.pi / 2, np.pi), (np.pi / 2, -np.pi / 2)]])
            t = torch.tensor(x, dtype=dtype)
            if dom == "sphere":
                # vectors that are of unit length up to a rounding: poles and equator points just outside of the sphere
                out_ = torch.nextafter(torch.ones(1, dtype=dtype), torch.full((1,), 2.0, dtype=dtype)).item()
                t = torch.cat([torch.tensor([(0, 0, out_), (0, 0, -out_), (1.8e-4, 2.8e-5, out_), (-1e-5, 3e-5, -out_),
                                             (out_, 0, 0), (0, -out_, 0)], dtype=dtype), t])
            name = getattr(fn, "name", str(fn))
            desc = {"function": name, "kind": kind, "dtype": str(dtype)}
            with ck.guard(f"{kind} map", desc, 60):
                t = reshape(t, rng)
                y = fn(t[..., 0].clone(), t[..., 1].clone()) if dom == "angles" else fn(t.clone())
                if not ck.expect(tuple(y.shape[:-1]) == tuple(t.shape[:-1]), "batch shape is kept", desc):
                    continue
                if dom == "hex":
                    c = torch.tensor(square_points(rng, 50), dtype=dtype)
                    c = torch.cat([c, torch.tensor([(1.0, 1.0), (-1.0, 1.0), (1.0, -0.99)], dtype=dtype)])
                    ck.expect(bool(torch.isfinite(fn(c)).all()), "finite in the whole square around the hexagon", desc)
                t, y = t.reshape(-1, t.shape[-1]), y.reshape(-1, y.shape[-1])
                sph, pl = (t, y) if dom == "sphere" else (y, t)
                for p, s in zip(sph.double().tolist(), pl.double().tolist()):
                    out.append(dict(kind=kind, fn=name, inp="sphere" if dom == "sphere" else "plane",
                                    p=[fx(v, SC) for v in p], s=[fx(v, SC) for v in s]))
                ck.sample(dict(desc, points=len(t)))
                ck.trace()
    # values far outside any of the maps are clipped so that TLC's products fit
    for r in out:
        r["p"] = [max(-40000, min(40000, v)) for v in r["p"]]
        r["s"] = [max(-40000, min(40000, v)) for v in r["s"]]
    ck.count("points", len(out))
    for lo in range(0, len(out), 20000):
        ck.tlc("Projection", data=dict(Samples=out[lo:lo + 20000]), verdict=True, label="recorded points")
