"""Shared by A02/A03/A04: run the real indexing, record it for IndexRun.tla."""
import numpy as np
import torch

from vp import fx, fxs, quiet


def rot(q, v):
    """rotate vectors by unit quaternions, float64 numpy: (n,4),(m,3)->(n,m,3)"""
    q = np.asarray(q, float)
    w, u = q[:, None, :1], q[:, None, 1:]
    v = np.asarray(v, float)[None]
    t = 2 * np.cross(np.broadcast_to(u, (len(q),) + v.shape[1:]), np.broadcast_to(v, (len(q),) + v.shape[1:]))
    return v + w * t + np.cross(np.broadcast_to(u, t.shape), t)


def smooth_master(rng, n=33):
    """a smooth random master pattern (n, 2n)"""
    y, x = np.mgrid[0:n, 0:2 * n] / n
    img = np.zeros((n, 2 * n))
    for _ in range(14):
        a, b, c = rng.uniform(-6, 6, 2).tolist() + [rng.uniform(0, 6)]
        img += rng.uniform(0.3, 1) * np.cos(a * x * 2 + b * y * 2 + c)
    img = (img - img.min()) / (img.max() - img.min())
    return torch.tensor(img, dtype=torch.float32)


def simulate(mp, geom, quats, binning):
    c = geom.get_coords_sample_frame(binning=(binning, binning)).reshape(-1, 3).detach().double().numpy()
    c = c / np.linalg.norm(c, axis=-1, keepdims=True)
    r = torch.tensor(rot(quats, c), dtype=torch.float32)
    return mp.interpolate(r, virtual_binning=binning).reshape(len(quats), -1).double().numpy()


def score_matrix(metric, exp, sim):
    if metric == "angular":
        return exp @ sim.T
    if metric == "euclidean":
        return ((exp[:, None] - sim[None]) ** 2).sum(-1)
    return np.abs(exp[:, None] - sim[None]).sum(-1)


def bin_patterns(p, b):
    n, h, w = p.shape
    return p.reshape(n, h // b, b, w // b, b).mean((2, 4))


class Lookup:
    """quaternion -> dictionary entry (1-based), by value"""

    def __init__(self, d):
        self.d = d

    def __call__(self, q):
        q = np.asarray(q, float)
        dots = np.abs(q @ self.d.T)
        i = int(np.argmax(dots))
        return i + 1 if abs(dots[i] - 1) < 2e-6 and np.abs(np.abs(q) - np.abs(self.d[i])).max() < 1e-5 else 0
