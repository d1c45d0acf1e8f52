import numpy as np
import torch

from vp import fx, fxs

SC = 10000
R2, R3 = 2 ** 0.5, 3 ** 0.5


def rand_quats(rng, n):
    q = rng.normal(size=(n, 4))
    return q / np.linalg.norm(q, axis=1, keepdims=True)


def axis_quat(axis, deg):
    a = np.array(axis, float)
    a /= np.linalg.norm(a)
    h = np.radians(deg) / 2
    return np.concatenate([[np.cos(h)], np.sin(h) * a])


def special_quats():
    out = []
    for ax in ((0, 0, 1), (1, 0, 0), (0, 1, 0), (1, 1, 0), (1, 1, 1), (1, -1, 1), (R3, 1, 0), (1, R3, 0), (1, 0, 1)):
        for deg in (0, 15, 30, 45, 54.7, 60, 90, 109.47, 120, 150, 180, -30, -45, -90, 200, 300):
            out.append(axis_quat(ax, deg))
    return np.array(out)


def quats(rng, n):
    """random, special, near special and near identity rotations, either sign"""
    s = special_quats()
    near = s[rng.integers(0, len(s), n // 4)] + rng.normal(0, 0.02, (n // 4, 4))
    near /= np.linalg.norm(near, axis=1, keepdims=True)
    small = np.concatenate([np.ones((n // 8, 1)), rng.normal(0, 0.05, (n // 8, 3))], 1)
    small /= np.linalg.norm(small, axis=1, keepdims=True)
    q = np.concatenate([rand_quats(rng, n), s[rng.permutation(len(s))[:n // 3]], near, small])
    q *= rng.choice([-1, 1], (len(q), 1))
    return q[rng.permutation(len(q))]


def qmul(a, b):
    w = a[..., 0] * b[..., 0] - (a[..., 1:] * b[..., 1:]).sum(-1)
    v = a[..., :1] * b[..., 1:] + b[..., :1] * a[..., 1:] + np.cross(a[..., 1:], b[..., 1:])
    return np.concatenate([w[..., None], v], -1)


def batch(t, k):
    """the same rows as a batch of another shape"""
    n = len(t)
    if k % 5 == 1 and n >= 6:
        return t[: n - n % 6].reshape(2, 3, -1, t.shape[-1])
    if k % 5 == 2:
        return t[0]
    if k % 5 == 3:
        return t.unsqueeze(1)
    if k % 5 == 4 and n >= 4:
        return t[: n - n % 4].reshape(-1, 4, t.shape[-1])
    return t


def clip4(v, lim=30000):
    return [max(-lim, min(lim, x)) for x in v]


FINE = 100000000


def wall_quats(rng, els1, els2, n):
    """rotations m for which two of the equivalents g1.m.g2 have angles that are all but the same"""
    left, right = els1.shape[0], els2.shape[0]
    # <a, m> is the real part of g1.m.g2
    conj = np.array([1.0, -1, -1, -1])
    a = qmul((els2 * 1.0)[None, :], (els1 * 1.0)[:, None]).reshape(-1, 4) * conj
    q = rand_quats(rng, n)
    w = q @ a.T
    order = np.argsort(-np.abs(w), axis=1)
    if left * right > 1:
        # the two nearest (not the same one up to sign)
        first = order[:, 0]
        f = a[first] * np.sign(np.take_along_axis(w, first[:, None], 1))
        aw = np.abs(w)
        aw[np.abs(f @ a.T) > 1 - 1e-9] = -1
        second = aw.argmax(1)
        s = a[second] * np.where(np.take_along_axis(w, second[:, None], 1) < 0, -1.0, 1.0)
        gap = 10.0 ** rng.uniform(-6, -3, (n, 1)) * rng.choice([-1, 1], (n, 1))
        d = f - s
        q = q - d * (((d * q).sum(1, keepdims=True) - gap) / np.maximum((d * d).sum(1, keepdims=True), 1e-12))
        q /= np.linalg.norm(q, axis=1, keepdims=True)
    return q


def rounding(t):
    """of results of a few products, in FINE units"""
    return 30 if t.dtype is torch.float64 else 90
