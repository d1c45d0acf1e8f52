import math

import numpy as np
import torch

CPU = torch.device("cpu")


def tri(l):
    return l * (l + 1) * (l + 2) // 6


def ent(T, l, a, b):
    a, b = max(a, b), min(a, b)
    return float(T[tri(l) + a * (a + 1) // 2 + b])


def f8(v):
    return [int(min(max(np.nan_to_num(x, nan=2), -2), 2) * 1e8 + (0.5 if x > 0 else -0.5)) if x == x else 200000000 for x in v]


def beta_of(t):
    p, q, r = t
    return 0.0 if q == 0 and p > 0 else math.pi if q == 0 else math.pi / 2 if p == 0 else math.atan2(q, p)


def sgn(x):
    return int(x > 0) - int(x < 0)


def column(TB, TP, l, n, t, tol, ident):
    b = [ent(TB, l, k, n) for k in range(l + 1)]
    c = [ent(TP, l, k, n) for k in range(l + 1)]
    return dict(kind="table", l=l, n=n, p=t[0], q=t[1], r=t[2], b=f8(b), c=f8(c), sgn=sgn(b[l]), tol=tol, id=ident)


def values(v, l, n, t, tol, ident):
    v = [float(x) for x in v]
    return dict(kind="values", l=l, n=n, p=t[0], q=t[1], r=t[2], v=f8(v), sgn=sgn(v[-1]), tol=tol, id=ident)
