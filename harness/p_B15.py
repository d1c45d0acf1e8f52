"""Correlation of spherical functions over the rotation group, judged by
SphereTrace.tla (sum over degrees and orders with its own small-d matrices)."""
import math

import numpy as np
import torch

from p_B14 import CPU, f4, f8, full, judge, lms, rand_complex, rand_real


def run(ck):
    from ebsdtorch.harmonics import sht as S, sht_cc as X, wigner_d_logspace as W

    rng = ck.numpy_rng(0)
    out = []

    def table(B, extra, dt=torch.float64):
        return W.wigner_d_eq_half_pi(B + extra, dt, CPU)

    def dense(B, T, dt):
        l, m, n = torch.meshgrid(torch.arange(B), torch.arange(-B + 1, B), torch.arange(-B + 1, B), indexing="ij")
        v = (m.abs() <= l) & (n.abs() <= l)
        d = torch.zeros(B, 2 * B - 1, 2 * B - 1, dtype=dt)
        d[v] = W.read_lmn_wigner_d_half_pi_table(T, torch.stack([l[v], m[v], n[v]], -1)).to(dt)
        return d

    def unit(P, B, real):
        q = full(P, B) if real else P
        return P * (1.2 / (q.abs() ** 2).sum((1, 2), keepdim=True).sqrt())

    def coef(P, B, real):
        q = (full(P[None], B) if real else P[None])[0]
        return [[f4([q[m + B - 1, l].real])[0], f4([q[m + B - 1, l].imag])[0]] for l, m in lms(B)]

    for B in (1, 2, 3):
        N = 2 * B - 1
        for bf, bg in ((1, 1), (1, 2), (2, 1), (2, 2)):
            ident = {"B": B, "batches": [bf, bg]}
            with ck.guard("correlation", ident, 60):
                b = max(bf, bg)
                T = table(B, int(rng.integers(0, 4)))
                f, g = unit(rand_real(rng, bf, B), B, True), unit(rand_real(rng, bg, B), B, True)
                F, G = unit(rand_complex(rng, bf, B), B, False), unit(rand_complex(rng, bg, B), B, False)
                keep = [x.clone() for x in (f, g, F, G)]
                vols = {"real": X.rs2cc_(B, f, g, T), "real, single": X.rs2cc_(B, f.cfloat(), g.cfloat(), T.float()),
                        "fast": X.rs2cc_fast_(B, f, g, dense(B, T, torch.cdouble)), "fast, single": X.rs2cc_fast_(B, f.cfloat(), g.cfloat(), dense(B, T, torch.cfloat))}
                cvol = {"complex": X.cs2cc_(B, F, G, T), "complex, single": X.cs2cc_(B, F.cfloat(), G.cfloat(), T.float())}
                ck.expect(all(torch.equal(x, y) for x, y in zip(keep, (f, g, F, G))), "the coefficients are not changed", ident)
                for name, v in list(vols.items()) + list(cvol.items()):
                    if not ck.expect(tuple(v.shape) == (b, N, N, N) and not v.is_complex(), "shape of the volume", {**ident, "what": name}):
                        continue
                    spots = [(a, c, e) for a in range(N) for c in range(N) for e in range(N)]
                    spots = spots if len(spots) < 30 else [spots[j] for j in rng.permutation(len(spots))[:10 if ck.quick else 60]]
                    for n in range(b):
                        x, y = ((f, g) if name in vols else (F, G))
                        x, y = x[n % bf], y[n % bg]
                        for at in spots:
                            out.append(dict(kind="cc", what="value" if name in vols else "size", L=B, at=list(at), f=coef(x, B, name in vols), g=coef(y, B, name in vols),
                                            v=f4([v[(n,) + at]])[0], id={**ident, "what": name, "at": list(at)}))
                ck.trace()
    for bad in (lambda B, T, f, g: X.rs2cc_(B, f, g, T), lambda B, T, f, g: X.cs2cc_(B, full(f, B), full(g, B), T), lambda B, T, f, g: X.rs2cc_fast_(B, f, g, dense(B, T, torch.cdouble))):
        f, g = rand_real(rng, 2, 2), rand_real(rng, 3, 2)
        try:
            bad(2, table(2, 0), f, g)
            ck.expect(False, "batches of different sizes are refused", {})
        except Exception as e:
            ck.expect("broadcastable" in str(e), "batches of different sizes are refused", {"error": str(e)[-200:]})
    # larger bandlimits: the three routines agree, azimuth turns shift the
    # volume, and a function correlates best with itself
    for B in (4, 5, 8, 9) if ck.quick else (4, 5, 6, 7, 8, 9, 12, 15, 16):
        ident = {"B": B}
        N = 2 * B - 1
        with ck.guard("larger bandlimits", ident, 120):
            T = table(B, 1)
            f, g = unit(rand_real(rng, 2, B), B, True), unit(rand_real(rng, 2, B), B, True)
            v = X.rs2cc_(B, f, g, T)
            w = X.rs2cc_fast_(B, f, g, dense(B, T, torch.cdouble))
            u = X.cs2cc_(B, full(f, B), full(g, B), T)
            turn = lambda P, s: P * torch.polar(torch.ones(B, dtype=torch.float64), (2 * math.pi * s / N) * torch.arange(B, dtype=torch.float64))[None, :, None]
            s, t = int(rng.integers(0, N)), int(rng.integers(0, N))
            z = X.rs2cc_(B, turn(f, s), turn(g, t), T)
            sel = rng.integers(0, v.numel(), 500)
            for what, x, y in (("fast and plain", w, v), ("complex routine on real functions", u, v.abs()), ("turned functions shift the volume", z, v.roll((-s, t), (1, 3)))):
                if ck.expect(x.shape == y.shape, "shape: " + what, ident):
                    out.append(dict(kind="back", what=what, L=B, x=f8(x.reshape(-1)[sel]), y=f8(y.reshape(-1)[sel]), tol=1000, id=ident))
            a = X.rs2cc_(B, f, f, T)
            energy = (full(f, B).abs() ** 2).sum((1, 2))
            ck.expect(bool((a.reshape(2, -1).max(1).values <= energy * (1 + 1e-5)).all()), "no correlation exceeds the energy", ident)
            ck.trace()
    ck.sample({"B": 3})
    judge(ck, out, "records")
