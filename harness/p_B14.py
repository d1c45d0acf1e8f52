"""Spherical harmonic transforms, judged by SphereTrace.tla."""
import math
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import torch

CPU = torch.device("cpu")


def f8(v, div=1):
    return [int(round(max(min(float(np.nan_to_num(float(x), nan=9.0)) / div, 9.0), -9.0) * 1e8)) for x in v]


def f4(v):
    return [int(round(max(min(float(np.nan_to_num(float(x), nan=9.0)), 9.0), -9.0) * 1e4)) for x in v]


def judge(ck, recs, label, par=8):
    n = max(1, min(par, len(recs) // 200))
    parts = [recs[i::n] for i in range(n)]
    ck.count(label, len(recs))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda k: ck.tlc("SphereTrace", data=dict(Samples=parts[k]), invariants=["Judged"], verdict=True, timeout=1500, label=f"{label} {k}"), range(n)))


def lms(L):
    return [(l, m) for l in range(L) for m in range(-l, l + 1)]


def full(P, L):
    """coefficients of a real function for every order"""
    Q = torch.zeros(P.shape[0], 2 * L - 1, L, dtype=P.dtype)
    Q[:, L - 1:] = P
    s = torch.tensor([(-1.0) ** m for m in range(L - 1, 0, -1)])[None, :, None]
    Q[:, :L - 1] = P[:, 1:].flip(1).conj() * s.to(P.dtype)
    return Q


def rand_real(rng, b, L, dtype=torch.cdouble):
    P = torch.tensor(rng.normal(size=(b, L, L)) + 1j * rng.normal(size=(b, L, L)), dtype=dtype)
    l, m = torch.arange(L)[None, :], torch.arange(L)[:, None]
    P = P * (m <= l)
    P[:, 0] = P[:, 0].real.to(dtype)
    return P


def rand_complex(rng, b, L, dtype=torch.cdouble):
    P = torch.tensor(rng.normal(size=(b, 2 * L - 1, L)) + 1j * rng.normal(size=(b, 2 * L - 1, L)), dtype=dtype)
    l, m = torch.arange(L)[None, :], (torch.arange(2 * L - 1) - L + 1)[:, None]
    return P * (m.abs() <= l)


def run(ck):
    from ebsdtorch.harmonics import sht as S

    rng = ck.numpy_rng(0)
    out = []
    sizes = [1, 2, 3, 4, 5, 6, 7, 8] + ([12, 33] if ck.quick else [9, 10, 11, 12, 13, 16, 17, 24, 32, 33, 48, 64, 65])
    for L in sizes:
        ident = {"L": L}
        with ck.guard("transforms", ident, 120):
            C, R = S.CSHT(L, CPU, "double"), S.RSHT(L, CPU, "double")
            some = lms(L) if L <= 8 else sorted({(l, m) for l in (0, 1, L // 2, L - 2, L - 1) for m in range(-l, l + 1)})
            P = torch.zeros(len(some), 2 * L - 1, L, dtype=torch.cdouble)
            for n, (l, m) in enumerate(some):
                P[n, m + L - 1, l] = 1
            keep = P.clone()
            f = C.isht(P)
            if not ck.expect(tuple(f.shape) == (len(some), 2 * L, 2 * L) and f.dtype == torch.cdouble and torch.equal(P, keep), "shape, precision and untouched input", ident):
                continue
            at = {lm: n for n, lm in enumerate(some)}
            dv = 1 if L <= 9 else 2 if L <= 40 else 4
            ks = range(2 * L) if L <= 8 else sorted({0, 1, L - 1, L, 2 * L - 1, L // 2})
            for l in sorted({l for l, _ in some}):
                for k in ks:
                    v = [f[at[l, m], 0, k] for m in range(-l, l + 1)]
                    out.append(dict(kind="basis", L=L, l=l, k=k, dv=dv, v=f8([x.real for x in v], dv), im=f8([x.imag for x in v], dv), tol=60, id=ident))
            for l, m in some if L <= 6 else [some[j] for j in rng.integers(0, len(some), 12)]:
                for k in (ks if L <= 4 else rng.integers(0, 2 * L, 2)):
                    v = f[at[l, m], :, int(k)]
                    out.append(dict(kind="circle", L=L, l=l, m=m, re=f8(v.real, dv), im=f8(v.imag, dv), tol=60, id=ident))
            # forward of the basis, of impulses, of sums
            pick = some if L <= 5 else [some[j] for j in rng.permutation(len(some))[:8]]
            b = C.fsht(f[[at[x] for x in pick]])
            ck.expect(tuple(b.shape) == (len(pick), 2 * L - 1, L), "shape of the coefficients", ident)
            for n, x in enumerate(pick):
                for part in ("real", "imag"):
                    out.append(dict(kind="back", what="unit coefficient", L=L, x=f8(getattr(b[n], part).reshape(-1)), y=f8(getattr(P[at[x]], part).reshape(-1)), tol=30, id={"L": L, "lm": list(x)}))
            if L <= 12:
                x = torch.zeros(3, 2 * L, 2 * L, dtype=torch.cdouble)
                spots = [(int(rng.integers(0, 2 * L)), int(k)) for k in (0, L, rng.integers(0, 2 * L))]
                for n, (j, k) in enumerate(spots):
                    x[n, j, k] = 1
                p = C.fsht(x)
                xr = x.real.contiguous()
                pr = R.fsht(xr)
                pc = C.fsht(xr)                       # a real signal through the complex transform
                for n, (j, k) in enumerate(spots):
                    sel = [lm for lm in some]
                    out.append(dict(kind="impulse", L=L, j=j, k=k, lm=[list(a) for a in sel], b=f8([f[at[a], 0, k].real for a in sel]),
                                    re=f8([p[n, m + L - 1, l].real for l, m in sel]), im=f8([p[n, m + L - 1, l].imag for l, m in sel]), tol=60, id=ident))
                    sel = [lm for lm in some if lm[1] >= 0]
                    for q, off in ((pr, 0), (pc, L - 1)):
                        out.append(dict(kind="impulse", L=L, j=j, k=k, lm=[list(a) for a in sel], b=f8([f[at[a], 0, k].real for a in sel]),
                                        re=f8([q[n, m + off, l].real for l, m in sel]), im=f8([q[n, m + off, l].imag for l, m in sel]), tol=60, id={"L": L, "real": off == 0}))
            for b_ in (1, 3):
                A = rand_complex(rng, b_, L) / L
                g = C.isht(A)
                B = rand_real(rng, b_, L) / L
                kB = B.clone()
                h = R.isht(B)
                ck.expect(tuple(h.shape) == (b_, 2 * L, 2 * L) and h.dtype == torch.float64 and torch.equal(B, kB), "shape and precision of the real transform", ident)
                n = b_ - 1
                if L <= 8:
                    for _ in range(4):
                        j, k = int(rng.integers(0, 2 * L)), int(rng.integers(0, 2 * L))
                        sel = lms(L)
                        bb = f4([f[at[a], 0, k].real for a in sel])
                        out.append(dict(kind="combine", real=False, L=L, j=j, lm=[list(a) for a in sel], b=bb, cr=f4([A[n, m + L - 1, l].real for l, m in sel]),
                                        ci=f4([A[n, m + L - 1, l].imag for l, m in sel]), re=f4([g[n, j, k].real])[0], im=f4([g[n, j, k].imag])[0], id=ident))
                        sel = [a for a in sel if a[1] >= 0]
                        out.append(dict(kind="combine", real=True, L=L, j=j, lm=[list(a) for a in sel], b=f4([f[at[a], 0, k].real for a in sel]), cr=f4([B[n, m, l].real for l, m in sel]),
                                        ci=f4([B[n, m, l].imag for l, m in sel]), re=f4([h[n, j, k]])[0], im=0, id=ident))
                kg, kh = g.clone(), h.clone()
                ga, hb = C.fsht(g), R.fsht(h)
                ck.expect(torch.equal(g, kg) and torch.equal(h, kh), "the signal is not changed", ident)
                hc = C.fsht(h)
                fb = full(B, L)
                gf = C.isht(fb)
                noise = torch.tensor(rng.normal(size=(b_, 2 * L, 2 * L)))
                nr, nc = R.fsht(noise), C.fsht(noise)
                m_neg = full(nr, L)
                for what, x, y in (("coefficients of a sum", ga, A), ("coefficients of a real sum", hb, B), ("complex transform of a real function", hc, fb),
                                   ("real and complex inverse", gf, h.to(torch.cdouble)), ("real and complex transform of any signal", nc, m_neg)):
                    if ck.expect(x.shape == y.shape, "shape: " + what, ident):
                        x, y = x.reshape(-1), y.reshape(-1)
                        s = slice(None) if len(x) <= 600 else rng.integers(0, len(x), 600)
                        for part in ("real", "imag"):
                            out.append(dict(kind="back", what=what, L=L, x=f8(getattr(x, part)[s]), y=f8(getattr(y, part)[s]), tol=60, id=ident))
            ck.trace()
        # single precision gives the same
        with ck.guard("single precision", ident, 60):
            Cs, Rs = S.CSHT(L, CPU), S.RSHT(L, CPU)
            A, B = rand_complex(rng, 2, L) / L, rand_real(rng, 2, L) / L
            for what, T, Ts, X, small in (("complex", C, Cs, A, torch.cfloat), ("real", R, Rs, B, torch.cfloat)):
                x, y = T.isht(X), Ts.isht(X.to(small))
                u, v = T.fsht(x), Ts.fsht(x.to(torch.float32 if what == "real" else small))
                ck.expect(y.dtype == (torch.float32 if what == "real" else torch.cfloat) and v.dtype == torch.cfloat, "single precision stays single", ident)
                for p, q in ((x, y), (u, v)):
                    p, q = torch.view_as_real(p.to(torch.cdouble)).reshape(-1), torch.view_as_real(q.to(torch.cdouble)).reshape(-1)
                    s = slice(None) if len(p) <= 400 else rng.integers(0, len(p), 400)
                    out.append(dict(kind="back", what=f"single precision, {what}", L=L, x=f8(p[s]), y=f8(q[s]), tol=2000 + 100 * L, id=ident))
            ck.trace()
        if L <= 12:
            for dt, tol in ((torch.float64, 30), (torch.float32, 300)):
                with ck.guard("grid", ident, 30):
                    g = S.grid_DriscollHealy(L, dt)
                    ck.expect(tuple(g.shape) == (2 * L, 2 * L, 2) and g.dtype == dt, "shape of the grid", ident)
                    x = S.theta_phi_to_xyz(g)
                    for j in range(2 * L):
                        for k in range(2 * L) if L < 6 else rng.integers(0, 2 * L, 3):
                            out.append(dict(kind="grid", L=L, j=j, k=int(k), theta=f8([g[j, k, 0]])[0], phi=f8([g[j, k, 1]])[0], xyz=f8(x[j, k]), tol=tol, id=ident))
                    ck.trace()
    # the weights do not depend on the chunks they are computed in
    from ebsdtorch.harmonics import wigner_d_logspace as W
    for L in (2, 5, 6):
        total = L * (L + 1) * (L + 2) // 6
        for name, fn in (("complex", W.csht_weights_half_pi), ("real", W.rsht_weights_half_pi)):
            for prec in ("double", "single"):
                a = fn(L, CPU, prec).to_dense()
                for size in sorted({1, 3, 7, total - 1, total, total + 1}):
                    ident = {"L": L, "weights": name, "chunk": size, "precision": prec}
                    with ck.guard("chunks", ident, 30):
                        b = fn(L, CPU, prec, size).to_dense()
                        if ck.expect(b.shape == a.shape and b.dtype == a.dtype, "chunked weights: shape", ident):
                            j = rng.permutation(a.numel())[:400]
                            out.append(dict(kind="back", what="chunked weights", L=L, x=f8(a.reshape(-1)[j], 8), y=f8(b.reshape(-1)[j], 8), tol=2, id=ident))
                            ck.expect(torch.equal(a, b), "chunked weights", ident)
                        ck.trace()
    ck.sample({"L": sizes[-1]})
    judge(ck, out, "records")
