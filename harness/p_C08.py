"""Master patterns of dynamical diffraction, judged by BeamTrace.tla."""
import contextlib
import io
import math
from concurrent.futures import ThreadPoolExecutor

import torch

import crystal_common as X
from p_C07 import beams, crystal


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


def weights(rng, nv, nd):
    """counts of electrons by voltage and depth, none of which puts a cumulative share next to 95 %"""
    while True:
        w = rng.integers(1, 400, (nv, nd))
        if rng.integers(0, 2):
            w = w // (1 + (torch.arange(nd).numpy() // max(nd // 4, 1)) ** 2) + 1
        c = w.cumsum(1) / w.sum(1, keepdims=True)
        if abs(c - 0.95).min() > 2e-4:
            return w


def run(ck):
    from ebsdtorch.crystallography.diffraction import calc_helper_bloch_formalism, calc_sgh
    from ebsdtorch.crystallography.ebsd_master import ebsd_master_pattern
    from ebsdtorch.crystallography.kvectors import kvectors_grid
    from ebsdtorch.crystallography.unit_cell import Cell

    rng = ck.numpy_rng(0)
    recs = []
    for it in range(20 if ck.quick else 200):
        single = bool(rng.integers(0, 3))
        while True:
            cell, base, ident = crystal(Cell, rng, single)
            dmin, ng = beams(cell, rng, 3, 9 if ck.quick or rng.integers(0, 2) else 15)
            if dmin is not None and dmin > 0.08:
                break
        nv, nd, half = int(rng.integers(1, 4)), int(rng.integers(2, 24)), int(rng.integers(1, 4))
        dz = int(rng.integers(200, 12000))
        if it % 10 == 7:
            nd, dz = int(rng.integers(112, 140)), int(rng.integers(200, 2000))
        vv = [int(v) for v in rng.integers(50, 401, nv)]
        volts = torch.tensor(vv, dtype=cell.rmt.dtype) / 10
        w = weights(rng, nv, nd)
        mc = torch.tensor(w, dtype=torch.float64 if rng.integers(0, 3) == 0 else torch.float32)
        if rng.integers(0, 2):
            mc = mc * float(rng.choice([0.5, 2.0, 1 / 1024]))
        opt = dict(include_core=bool(rng.integers(0, 2)), include_phonon=bool(rng.integers(0, 4)), absorption=bool(rng.integers(0, 3)), scatter_factor=["WK", "Hybrid"][int(rng.integers(0, 2))])
        ident = dict(ident, dmin=dmin, beams=ng, voltages=vv, depth_step=dz / 1e4, depths=nd, half_width=half, options=opt)
        with ck.guard("master pattern", ident, 120):
            k, _ = kvectors_grid(cell, half)
            k = k.double() / k.double().norm(dim=-1, keepdim=True)
            nk = len(k)
            keep = mc.clone()
            chunk = int(rng.choice([1, 2, 7, nk, nk + 3, max(nk - 1, 1)]))
            M = quiet(ebsd_master_pattern, cell, volts.clone(), dz / 1e4, mc, dmin, k_chunk_size=chunk, grid_half_width=half, **opt)
            S = calc_sgh(cell, dmin)
            ns = len(S)
            if not ck.expect(M.shape == (nv, ns, nk) and bool(torch.isfinite(M).all()), "shape", lambda: dict(ident, got=list(M.shape), want=[nv, ns, nk])):
                continue
            ck.expect(torch.equal(keep, mc), "weights are not modified", ident)
            M2 = quiet(ebsd_master_pattern, cell, volts.clone(), dz / 1e4, mc, dmin, k_chunk_size=nk if chunk < nk else 3, grid_half_width=half, **opt)
            ck.expect(torch.allclose(M, M2, rtol=1e-4, atol=1e-5 * float(M.abs().max()) + 1e-6), "chunk size does not matter", lambda: dict(ident, chunk=chunk, worst=float((M - M2).abs().max())))
            hkl, U, up, lam = calc_helper_bloch_formalism(cell, dmin=dmin, voltages_kV=volts.clone(), **opt)
            g = hkl.double() @ cell.rsm.double().T
            n = len(hkl)
            for v in range(nv):
                for j in rng.permutation(nk)[:1 if nd > 100 or ck.quick else 2].tolist():
                    num = g @ k[j] + float(lam[v]) * (g * g).sum(1) / 2
                    s = num.abs() / (1 + float(lam[v]) * (g @ k[j]))
                    Un = torch.view_as_real(U[v]).abs().sum(-1).double()
                    Un.fill_diagonal_(0)
                    norm = float((math.pi * float(lam[v]) * dz / 1e4 * (Un.sum(1) + float(up[v])) + 2 * math.pi * dz / 1e4 * s).max())
                    sub = max(1, math.ceil(norm / 0.6))
                    cut = int((w[v].cumsum() * 20 < 19 * w[v].sum()).sum())
                    if sub * min(cut, 100) * n * n > (30000 if ck.quick else 120000):
                        continue
                    pair = lambda z, sc: [[X.fixn([a.real], sc)[0], X.fixn([a.imag], sc)[0]] for a in z]
                    recs.append(dict(id=dict(ident, v=vv[v], k=j), lam=X.fixn([lam[v]], 1e10)[0], up=X.fixn([up[v]], 1e7)[0], dz=dz, sub=sub, absorb=opt["absorption"],
                                     g=[X.fixn(x, 1e7) for x in g], k=X.fixn(k[j], 1e8), u=[pair(x, 1e7) for x in U[v]], w=w[v].tolist(), total=int(w.sum()),
                                     s=[[pair(x, 1e4) for x in S[a]] for a in range(ns)], got=[X.fixn([M[v, a, j]], 1e4)[0] for a in range(ns)]))
        ck.trace()
    # the choice of origin does not matter
    for it in range(2 if ck.quick else 12):
        e, c = X.edges(1, rng)
        e = [8 + x % 6 for x in e]
        c = [max(min(x, 3), -3) for x in c]
        atoms = [(int(rng.integers(3, 40)), *[float(x) for x in rng.random(3)], 1.0, 0.004) for _ in range(int(rng.integers(1, 4)))]
        shift = rng.random(3)
        ident = {"e": e, "c": c, "atoms": atoms, "shift": shift.tolist()}
        with ck.guard("origin", ident, 120):
            out = []
            for sh in (0 * shift, shift):
                cell = X.make(Cell, 1, 1, e, c, [(z, *[float((a + b) % 1) for a, b in zip((x, y, zz), sh)], o, b_) for z, x, y, zz, o, b_ in atoms], "angstrom", True)
                out.append(quiet(ebsd_master_pattern, cell, torch.tensor([20.0, 10.0], dtype=cell.rmt.dtype), 0.5, torch.tensor([[1.0, 3, 4, 5, 2, 1, 1], [3, 2, 1, 1, 1, 1, 1]]), 0.2, grid_half_width=2))
            ck.expect(torch.allclose(out[0], out[1], rtol=2e-3, atol=1e-4 * float(out[0].max())), "the choice of origin does not matter", lambda: dict(ident, worst=float((out[0] - out[1]).abs().max())))
        ck.trace()
    ck.sample({k: v for k, v in recs[0].items() if k in ("id", "got", "lam", "sub", "k")})
    ck.count("records", len(recs))
    n = 8
    recs.sort(key=lambda r: r["sub"] * len(r["w"]) * len(r["g"]) ** 2)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: ck.tlc("BeamTrace", data=dict(Samples=recs[j::n]), invariants=["Small", "Kept", "Intensity"], verdict=True, timeout=1500, label=f"beams {j}"), range(n)))
