"""Coefficients of dynamical diffraction, judged by DiffractionTrace.tla."""
import math
from concurrent.futures import ThreadPoolExecutor

import torch

import crystal_common as X

SMALL = [1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 19, 21, 25, 33, 38, 61, 75, 81, 82, 89, 99, 115, 143, 146, 147, 149, 152, 156, 160, 173, 174, 187, 195, 198]


def crystal(Cell, rng, single=True, n=None, small=False):
    """a cell with sites on 240ths of the edges, at most 12 positions each"""
    while True:
        m = int(rng.choice(SMALL)) if n is None else n
        s = X.system_of(m)
        e, c = X.edges(s, rng)
        e = [(6 if small else 8) + x % (5 if small else 9) for x in e]
        if s in (4, 5, 6):
            e[1] = e[0]
        if s == 7:
            e = [e[0]] * 3
        c = [max(min(x, 3), -3) if s < 3 else x for x in c]
        if 1000 - 10 * sum(x * x for x in c) + 2 * c[0] * c[1] * c[2] < 300:
            continue
        sites, k = [], int(rng.integers(1, 4))
        for _ in range(k):
            sites.append(dict(z=int(rng.integers(3, 60)), at=[int(v) for v in rng.integers(0, 240, 3)], occ=int(rng.integers(1, 9)) if rng.integers(0, 2) else 8, b=int(rng.integers(2, 11))))
        if rng.integers(0, 2):
            sites[0]["at"] = [0, 0, 0]
        cell = X.make(Cell, m, 1, e, c, [(s_["z"], *[v / 240 for v in s_["at"]], s_["occ"] / 8, s_["b"] / 1000) for s_ in sites], "angstrom", True)
        if max(len(p) for p in cell.apos) > 12 or not 0.03 < float(cell.vol) < 1.0:
            continue
        out = []
        for s_, p in zip(sites, cell.apos):
            q = p.double() * 240
            if float((q - q.round()).abs().max()) > 0.02:
                break
            out.append(dict(z=s_["z"], occ=s_["occ"], b=s_["b"], pos=(q.round().long() % 240).tolist()))
        else:
            rmt = X.fixn(cell.rmt.reshape(-1), 1e6)
            vol = X.fixn([cell.vol], 1e8)[0]
            if single:
                cell = cell.set_fp_dtype(torch.float32)
            return cell, dict(rmt=rmt, vol=vol, sites=out), {"space_group": m, "e": e, "c": c, "sites": [dict(z=s_["z"], at=s_["at"], occ=s_["occ"], b=s_["b"]) for s_ in sites], "single": single}


def length(rmt, d):
    return math.sqrt(max(sum(rmt[3 * r + c] * d[r] * d[c] for r in range(3) for c in range(3)), 0) / 1e6)


def beams(cell, rng, lo, hi):
    """a resolution limit (nm) that leaves between lo and hi beams, away from any plane spacing"""
    g = cell.get_reflections(dmin=0.06, difference_table=False)
    ln = torch.sort(cell.calc_length(g.double().to(cell.rmt.dtype), "r"))[0].double().tolist()
    for _ in range(50):
        n = int(rng.integers(lo, hi))
        if n < len(ln) and ln[n] - ln[n - 1] > 0.02:
            return 2.0 / (ln[n] + ln[n - 1]), n + 1
    return None, None


def run(ck):
    from ebsdtorch.crystallography.diffraction import calc_helper_bloch_formalism, calc_helper_scatter_matrix, calc_lambda, calc_sg, calc_sgh
    from ebsdtorch.crystallography.ebsd_master import calc_sg_batched
    from ebsdtorch.crystallography.scattering_factors.scattering_factors_Hybrid import scatter_factor_hybrid
    from ebsdtorch.crystallography.scattering_factors.scattering_factors_WK import scatter_factor_WK
    from ebsdtorch.crystallography.unit_cell import Cell

    rng = ck.numpy_rng(0)
    recs = []
    vs = [50, 51, 100, 150, 200, 300, 1000] + [int(v) for v in rng.integers(50, 1001, 40)]
    with ck.guard("wavelength", {"tenths of kV": vs}, 60):
        for shape in ((-1,), (-1, 1)):
            lam, gam, psi = calc_lambda(torch.tensor(vs, dtype=torch.float64).reshape(shape) / 10)
            ck.expect(lam.shape == gam.shape == psi.shape == torch.Size([len(vs), 1] if len(shape) == 2 else [len(vs)]), "shapes", {})
            for v, a, b, c in zip(vs, lam.reshape(-1), gam.reshape(-1), psi.reshape(-1)):
                recs.append(dict(kind="wavelength", v=v, lam=X.fixn([a], 1e10)[0], gamma=X.fixn([b], 1e6)[0], psi=X.fixn([c], 10)[0]))
    for it in range(30 if ck.quick else 1500):
        single = bool(rng.integers(0, 3))
        cell, base, ident = crystal(Cell, rng, single)
        with ck.guard("coefficients", ident, 120):
            dmin, ng = beams(cell, rng, 6, 40)
            if dmin is None:
                continue
            ident = dict(ident, dmin=dmin, beams=ng)
            vol = base["vol"]
            vv = [int(v) for v in rng.integers(50, 1001, int(rng.integers(1, 4)))]
            volts = torch.tensor(vv, dtype=torch.float32 if single else torch.float64) / 10
            S = calc_sgh(cell, dmin)
            opt = dict(include_core=bool(rng.integers(0, 2)), include_phonon=bool(rng.integers(0, 4)), absorption=bool(rng.integers(0, 4)), scatter_factor=["WK", "Hybrid"][int(rng.integers(0, 2))])
            hkl, U, up, lam = calc_helper_bloch_formalism(cell, dmin=dmin, voltages_kV=volts.clone(), **opt)
            want = torch.cat([torch.zeros(1, 3, dtype=torch.int64), cell.get_reflections(dmin=dmin, difference_table=False).long()])
            ck.expect(torch.equal(hkl.long(), want), "beams are the origin and the reflections", ident)
            ns, nv = len(base["sites"]), len(vv)
            ck.expect(S.shape == (ns, ng, ng) and U.shape == (nv, ng, ng) and up.shape == (nv,) and lam.shape == (nv,), "shapes", lambda: dict(ident, got=[list(x.shape) for x in (S, U, up, lam)], ng=ng))
            ck.expect(bool(torch.isfinite(torch.view_as_real(S)).all() and torch.isfinite(torch.view_as_real(U)).all()), "finite", ident)
            if S.shape != (ns, ng, ng) or U.shape != (nv, ng, ng) or not torch.equal(hkl.long(), want):
                continue
            pairs = [(0, 0), (0, 1), (1, 0)] + [tuple(int(v) for v in rng.integers(0, ng, 2)) for _ in range(12)]
            g = hkl.long().tolist()
            recs.append(dict(kind="sites", id=ident, **base, items=[dict(s=s + 1, g=g[a], h=g[b], re=X.fixn([S[s, a, b].real], 1e4)[0], im=X.fixn([S[s, a, b].imag], 1e4)[0])
                                                                   for s in range(ns) for a, b in pairs]))
            # factors of the atoms at the same scattering vectors
            diffs = [[g[b][x] - g[a][x] for x in range(3)] for a, b in pairs]
            q = torch.tensor([length(base["rmt"], d) for d in diffs], dtype=torch.float64) * 0.1
            z = torch.tensor([s["z"] for s in base["sites"]])
            sig = torch.tensor([10 * math.sqrt(s["b"] / 1000 / (8 * math.pi ** 2)) for s in base["sites"]], dtype=torch.float64)
            kw = dict(include_core=opt["include_core"], include_phonon=opt["include_phonon"])
            f = scatter_factor_WK(q * 2 * math.pi, z, sig, volts.double(), **kw) if opt["scatter_factor"] == "WK" else scatter_factor_hybrid(q, z, sig, volts.double(), **kw)
            f = f if f.shape[0] == nv else f.expand(nv, -1, -1)
            shift = bool(rng.integers(0, 2))
            hk2, Q, xg0, lam2 = calc_helper_scatter_matrix(cell, dmin=dmin, voltages_kV=volts.clone(), apply_qg_shift=shift, **opt)
            ck.expect(torch.equal(hk2, hkl) and Q.shape == U.shape and xg0.shape == (nv,) and torch.allclose(lam2, lam, rtol=1e-6), "the two formalisms share beams and wavelengths", ident)
            x0 = torch.where(up.abs() > 0, 1 / (up * lam).abs().clamp(min=1e-30), torch.full_like(lam, 1e8))
            ck.expect(torch.allclose(xg0.double(), x0.double(), rtol=1e-4), "absorption length", ident)
            for v in range(nv):
                item = lambda k, val, sc: dict(d=diffs[k], fre=X.fixn(f[v, :, k].real, 1e6), fim=X.fixn(f[v, :, k].imag, 1e6), ure=X.fixn([val.real], sc)[0], uim=X.fixn([val.imag], sc)[0])
                head = dict(id=dict(ident, v=vv[v], options=opt), absorb=opt["absorption"], v=vv[v], lam=X.fixn([lam[v]], 1e10)[0], up=X.fixn([up[v]], 1e5)[0], **base)
                recs.append(dict(kind="potential", zero=item(0, U[v, 0, 0], 1e5), items=[item(k, U[v][a, b], 1e5) for k, (a, b) in enumerate(pairs)], **head))
                recs.append(dict(kind="matrix", shift=shift, items=[item(k, Q[v][a, b], 1e7) for k, (a, b) in enumerate(pairs)], **head))
            # excitation errors
            n = 12
            ks, gs = torch.tensor(rng.integers(-40, 41, (n, 3))), torch.tensor(rng.integers(-3, 4, (n, 3)))
            kk = ks.to(cell.rmt.dtype) / 10
            keep = [i for i in range(n) if float(cell.calc_length(kk[i], "r")) > 1.0 and float(cell.calc_length(kk[i] + gs[i], "r")) > 0.5 and float(cell.calc_length(kk[i], "r")) < 19]
            if keep:
                kk, gs, ks = kk[keep], gs[keep], ks[keep]
                for name, val in (("calc_sg", calc_sg(cell, gs, kk)), ("calc_sg_batched", torch.diagonal(calc_sg_batched(cell.rmt, gs.to(kk.dtype)[None], kk[:, None]))),
                                  ("calc_sg", torch.diagonal(calc_sg(cell, gs[None], kk[:, None].expand(-1, len(keep), -1))) if len(keep) > 0 and not bool(((kk[:, None] + gs[None]).abs().sum(-1) == 0).any()) else None)):
                    if val is None:
                        continue
                    recs.append(dict(kind="excite", id=dict(ident, by=name), rmt=base["rmt"], items=[dict(k=a, g=b, s=X.fixn([c], 1e4, 2e6)[0]) for a, b, c in zip(ks.tolist(), gs.tolist(), val)]))
        ck.trace()
    cell, base, ident = crystal(Cell, rng)
    for fn in (calc_helper_bloch_formalism, calc_helper_scatter_matrix):
        try:
            fn(cell, 0.2, torch.tensor([20.0]), scatter_factor="none")
            ck.expect(False, "unknown scattering factors are refused", {})
        except ValueError:
            pass
    ck.sample({k: v for k, v in recs[0].items()})
    ck.count("records", len(recs))
    n = 8
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: ck.tlc("DiffractionTrace", data=dict(Samples=recs[j::n]), invariants=["Judged"], verdict=True, timeout=1500, label=f"diffraction {j}"), range(n)))
