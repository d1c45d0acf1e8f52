"""Atomic scattering factors, judged by ScatterTrace.tla."""
import math
from concurrent.futures import ThreadPoolExecutor

import torch

import crystal_common as X


def run(ck):
    from ebsdtorch.crystallography.scattering_factors import scattering_factors_Hybrid as HM, scattering_factors_LVD_TCB as LM, scattering_factors_WK as WM

    rng = ck.numpy_rng(0)
    recs = []
    D = torch.float64
    two_pi = 2 * math.pi

    def call(by, g, z, s, v, dtype=D, **kw):
        """factors for g (hundredths), z, s (1e-3 A), v (tenths of kV): complex or real [V, Z, g]"""
        gt = torch.tensor(g, dtype=D) / 100
        itc = kw.get("return_type") == "ITC"
        if by == "WK" and not itc:
            gt = gt * two_pi
        gt = gt.to(dtype)
        zt, st, vt = torch.tensor(z), (torch.tensor(s, dtype=D) / 1000).to(dtype), (torch.tensor(v, dtype=D) / 10).to(dtype)
        if len(z) == 1 and rng.integers(0, 2):
            zt = z[0]
        if len(s) == 1 and rng.integers(0, 2):
            st = s[0] / 1000
        if len(v) == 1 and rng.integers(0, 2):
            vt = v[0] / 10
        keep = [x.clone() if torch.is_tensor(x) else x for x in (gt, zt, st, vt)]
        fn = {"WK": WM.scatter_factor_WK, "Hybrid": HM.scatter_factor_hybrid, "LVD": LM.scatter_factor_LVD}[by]
        if by == "LVD" and not itc:
            kw.setdefault("intervals", 20)
        out = fn(gt, zt, st, vt, **kw)
        for a, b in zip(keep, (gt, zt, st, vt)):
            ck.expect((not torch.is_tensor(a)) or torch.equal(a, b), "inputs are not modified", {"by": by})
        nv = 1 if itc else len(v)
        ck.expect(out.shape == (nv, len(z), len(g)) and out.is_complex() == (not itc), "shape", lambda: {"by": by, "got": list(out.shape), "want": [nv, len(z), len(g)], "options": {k: str(x) for k, x in kw.items()}})
        return out

    def draw(hi_g=800, nz=None, zero=True):
        nz = nz or int(rng.integers(1, 5))
        g = [int(x) for x in rng.integers(1, hi_g, int(rng.integers(1, 7)))] + ([0] if zero and rng.integers(0, 2) else [])
        rng.shuffle(g)
        return g, [int(x) for x in rng.integers(1, 99, nz)], [int(x) for x in rng.integers(20, 130, nz)], [int(x) for x in rng.integers(20, 4000, int(rng.integers(1, 4)))]

    # elastic part: every element, then random batches
    for by in ("WK", "Hybrid", "LVD"):
        for rep in range(60 if ck.quick else 600):
            if rep < 14:
                zz = list(range(1 + 7 * rep, 8 + 7 * rep))
                g, v = [0] + [int(x) for x in rng.integers(1, 800, 6)], [int(rng.integers(20, 4000))]
                s = [int(x) for x in rng.integers(20, 130, 7)]
            else:
                g, zz, s, v = draw()
            itc = bool(rng.integers(0, 3) == 0)
            single = bool(rng.integers(0, 2))
            kw = dict(return_type="ITC") if itc else {}
            if by != "LVD":
                kw.update(include_core=bool(rng.integers(0, 2)), include_phonon=bool(rng.integers(0, 2)))
            ident = {"by": by, "g": g, "z": zz, "s": s, "v": v, "options": kw}
            with ck.guard("elastic part", ident, 60):
                out = call(by, g, zz, s, v, torch.float32 if single else D, **kw)
                if out.shape != (1 if itc else len(v), len(zz), len(g)):
                    continue
                items = []
                for iv in range(out.shape[0]):
                    for iz in range(len(zz)):
                        for ig in range(len(g)):
                            x = out[iv, iz, ig]
                            # the factors of strong single terms cancel in single precision
                            items.append(dict(g=g[ig], z=zz[iz], s=s[iz], v=v[iv], re=X.fixn([x.real if x.is_complex() else x], 1e6)[0], im=X.fixn([x.imag], 1e8)[0] if itc and x.is_complex() else 0))
                recs.append(dict(kind="elastic", by="WK" if by == "WK" else "LVD", itc=itc, items=items))
            ck.trace()
        sv = [int(round(100 * x)) for x in [0.01 * i for i in range(21)]] + [22, 24, 25, 26, 28, 30, 32, 34, 35, 36, 38, 40, 42, 44, 45, 46, 48] + [50 + 5 * i for i in range(5)] + [80, 90, 100, 110, 120, 130, 140, 150, 160, 170, 180, 190, 200]
        with ck.guard("tabulated values", by, 60):
            out = call(by, [2 * x for x in sv], list(range(2, 34)), [50] * 32, [200], return_type="ITC")
            for iz in range(32):
                recs.append(dict(kind="table", by=by, items=[dict(z=iz + 2, row=i + 1, s=sv[i], re=X.fixn([out[0, iz, i]], 1e6)[0]) for i in range(len(sv))]))
    # absorptive part
    f8 = lambda x: X.fixn([x], 1e8)[0]
    for rep in range(40 if ck.quick else 500):
        g, zz, s, v = draw(400)
        ident = {"g": g, "z": zz, "s": s, "v": v}
        with ck.guard("absorption", ident, 120):
            imag = {}
            for by in ("WK", "Hybrid"):
                for opt in ("both", "core", "phonon", "none"):
                    imag[by, opt] = call(by, g, zz, s, v, include_core=opt in ("both", "core"), include_phonon=opt in ("both", "phonon")).imag
                ng = [1]
                z0 = call(by, [0], zz, s, v, include_core=False).imag
                z1 = call(by, ng, zz, s, v, include_core=False).imag
                shape = (len(v), len(zz), len(g))
                if any(imag[by, o].shape != shape for o in ("both", "core", "phonon", "none")):
                    return
                idx = [(a, b, c) for a in range(len(v)) for b in range(len(zz)) for c in range(len(g))]
                recs.append(dict(kind="add", by=by, items=[dict(g=g[c], z=zz[b], v=v[a], s=s[b], **{o: f8(imag[by, o][a, b, c]) for o in ("both", "core", "phonon", "none")}, zero=f8(z0[a, b, 0]), near=f8(z1[a, b, 0])) for a, b, c in idx]))
                core = []
                for a, b, c in idx:
                    r = 0.885 * 0.5289 / zz[b] ** (1 / 3)
                    k0, V = 0.5068 * math.sqrt(102.2 * v[a] + v[a] ** 2 / 100), v[a] / 10
                    th = 0.003 * zz[b] / V * (2 * V + 1022) / (V + 1022)
                    if two_pi * g[c] / 100 * r < 2.9 and th * k0 * r < 1.0 and th < 1 and (g[c] == 0 or two_pi * g[c] / 100 * r > 0.06):
                        core.append(dict(g=g[c], z=zz[b], v=v[a], s=s[b], im=X.fixn([imag[by, "core"][a, b, c]], 1e6)[0]))
                if core:
                    recs.append(dict(kind="core", by=by, items=core))
                if len(v) > 1:
                    recs.append(dict(kind="scale", by=by, items=[dict(va=v[a], vb=v[0], a=f8(imag[by, "phonon"][a, b, c]), b=f8(imag[by, "phonon"][0, b, c])) for a, b, c in idx if a]))
            for o in ("both", "core", "phonon"):
                lv = None
                if o == "phonon" and rep % (4 if ck.quick else 2) == 0:
                    lv = call("LVD", g[:3], zz, s, v, **(dict(intervals=300) if rep % 8 == 0 else dict(intervals=301, sampling_type="linspace", interval_range=(0.0, 20.0)))).imag
                    idx3 = [(a, b, c) for a in range(1, len(v)) for b in range(len(zz)) for c in range(len(g[:3]))]
                    recs.append(dict(kind="scale", by="LVD", items=[dict(va=v[a], vb=v[0], a=f8(lv[a, b, c]), b=f8(lv[0, b, c])) for a, b, c in idx3]))
                recs.append(dict(kind="agree", items=[dict(g=g[c], z=zz[b], v=v[a], s=s[b], of=o, wk=f8(imag["WK", o][a, b, c]), hy=f8(imag["Hybrid", o][a, b, c]),
                                                           lvd=f8(lv[a, b, c]) if lv is not None and c < 3 and g[c] <= 200 and zz[b] > 1 else -1) for a, b, c in idx]))
        ck.trace()
    # exponential integrals
    xs = sorted({1, 2, 5, 10, 37, 3725, 3726, 2724, 4726, 9999, 10000, 10001, 59999, 60000, 60001, 100000, 100001, 200000, 200001} | {int(x) for x in rng.integers(1, 600000, 60)} | {int(x) for x in rng.integers(1, 70000, 40)})
    for name, M in (("WK", WM), ("Hybrid", HM)):
        if not (hasattr(M, "expi") and hasattr(M, "exp1")):
            continue
        for dt in (D, torch.float32):
            with ck.guard("exponential integrals", name, 60):
                x = (torch.tensor(xs, dtype=D) / 1e4).to(dt)
                shape = (-1, 1) if rng.integers(0, 2) else (-1,)
                ei, e1, em = M.expi(x.reshape(shape)).reshape(-1), M.exp1(x.reshape(shape)).reshape(-1), M.expi(-x.reshape(shape)).reshape(-1)
                x = x.double()
                a, b, c = (ei.double() * torch.exp(-x)).tolist(), (e1.double() * torch.exp(x)).tolist(), (em.double() * torch.exp(x)).tolist()
                recs.append(dict(kind="integrals", by=name, loose=0 if dt == D else 1, items=[dict(x=xs[i], ei=X.fixn([a[i]], 1e8)[0], e1=X.fixn([b[i]], 1e8)[0], em=X.fixn([c[i]], 1e8)[0]) for i in range(len(xs)) if dt == D or xs[i] < 200000]))
            ck.trace()
    # wavelengths, scaled exponential integral
    for M in (WM, HM, LM):
        if hasattr(M, "e_wavelength_eV_to_A"):
            vs = [20, 4000] + [int(x) for x in rng.integers(20, 4000, 40)]
            with ck.guard("wavelength", M.__name__, 60):
                lam = M.e_wavelength_eV_to_A(torch.tensor(vs, dtype=D) * 100)
                recs.append(dict(kind="wavelength", items=[dict(v=a, lam=f8(b)) for a, b in zip(vs, lam)]))
        if hasattr(M, "RIH2_torch"):
            xs2 = [20, 400] + [int(x) for x in rng.integers(20, 400, 60)] + list(range(21, 61))
            with ck.guard("scaled exponential integral", M.__name__, 60):
                val = M.RIH2_torch(torch.tensor(xs2, dtype=D))
                recs.append(dict(kind="rih", items=[dict(x=a, val=f8(b)) for a, b in zip(xs2, val)]))
    # Simpson's rule
    items = []
    with ck.guard("Simpson's rule", {}, 60):
        for rep in range(60):
            n = int(rng.integers(3, 12))
            even = rep % 3 == 0
            step = int(rng.integers(1, 4))
            nodes = [int(x) for x in (rng.integers(-10, 5) + step * torch.arange(n).numpy() if even else sorted(rng.choice(range(-15, 16), n, replace=False)))]
            c = [int(x) for x in rng.integers(-20, 21, 4)]
            if not even or n % 2 == 0:
                c[3] = 0
            x = torch.tensor(nodes, dtype=D)
            y = c[0] * x ** 2 + c[1] * x + c[2] + c[3] * x ** 3
            lead = [(), (1,), (2, 3)][rep % 3]
            got = LM.simpson_composite(y.expand(*lead, n).contiguous(), x)
            ck.expect(got.shape == torch.Size(lead), "shape of integrals", {"lead": lead})
            for v in got.reshape(-1)[:1]:
                items.append(dict(c=c, a=nodes[0], b=nodes[-1], n=n, got=X.fixn([v * 12], 1)[0]))
        try:
            LM.simpson_composite(torch.zeros(2, 4, dtype=D), torch.zeros(5, dtype=D))
            ck.expect(False, "mismatched nodes are refused", {})
        except Exception:
            pass
    recs.append(dict(kind="simpson", items=items))
    # refusals
    for fn in (WM.scatter_factor_WK, HM.scatter_factor_hybrid, LM.scatter_factor_LVD):
        for bad in (0, 1, 2):
            args = [torch.rand(3, dtype=D) + 0.1, torch.tensor([6, 8]), torch.tensor([0.05, 0.05], dtype=D)]
            args[bad] = args[bad][None]
            try:
                fn(*args, 20.0)
                ck.expect(False, "batches of more than one dimension are refused", {"function": fn.__name__, "argument": bad})
            except ValueError:
                pass
    for fn, kw in ((HM.scatter_factor_hybrid, dict(return_type="none")), (LM.scatter_factor_LVD, dict(sampling_type="none"))):
        try:
            fn(torch.rand(3, dtype=D) + 0.1, 6, 0.05, 20.0, **kw)
            ck.expect(False, "unknown options are refused", {"function": fn.__name__})
        except ValueError:
            pass
    ck.sample(recs[0]["items"][0])
    ck.count("records", len(recs))
    ck.count("values", sum(len(r["items"]) for r in recs))
    n = 8
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: ck.tlc("ScatterTrace", data=dict(Samples=recs[j::n]), invariants=["Judged"], verdict=True, timeout=1500, label=f"factors {j}"), range(n)))
