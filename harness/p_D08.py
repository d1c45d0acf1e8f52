"""Detector points in the sample frame and back, judged by DetectorTrace.tla."""
import numpy as np
import torch

import crystal_common as X
import image_common as I
from p_D09 import angle


def run(ck):
    from ebsdtorch.ebsd.fitting import apply_geometry, bruker_geometries_to_SE3, get_3D_pixel_coords
    from ebsdtorch.ebsd.geometry import EBSDGeometry

    rng = ck.numpy_rng(0)
    recs = []
    for q in range(110 if ck.quick else 2500):
        bin = [int(v) for v in rng.choice([1, 1, 2, 3, 4, 5], 2)]
        hw = [int(rng.integers(1, 8 if ck.quick else 14)) for _ in range(2)]
        if q % 9 == 0:
            hw = [1, 1]
        rows, cols = hw[0] * bin[0], hw[1] * bin[1]
        if not 0.25 <= cols / rows <= 4:
            rows, hw, bin = cols, [hw[1]] * 2, [bin[1]] * 2
        tilts = [float(np.round(v, 2)) for v in (rng.uniform(-20, 20), rng.uniform(40, 80), rng.uniform(-15, 15))]
        pc = [float(v) for v in rng.integers(2000, 9000, 3) / 1e4]
        se3 = [float(v) for v in np.round(rng.uniform(-0.5, 0.5, 6), 4)]
        se3[3:] = [v * rows for v in se3[3:]]
        first = [int(v) for v in rng.integers(0, 2, 6)] if rng.integers(0, 2) else [0] * 6
        if q % 6 == 1:
            tilts, pc = [0.0, 70.0, 0.0], [0.5, 0.5, 0.5]
        data = {"shape": [rows, cols], "tilts": tilts, "pattern center": pc, "motion": se3, "optimised": first}
        with ck.guard("detector geometry", data, 30):
            kw = {}
            if q % 6 != 1:
                kw.update(tilts_degrees=tuple(tilts), proj_center=tuple(pc))
            if any(first) or q % 2:
                kw.update(opt_rots=tuple(bool(v) for v in first[:3]), opt_shifts=tuple(bool(v) for v in first[3:]))
            if q % 5 == 0:
                se3 = [0.0] * 6
            else:
                v = torch.tensor(se3)
                kw["se3_vector"] = v if q % 2 else v[None]
            g = EBSDGeometry((rows, cols), **kw)
            sets = []
            for _ in range(int(rng.integers(0, 4))):
                st = dict(rot=bool(rng.integers(0, 2)), shift=bool(rng.integers(0, 2)), m=[int(v) for v in rng.integers(0, 2, 6)])
                if rng.integers(0, 4) == 0:
                    st["m"] = [0] * 6
                g.set_optimizable_se3_params(**(dict(opt_rots=tuple(bool(v) for v in st["m"][:3])) if st["rot"] else {}), **(dict(opt_shifts=tuple(bool(v) for v in st["m"][3:])) if st["shift"] else {}))
                sets.append(st)
            data["then"] = sets
            base = dict(rows=rows, cols=cols, pc=X.fixn(pc, 1e8), d=angle(tilts[2] - tilts[1]), s=angle(tilts[0]), first=first, sets=sets, se3=X.fixn(se3[:3] + [v / rows for v in se3[3:]], 1e8), id=data)
            fx = lambda a: [X.fixn(r, 1e8) for r in (a.detach().double() / rows).reshape(-1, a.shape[-1]).tolist()]
            unit = lambda a: fx(a.double() / a.double().norm(dim=-1, keepdim=True) * rows)
            # binned pixels
            bad = [k for k in range(2, 12) if rows % k or cols % k]
            c = g.get_coords_sample_frame(tuple(bin))
            if ck.expect(c.shape == (hw[0] * hw[1], 3), "one point per binned pixel", data):
                recs.append(dict(base, op="binned", bin=bin, got=fx(c)))
            for k in bad[:2]:
                for b in ((k, 1), (1, k)):
                    if rows % b[0] or cols % b[1]:
                        try:
                            g.get_coords_sample_frame(b)
                            ck.expect(False, "binnings that do not divide the detector are refused", data | {"binning": b})
                        except ValueError:
                            pass
            # the same through the functions of the fitters
            b = bin[0] if cols % bin[0] == 0 and rows % bin[0] == 0 else 1
            m, tr = bruker_geometries_to_SE3(torch.tensor([pc]), torch.tensor(tilts[2] - tilts[1]), torch.tensor(tilts[0]), (rows, cols))
            px = get_3D_pixel_coords((rows, cols), torch.device("cpu"), b)
            c = (px @ m[0].T + tr)
            dirs = apply_geometry(px, m, tr)
            if ck.expect(px.shape == (rows * cols // b**2, 3) and dirs.shape == px.shape, "one point per binned pixel", data):
                recs.append(dict(base, op="binned", bin=[b, b], first=[0] * 6, sets=[], got=fx(c)))
                ck.expect(bool(torch.allclose(dirs, c / c.norm(dim=-1, keepdim=True), atol=1e-5)), "directions of the points", data)
            # the gradient
            out = g.get_coords_sample_frame((1, 1))
            gr = [0] * 6
            if out.requires_grad:
                wt = torch.linspace(0.3, 1.7, out.numel()).reshape(out.shape) ** 2
                (out * wt).sum().backward()
                gr = [int(v != 0) for v in g.se3_vector.grad[0].tolist()]
            if rows * cols > 4:
                recs.append(dict(op="grad", first=first, sets=sets, grad=gr, id=data))
            # any points, seen from any scan positions
            n = int(rng.integers(1, 6))
            m = int(rng.integers(1, 4))
            pix = rng.integers(-rows * 16, (max(rows, cols) + rows) * 16, (n, 2))
            scan = rng.integers(-3000, 3000, (m, 2)) / 1e4
            tp = torch.tensor(pix / 16, dtype=torch.float32)
            s = g.project2sample(tp)
            if ck.expect(s.shape == (n, 3), "one point per pixel", data):
                recs.append(dict(base, op="points", name="pixels in the sample frame", unit=16, pix=pix.tolist(), scan=[[0, 0]] * n, got=fx(s)))
                f = torch.tensor(rng.uniform(0.3, 1.6, (n, 1)), dtype=torch.float32)
                rays = s.detach() * f
                b = g.backproject2detector(rays)
                recs.append(dict(base, op="hit", ray=unit(rays), got=fx(b.reshape(-1, 2)), scan=[[0, 0]] * n))
                ck.expect(b.numel() == 2 * n, "one pixel per ray", data)
            ts = torch.tensor(scan * rows, dtype=torch.float32)
            s2 = g.project2sample(tp[:, None], ts[None])
            if ck.expect(s2.shape == (n, m, 3), "points seen from each scan position", data):
                both = [[k, j] for k in range(n) for j in range(m)]
                sc = [X.fixn(scan[j].tolist(), 1e8) for _, j in both]
                recs.append(dict(base, op="points", name="pixels seen from scan positions", unit=16, pix=[pix[k].tolist() for k, _ in both], scan=sc, got=fx(s2)))
                rays = s2.detach() * f[:, None]
                b2 = g.backproject2detector(rays, ts[None])
                if ck.expect(b2.numel() == 2 * n * m, "one pixel per ray", data):
                    recs.append(dict(base, op="hit", ray=unit(rays), got=fx(b2.reshape(-1, 2)), scan=sc))
        ck.trace()
        if q % 40 == 0:
            ck.sample(data)
    I.judge(ck, recs, "DetectorTrace")
