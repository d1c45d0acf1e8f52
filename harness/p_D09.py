"""Bruker pattern centers and tilts as rigid motions and back, judged by DetectorTrace.tla."""
import math

import torch

import crystal_common as X
import image_common as I


def angle(deg):
    return X.fixn([math.remainder(deg * math.pi / 180, 2 * math.pi)], 1e8)[0]


def run(ck):
    from ebsdtorch.ebsd import fitting, geometry

    rng = ck.numpy_rng(0)
    recs = []
    for q in range(120 if ck.quick else 2500):
        rows, cols = (int(v) for v in rng.integers(1, 700, 2)) if q % 5 else (int(rng.integers(4, 80)),) * 2
        cols = min(cols, 8 * rows)
        n = int(rng.integers(1, 6))
        pc = rng.integers(-2000, 12000, (n, 3)) / 1e4
        pc[:, 2] = rng.integers(2000, 20000, n) / 1e4
        if q % 4 == 0:
            d, s = rng.uniform(-179, 179, n), rng.uniform(-179, 179, n)
        elif q % 4 == 1:
            d, s = rng.choice([0.0, 90.0, -90.0, 180.0, -70.0, 45.0], n), rng.choice([0.0, 90.0, -90.0, 30.0], n)
        else:
            d, s = rng.uniform(-90, 10, n), rng.uniform(-30, 30, n)
        double = bool(rng.integers(0, 2))
        dt = torch.float64 if double else torch.float32
        data = {"shape": [rows, cols], "pattern centers": pc.tolist(), "primary tilts": d.tolist(), "secondary tilts": s.tolist(), "double": double}
        to, fro = (geometry.bruker_geometry_to_SE3, geometry.bruker_geometry_from_SE3) if q % 2 else (fitting.bruker_geometries_to_SE3, fitting.bruker_geometry_from_SE3)
        data["function"] = "geometry" if q % 2 else "fitting"
        with ck.guard("detector geometry", data, 30):
            one = n == 1 or q % 5 == 0
            if one:
                d[:], s[:] = d[0], s[0]
            td, ts = torch.tensor(d, dtype=dt), torch.tensor(s, dtype=dt)
            if one:
                if n > 1 or q % 2:
                    td, ts = td[:1], ts[:1]
                else:
                    td, ts = td[0], ts[0]
            tp = torch.tensor(pc, dtype=dt)
            m, tr = to(tp, td, ts, (rows, cols))
            if not ck.expect(m.shape == ((1, 3, 3) if one else (n, 3, 3)) and tr.shape == (n, 3), "one motion per pattern center", data):
                continue
            m = m.expand(n, 3, 3)
            back, b1, b2 = fro(m, tr, (rows, cols))
            # the smallest of rows and columns decides the precision of the way back
            tol = int((3 if double else 600) * (1 + max(rows, cols) / min(rows, cols))) + 200
            for k in range(n):
                recs.append(dict(op="bruker", rows=rows, cols=cols, pc=X.fixn(pc[k].tolist(), 1e8), d=angle(float(td.reshape(-1)[min(k, td.numel() - 1)])), s=angle(float(ts.reshape(-1)[min(k, ts.numel() - 1)])), deg=[int(round(float(d[k]) * 1e3)), int(round(float(s[k]) * 1e3))],
                                 axes=[X.fixn(m[k, :, c].tolist(), 1e8) for c in range(3)], tr=X.fixn((tr[k].double() / rows).tolist(), 1e8), back=X.fixn(back[k].tolist(), 1e8),
                                 tilts=X.fixn([float(b1[k]), float(b2[k])], 1e3), backtol=tol, id=data))
        ck.trace()
        if q % 40 == 0:
            ck.sample(data)
    I.judge(ck, recs, "DetectorTrace")
