"""Projection of deformed crystals, judged by DetectorTrace.tla."""
import numpy as np
import torch

import crystal_common as X
import image_common as I
from index_common import smooth_master
from p_D09 import angle


def run(ck):
    from ebsdtorch.ebsd.geometry import EBSDGeometry, bruker_geometry_to_SE3
    from ebsdtorch.ebsd.master_pattern import MasterPattern
    from ebsdtorch.ebsd.project_hrebsd import hrebsd_coords, project_hrebsd
    from ebsdtorch.lie_algebra.se3 import se3_log_map_split
    from ebsdtorch.s2_and_so3.quaternions import qu_apply

    rng = ck.numpy_rng(0)
    recs = []
    cpu = torch.device("cpu")
    masters = [MasterPattern(smooth_master(rng), laue_group=g) for g in (11, 5)]
    for q in range(110 if ck.quick else 2500):
        b = int(rng.choice([1, 1, 2, 3, 4]))
        h, w = (int(rng.integers(2, 8 if ck.quick else 14)) for _ in range(2))
        rows, cols = h * b, w * b
        n = int(rng.integers(1, 4))
        qs = rng.normal(size=(n, 4))
        qs /= np.linalg.norm(qs, axis=-1, keepdims=True)
        F = np.eye(3) + rng.uniform(-0.2, 0.2, (n, 3, 3)) * (q % 4 != 0)
        bruker = bool(q % 2)
        pc = np.round(rng.uniform(0.2, 0.8, (n, 3)), 4)
        tilts = [float(np.round(v, 2)) for v in (rng.uniform(-15, 15), rng.uniform(-80, -20))]
        dtype = [torch.float32, torch.float64][int(rng.integers(0, 2))]
        T = lambda a: torch.tensor(np.asarray(a), dtype=dtype)
        mask = [1] * 6 if bruker else [int(v) for v in rng.integers(0, 2, 6)]
        data = {"shape": [rows, cols], "binning": b, "orientations": qs.tolist(), "inverse deformation": F.tolist(), "mask": mask, "dtype": str(dtype)}
        with ck.guard("deformed crystals", data, 30):
            if bruker:
                R, tr = bruker_geometry_to_SE3(T(pc), T([tilts[1]] * n), T([tilts[0]] * n), (rows, cols))
                vec = se3_log_map_split(R, tr)
                data |= {"pattern centers": pc.tolist(), "tilts": tilts}
                v = np.zeros((n, 6))
            else:
                v = np.round(rng.uniform(-0.5, 0.5, (n, 6)), 4)
                # the source is in front of the detector
                mask[5] = 1
                v[:, 5] = np.round(rng.uniform(0.6, 1.5, n), 4) * rng.choice([-1, 1], n)
                vec = T(v * np.array([1, 1, 1, rows, rows, rows]))
                data |= {"motion": v.tolist()}
            c = hrebsd_coords(T(mask), vec, T(qs), T(F), (rows, cols), b, cpu, dtype)
            if ck.expect(tuple(c.shape) == (n, h * w, 3), "one direction per pattern and binned pixel", data):
                for k in range(n):
                    recs.append(dict(op="strain", bruker=bruker, rows=rows, cols=cols, bin=[b, b], pc=X.fixn(pc[k].tolist(), 1e8), d=angle(tilts[1]), s=angle(tilts[0]), first=mask, sets=[],
                                     se3=X.fixn(v[k].tolist(), 1e8), q=X.fixn(qs[k].tolist(), 1e8), finv=[X.fixn(r, 1e8) for r in F[k].tolist()],
                                     got=[X.fixn(r, 1e8) for r in c[k].double().tolist()], id=dict(data, pattern=k)))
            for bad in (k for k in range(2, 9) if rows % k or cols % k):
                try:
                    hrebsd_coords(T(mask), vec, T(qs), T(F), (rows, cols), bad, cpu, dtype)
                    ck.expect(False, "binnings that do not divide the detector are refused", data | {"refused": bad})
                except Exception as e:
                    ck.expect("divide" in str(e), "binnings that do not divide the detector are refused", data | {"error": str(e)[:300]})
            # without deformation: as by the geometry of the detector
            if bruker:
                mp = masters[q % 2].to(dtype)
                I3 = torch.eye(3, dtype=dtype).repeat(n, 1, 1)
                a = project_hrebsd(mp, hrebsd_coords(T(mask), vec, T(qs), I3, (rows, cols), b, cpu, dtype))
                fx = lambda a: X.fixn(a.detach().double().reshape(-1).tolist(), 1e6)
                for k in range(n):
                    g = EBSDGeometry((rows, cols), tilts_degrees=(tilts[0], 0.0, tilts[1]), proj_center=tuple(pc[k].tolist()))
                    d = g.get_coords_sample_frame((b, b)).detach().to(dtype)
                    d = qu_apply(T(qs[k])[None], d / d.norm(dim=-1, keepdim=True))
                    ref = mp.interpolate(d, mode="bilinear", padding_mode="border", align_corners=False, normalize_coords=False, virtual_binning=1)
                    recs.append(dict(op="alike", what="without deformation the pattern is that of the detector", a=fx(a[k]), b=fx(ref), tol=3000, id=dict(data, pattern=k)))
        ck.trace()
        if q % 40 == 0:
            ck.sample(data)
    I.judge(ck, recs, "DetectorTrace")
