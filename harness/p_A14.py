"""Pattern center search: recorded runs judged by FitRun.tla over independently
computed scores."""
import contextlib
import io
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import torch

from index_common import Lookup, rot, smooth_master


def rays(rows, cols, b, pc, tilt, second):
    """unit vectors (float64) from the source to the binned pixels, sample frame"""
    d, s = np.deg2rad(-tilt), np.deg2rad(second)
    down, along, out = np.array([-np.sin(d), 0, -np.cos(d)]), np.array([0, 1.0, 0]), np.array([np.cos(d), 0, -np.sin(d)])
    right, normal = np.cos(s) * along - np.sin(s) * out, np.sin(s) * along + np.cos(s) * out
    i = (np.arange(rows // b) * b + (b - 1) / 2 + 0.5 - pc[1] * rows)[:, None, None]
    j = (np.arange(cols // b) * b + (b - 1) / 2 + 0.5 - pc[0] * cols)[None, :, None]
    v = (i * down + j * right + pc[2] * rows * normal).reshape(-1, 3)
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def run(ck):
    from ebsdtorch.ebsd.fitting import spatial_fft_pc_fitter
    from ebsdtorch.ebsd.master_pattern import MasterPattern
    from ebsdtorch.s2_and_so3.laue_fz_ori import sample_ori_fz_laue_angle

    rng = ck.numpy_rng(0)
    runs = []
    for q in range(32 if ck.quick else 400):
        laue = [11, 11, 9, 10, 5][q % 5]
        res = {11: 24.0, 10: 34.0, 9: 34.0, 5: 34.0}[laue] - (0 if ck.quick else float(rng.integers(0, 5)))
        b = [1, 1, 2][int(rng.integers(0, 3))]
        h, w = (int(v) for v in rng.integers(5, 11, 2))
        rows, cols = h * b, w * b
        pad = [int(v) for v in rng.integers(0, 4, 4)]  # cells below and above, x then y
        cell = lambda k: (k + 0.3)
        lim = dict(pc_x_min=0.5 - cell(pad[0]) / w, pc_x_max=0.5 + cell(pad[1]) / w, pc_y_min=0.5 - cell(pad[2]) / h, pc_y_max=0.5 + cell(pad[3]) / h)
        nz = int(rng.integers(1, 4))
        z0, z1 = (0.4, 0.7) if nz > 1 else (0.5, 0.5)
        zs = np.linspace(z0, z1, nz)
        tilt, second = (70.0, 0.0) if q % 3 else (float(rng.integers(60, 76)), float(rng.integers(-8, 9)))
        nb = int(rng.integers(1, 4))
        mp = MasterPattern(smooth_master(rng, 36), laue_group=laue)
        quats = sample_ori_fz_laue_angle(laue_id=laue, angular_resolution_deg=res, device=torch.device("cpu"))
        D = quats.double().numpy()
        shifts = [(sy, sx) for sy in range(-pad[3], pad[2] + 1) for sx in range(-pad[1], pad[0] + 1)]
        data = {"shape": [rows, cols], "binning": b, "limits": lim, "depths": zs.tolist(), "tilts": [tilt, second], "patterns": nb, "laue": laue, "dictionary": len(D), "resolution": res}
        sim = np.zeros((nz, len(shifts), len(D), h * w))
        for k, z in enumerate(zs):
            for c, (sy, sx) in enumerate(shifts):
                v = rot(D, rays(rows, cols, b, (0.5 - sx / w, 0.5 - sy / h, z), tilt, second))
                sim[k, c] = mp.interpolate(torch.tensor(v, dtype=torch.float32), virtual_binning=b).reshape(len(D), -1).double().numpy()
        # patterns: near one of the search, with noise, or anything
        kind = q % 4
        k, c = int(rng.integers(0, nz)), int(rng.integers(0, len(shifts)))
        pats = np.stack([sim[k, c, int(rng.integers(0, len(D)))] for _ in range(nb)])
        pats = pats + rng.normal(0, [0.0, 0.05, 0.3, 3.0][kind], pats.shape)
        if kind == 3 and nb > 1:
            pats[0] *= -1
        pats = np.repeat(np.repeat(pats.reshape(nb, h, w), b, 1), b, 2)
        tp = torch.tensor(pats, dtype=torch.float32).reshape(nb, 1, rows, cols) * float(rng.integers(1, 200)) + float(rng.integers(-5, 50))
        x = tp.double().numpy().reshape(nb, h, b, w, b).mean((2, 4)).reshape(nb, -1)
        x = (x - x.min(1, keepdims=True)) / (x.max(1, keepdims=True) - x.min(1, keepdims=True))
        x = x - x.mean(1, keepdims=True)
        batch = int(rng.integers(1, len(D) + 10)) if q % 3 else max(1, len(D) // 3)
        batch = max(batch, len(D) // 12)
        data["batch"] = batch
        with ck.guard("pattern center search", data, 120):
            keep = tp.clone()
            kw = {}
            if tilt != 70.0 or q % 2:
                kw.update(primary_tilt_deg=tilt)
            if second != 0.0 or q % 2:
                kw.update(secondary_tilt_deg=second)
            if b > 1 or q % 2:
                kw.update(virtual_binning=b)
            if q % 2:
                kw.update(metric="dot")
            with contextlib.redirect_stdout(io.StringIO()):
                pc, oq = spatial_fft_pc_fitter(mp, tp, **lim, pc_z_min=z0, pc_z_max=z1, pc_z_steps=nz, dictionary_resolution_deg=res, dictionary_indexing_batch_size=batch, **kw)
            ck.expect(torch.equal(tp, keep), "the patterns are left as they were", data)
            if ck.expect(pc.shape == (3,) and oq.shape == (nb, 4), "one pattern center and an orientation per pattern", data):
                s = np.einsum("bp,zcdp->zcbd", x, sim)
                p = [float(v) for v in pc]
                sx, sy = (0.5 - p[0]) * w, (0.5 - p[1]) * h
                at = (round(sy), round(sx))
                iz = int(np.argmin(np.abs(zs - p[2])))
                on = abs(sx - at[1]) < 1e-3 and abs(sy - at[0]) < 1e-3
                look = Lookup(D)
                runs.append(dict(scores=np.rint(s * 1e6).astype(int).tolist(), batch=batch, tol=3000, z=iz + 1 if abs(zs[iz] - p[2]) < 1e-4 else 0,
                                 cell=shifts.index(at) + 1 if on and at in shifts else 0, ori=[look(o) for o in oq.double().numpy()], id=dict(data, pc=str(p))))
        ck.trace()
        if q % 10 == 0:
            ck.sample(data)
    for bad in (torch.rand(4, 4), torch.rand(1, 2, 4, 4)):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                spatial_fft_pc_fitter(mp, bad, dictionary_resolution_deg=40.0)
            ck.expect(False, "patterns of another shape are refused", {})
        except Exception:
            pass
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: ck.tlc("FitRun", data=dict(Runs=runs[j::8]), invariants=["BatchesAreExhaustive", "Judged"], verdict=True, timeout=1500, label=f"runs {j}") if runs[j::8] else None, range(8)))
