"""Gradient refinement: recorded runs judged by RefineTrace.tla."""
import numpy as np
import torch

import refine_common as RC


def sphere_master(rng, n):
    """a smooth function on the sphere, even in x and z, on the equal area square"""
    a, b = np.meshgrid(np.linspace(-1, 1, n), np.linspace(-1, 1, n))
    m = np.maximum(np.abs(a), np.abs(b))
    z = 1 - m ** 2
    with np.errstate(all="ignore"):
        th = np.where(np.abs(a) >= np.abs(b), np.where(a < 0, np.pi, 0) + np.pi / 4 * b / a, np.where(b < 0, -np.pi / 2, np.pi / 2) - np.pi / 4 * a / b)
    th = np.where(m == 0, 0, th)
    x, y = np.sqrt(1 - z ** 2) * np.cos(th), np.sqrt(1 - z ** 2) * np.sin(th)
    img = 0
    for _ in range(8):
        u = rng.normal(size=2)
        img = img + rng.uniform(0.3, 1) * np.cos(rng.uniform(2, 5) * u[0] * x) * np.cos(rng.uniform(2, 5) * u[1] * y + rng.uniform(0, 6)) * np.cos(rng.uniform(1, 4) * z)
    img = (img - img.min()) / (img.max() - img.min())
    return torch.tensor(np.concatenate([img, img], 1), dtype=torch.float32)


def run(ck):
    from ebsdtorch.ebsd.geometry import EBSDGeometry
    from ebsdtorch.ebsd.refining import orientation_grad_refinement

    rng = ck.numpy_rng(0)
    runs = []
    for i in range(48 if ck.quick else 500):
        binning = 2 if i % 4 == 3 else 1
        laues = [int(v) for v in rng.choice(RC.LAUES, 1 if i % 3 else 2, replace=False)]
        n = int(rng.integers(1, 5))
        phases = [int(v) for v in rng.integers(0, len(laues), n)]
        base, pats = RC.patterns(rng, n, (4, 4), binning)
        geom = EBSDGeometry(detector_shape=(4 * binning, 4 * binning), tilts_degrees=(0.0, float(rng.uniform(55, 75)), float(rng.uniform(-5, 10))), proj_center=tuple(float(v) for v in rng.uniform((0.3, 0.2, 0.3), (0.7, 0.8, 0.6))))
        half = i % 5 == 4
        niter, batch, lr = int(rng.integers(1, 12)), int(rng.choice([1, 2, 3, 100])), float(rng.choice([1e-3, 1e-2, 0.03]))
        niter = min(niter, 4) if lr > 0.02 else niter
        ident = dict(run=i, laues=laues, phases=phases, rounds=niter, batch=batch, binning=binning, half=half, rate=lr)
        log = []
        with ck.guard("gradient refinement", ident, 60):
            ep, q = RC.scan(rng, pats, phases, len(laues), apart=True)
            mps = [RC.probe(l, j, 1, log, None)(sphere_master(rng, 64), laue_group=l) for j, l in enumerate(laues)]
            kw = {}
            if lr != 1e-3 or i % 2:
                kw["learning_rate"] = lr
            if not half or i % 2:
                kw["match_dtype"] = torch.float16 if half else torch.float32
            RC.quiet(orientation_grad_refinement, mps if len(mps) > 1 or i % 2 else mps[0], geom, ep, batch_size=batch, virtual_binning=binning, n_iter=niter, **kw)
            d = geom.get_coords_sample_frame(binning=(binning, binning)).detach().view(-1, 3).double().numpy()
            d = d / np.linalg.norm(d, axis=-1, keepdims=True)
            new = dict(op="new", kind="grad", id=ident, cur=[RC.fx8(RC.qmat(v)) for v in q.double()], exps=[[int(v) for v in b.reshape(-1)] for b in base], phase=phases, laue=[laues[p] for p in phases],
                       slack=300000 if half else 1500, niter=niter, half=half, simscale=1e6, climbs=lr < 2e-3 and not half and binning == 1)
            ev = RC.events(new, log, d, ep)
            ck.expect(ev is not None, "patterns are simulated along the rotated detector rays", ident)
            ck.expect(torch.equal(ep.patterns, pats), "refinement leaves the patterns as they were", ident)
            ck.expect([int(v) for v in ep.phases] == phases, "refinement leaves the phases as they were", ident)
            if ev:
                runs.append(ev)
        ck.trace()
        if i % 20 == 0:
            ck.sample(ident)
    RC.judge(ck, runs)
