"""Grid refinement: recorded runs judged by RefineTrace.tla."""
import numpy as np
import torch

import refine_common as RC


def run(ck):
    from ebsdtorch.ebsd.geometry import EBSDGeometry
    from ebsdtorch.ebsd.refining import get_local_orientation_grid, orientation_grid_refinement

    rng = ck.numpy_rng(0)
    runs = []
    for i in range(64 if ck.quick else 700):
        binning = 2 if i % 4 == 3 else 1
        k, dim = [(1, 3), (1, 1), (1, 2), (2, 1), (1, 3), (2, 2)][i % 6]
        if k == 2 and dim == 2 and ck.quick and i > 12:
            dim = 1
        group = {(1, 3): 27, (1, 1): 7, (1, 2): 19, (2, 1): 13, (2, 2): 61}[k, dim]
        laues = [int(v) for v in rng.choice(RC.LAUES, 1 if i % 3 else 2, replace=False)]
        n = int(rng.integers(1, 6))
        phases = [int(v) for v in rng.integers(0, len(laues), n)]
        base, pats = RC.patterns(rng, n, (4, 4), binning)
        geom = EBSDGeometry(detector_shape=(4 * binning, 4 * binning), tilts_degrees=(0.0, float(rng.uniform(55, 75)), float(rng.uniform(-5, 10))), proj_center=tuple(float(v) for v in rng.uniform((0.3, 0.2, 0.3), (0.7, 0.8, 0.6))))
        half = i % 5 == 4
        semi, shrink, niter, batch = int(rng.integers(100, 800) if i % 3 else rng.integers(4, 100)), [0.5, 0.25, 0.75, 1.0][int(rng.integers(0, 4))], int(rng.integers(1, 5)), int(rng.choice([1, 2, 3, 100]))
        ident = dict(run=i, laues=laues, phases=phases, semi=semi, kernel=k, dim=dim, shrink=shrink, rounds=niter, batch=batch, binning=binning, half=half)
        log = []
        c = torch.tensor(rng.normal(size=(16, 3)), dtype=torch.float32)
        c = c / c.norm(dim=-1, keepdim=True)
        gain = float(rng.choice([3.0, 20.0, 200.0]))
        sims = lambda rays: (gain * (rays * c).sum(-1)).round().clamp(-20, 20)
        with ck.guard("grid refinement", ident, 60):
            ep, q = RC.scan(rng, pats, phases, len(laues))
            mps = [RC.probe(l, j, group, log, sims)(torch.rand(8, 16), laue_group=l) for j, l in enumerate(laues)]
            kw = {}
            if shrink != 0.5 or i % 2:
                kw["shrink_factor"] = shrink
            if k != 1 or i % 2:
                kw["kernel_radius_in_steps"] = k
            if dim != 3 or i % 2:
                kw["axial_grid_dimension"] = dim
            if niter != 3 or i % 2:
                kw["n_iter"] = niter
            if not half or i % 2:
                kw["match_dtype"] = torch.float16 if half else torch.float32
            scores = RC.quiet(orientation_grid_refinement, mps if len(mps) > 1 or i % 2 else mps[0], geom, ep, grid_semi_edge_in_degrees=semi / 100, batch_size=batch, virtual_binning=binning, **kw)
            d = geom.get_coords_sample_frame(binning=(binning, binning)).detach().view(-1, 3).double().numpy()
            d = d / np.linalg.norm(d, axis=-1, keepdims=True)
            new = dict(op="new", kind="grid", id=ident, cur=[RC.fx8(RC.qmat(v)) for v in q.double()], exps=[[int(v) for v in b.reshape(-1)] for b in base], phase=phases, laue=[laues[p] for p in phases],
                       semi=semi, k=k, dim=dim, shrink=int(shrink * 1e8), niter=niter, half=half, simscale=1)
            ev = RC.events(new, log, d, ep, scores)
            ck.expect(ev is not None, "patterns are simulated along the rotated detector rays", ident)
            ck.expect(torch.equal(ep.patterns, pats), "refinement leaves the patterns as they were", ident)
            ck.expect([int(v) for v in ep.phases] == phases, "refinement leaves the phases as they were", ident)
            if ev:
                runs.append(ev)
        ck.trace()
        if i % 20 == 0:
            ck.sample(ident)
    for bad in (0, 4):
        try:
            get_local_orientation_grid(1.0, 1, bad)
            ck.expect(False, "unknown grids are refused", {"dimension": bad})
        except Exception:
            pass
    RC.judge(ck, runs)
