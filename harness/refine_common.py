"""Recorded refinement runs for RefineTrace.tla. The master pattern handed to the
refinement is a probe: a MasterPattern whose lookups are recorded."""
import contextlib
import io
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import torch

import crystal_common as X

LAUES = (1, 2, 3, 4, 5, 10, 11)


def fx8(m):
    return X.fixn(list(np.asarray(m, float).reshape(-1)), 1e8)


def rotations(d, rays):
    """rotation matrices taking the unit rays d (P, 3) to rays (N, P, 3)"""
    sol, *_ = np.linalg.lstsq(d, np.moveaxis(rays, 1, 0).reshape(len(d), -1), rcond=None)
    return np.transpose(sol.reshape(3, len(rays), 3), (1, 2, 0))          # rays[n,p] = R[n] d[p]


def qmat(q):
    w, x, y, z = [float(v) for v in q]
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def probe(laue, phase, group, log, sims):
    """sims(rays) gives the patterns; None: those of the master pattern itself"""
    from ebsdtorch.ebsd.master_pattern import MasterPattern

    class Probe(MasterPattern):
        def interpolate(self, coords_3D, *a, **kw):
            c = coords_3D.detach().double().numpy()
            out = super().interpolate(coords_3D, *a, **kw) if sims is None else sims(coords_3D)
            p = c.shape[-2]
            log.append(dict(phase=phase, laue=laue, rays=c.reshape(-1, group, p, 3), sims=out.detach().double().numpy().reshape(-1, group, p), binning=kw.get("virtual_binning")))
            return out
    return Probe


def patterns(rng, n, shape, binning):
    h, w = shape[0] * binning, shape[1] * binning
    base = torch.tensor(rng.integers(0, 31, (n, *shape)), dtype=torch.float32)
    return base, base.repeat_interleave(binning, 1).repeat_interleave(binning, 2)


def scan(rng, pats, phases, nphase, apart=False):
    """experiment patterns of the given phases at random orientations"""
    from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns

    n = len(pats)
    ep = ExperimentPatterns(pats.clone())
    q = torch.tensor(rng.normal(size=(n, 4)))
    # orientations far apart: the walks of different patterns are told apart
    while apart and n > 1:
        u = q / q.norm(dim=-1, keepdim=True)
        if float(((u @ u.T).abs() - torch.eye(n)).max()) < 0.8:
            break
        q = torch.tensor(rng.normal(size=(n, 4)))
    q = (q / q.norm(dim=-1, keepdim=True) * torch.where(q[:, :1] < 0, -1, 1)).float()
    for i in range(nphase):
        ep.set_raw_indexing_results(q[:, None, :].clone(), torch.tensor([[1.0 if p == i else 0.0] for p in phases]), i)
    ep.combine_indexing_results(higher_is_better=True)
    return ep, q


def events(new, log, d, ep, scores=None):
    ev = [new]
    for e in log:
        if not (np.isfinite(e["rays"]).all() and np.isfinite(e["sims"]).all()):
            return None
        rows = []
        for rays, sims in zip(e["rays"], e["sims"]):
            R = rotations(d, rays)
            rows.append(dict(phase=e["phase"], laue=e["laue"], cands=[fx8(r) for r in R], sims=[[int(round(v * new["simscale"])) for v in s] for s in sims],
                             off=max(float(np.abs(rays - np.einsum("nij,pj->npi", R, d)).max()), 0.0)))
        ev.append(dict(op="score", rows=[{k: v for k, v in r.items() if k != "off"} for r in rows]))
        if rows and max(r["off"] for r in rows) > 2e-6:
            return None
    # returned scores of each pattern by its own phase, times the number of pixels
    got = [] if scores is None else [[int(round(float(v) * len(d))) for v in scores[ph][p]] for p, ph in enumerate(new["phase"])]
    ev.append(dict(op="end", final=[fx8(qmat(q)) for q in ep.get_orientations().double()], scores=got, front=[bool(q[0] >= -1e-6) for q in ep.get_orientations().double()]))
    return ev


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def judge(ck, runs, n=8):
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: ck.tlc("RefineTrace", data=dict(Samples=sum(runs[j::n], [])), invariants=["Judged"], verdict=True, timeout=1500, label=f"runs {j}") if runs[j::n] else None, range(n)))
