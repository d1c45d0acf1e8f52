"""Dictionary indexing finds the exhaustive best matches, whatever the chunk
sizes: real runs are recorded and judged by IndexRun.tla, which walks the same
loops over the score matrix."""
import numpy as np
import torch

from index_common import Lookup, bin_patterns, fxs, quiet, score_matrix, simulate, smooth_master


def scenario(ck, rng, i, pca=False):
    metric = ["angular", "euclidean", "manhattan"][i % 3] if not pca else ["angular", "euclidean"][i % 2]
    laues = [[11], [9, 11], [11, 9, 10], [7], [5]][i % 5]
    binning = 2 if i % 4 == 3 else 1
    h, w = [(6, 8), (8, 6), (7, 5), (8, 8)][i % 4]
    nq = int(rng.integers(1, 14))
    return dict(metric=metric, laues=laues, binning=binning, shape=(h, w), nq=nq,
                k=int(rng.integers(1, 5)),
                dchunk=int(rng.choice([1, 3, 7, 20, 33, 64, 500])) if i % 7 else 2,
                qchunk=int(rng.choice([1, 2, 5, nq, nq + 1, 256])),
                mask=bool(rng.integers(0, 2)), subtract=bool(rng.integers(0, 4)),
                dtype=[torch.float32, torch.float32, torch.float64, torch.float16][int(rng.integers(0, 4))],
                deg={11: 11.0, 10: 14.0, 9: 13.0, 7: 16.0, 5: 17.0})


def build(rng, sc):
    from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
    from ebsdtorch.ebsd.geometry import EBSDGeometry
    from ebsdtorch.ebsd.master_pattern import MasterPattern
    from ebsdtorch.s2_and_so3.laue_fz_ori import sample_ori_fz_laue_angle

    geom = EBSDGeometry(detector_shape=sc["shape"], tilts_degrees=(0.0, float(rng.uniform(55, 75)), float(rng.uniform(-5, 10))),
                        proj_center=tuple(float(v) for v in rng.uniform((0.4, 0.2, 0.4), (0.6, 0.8, 0.8))))
    mps = [MasterPattern(smooth_master(rng, 32), laue_group=l) for l in sc["laues"]]
    deg = max(sc["deg"][l] for l in sc["laues"])
    dicts = [sample_ori_fz_laue_angle(l, deg, torch.device("cpu"), permute=False).double().numpy() for l in sc["laues"]]
    # patterns simulated from random entries of random phases, with noise
    pats = []
    for j in range(sc["nq"]):
        p = int(rng.integers(len(mps)))
        q = dicts[p][int(rng.integers(len(dicts[p])))][None]
        s = simulate(mps[p], geom, q, 1)[0].reshape(sc["shape"])
        pats.append(s * rng.uniform(0.5, 1.5) + rng.normal(0, 0.05, sc["shape"]) + rng.uniform(0, 0.5))
    pats = torch.tensor(np.array(pats), dtype=torch.float32)
    mask = None
    if sc["mask"]:
        hb, wb = sc["shape"][0] // sc["binning"], sc["shape"][1] // sc["binning"]
        mask = torch.tensor(rng.uniform(size=(hb, wb)) < 0.7)
        mask[0, 0] = mask[-1, -1] = mask[0, -1] = True
    return geom, mps, deg, dicts, pats, mask, ExperimentPatterns(pats.clone())


def prepare(sc, mp, geom, d, pats, mask):
    sim = simulate(mp, geom, d, sc["binning"])
    exp = bin_patterns(pats.double().numpy(), sc["binning"]).reshape(len(pats), -1)
    if mask is not None:
        sim, exp = sim[:, mask.flatten().numpy()], exp[:, mask.flatten().numpy()]
    sim = sim - sim.mean(1, keepdims=True)
    if sc["subtract"]:
        exp = exp - exp.mean(1, keepdims=True)
    return exp, sim


def record(sc, exppats, dicts, mats, ident, scale):
    lk = [Lookup(d) for d in dicts]
    raw = exppats.raw_indexing_results
    half = sc["dtype"] == torch.float16
    top = max(abs(m).max() for m in mats)
    rel = 0.012 if half else 2e-4
    ph = [int(v) + 1 for v in exppats.phases]
    ori = exppats.get_orientations().double().numpy()
    return dict(id=ident, nq=sc["nq"], k=sc["k"], dchunk=sc["dchunk"], qchunk=sc["qchunk"],
                big=sc["metric"] == "angular", tol=int(rel * top * scale) + 2,
                mtol=int((rel + 1e-4) * top * scale) + 2,
                scores=[fxs(m, scale) for m in mats],
                idx=[[[lk[p](q) for q in row] for row in raw[p][0].double().numpy()] for p in range(len(dicts))],
                met=[fxs(raw[p][1], scale) for p in range(len(dicts))],
                phase=ph,
                best=[lk[p - 1](q) if 1 <= p <= len(lk) else 0 for p, q in zip(ph, ori)],
                bestmet=fxs(exppats.best_metrics, scale))


def run(ck):
    from ebsdtorch.ebsd.indexing import dictionary_index_orientations

    runs = []
    n = 60 if ck.quick else 600
    for i in range(n):
        rng = ck.numpy_rng(i)
        sc = scenario(ck, rng, i)
        desc = {k: str(v) for k, v in sc.items()}
        with ck.guard("dictionary indexing", {"run": i, **desc}, 120):
            geom, mps, deg, dicts, pats, mask, ep = build(rng, sc)
            desc["deg"] = deg
            quiet(dictionary_index_orientations, mps if len(mps) > 1 or i % 2 else mps[0], geom, ep,
                  signal_mask=mask, subtract_exp_pat_mean=sc["subtract"],
                  experiment_chunk_size=sc["qchunk"], dictionary_resolution_degrees=deg,
                  dictionary_chunk_size=sc["dchunk"], virtual_binning=sc["binning"],
                  top_k_matches=sc["k"], distance_metric=sc["metric"],
                  match_dtype=sc["dtype"], quantized_if_x86=False)
            mats = []
            for mp, d in zip(mps, dicts):
                e, s = prepare(sc, mp, geom, d, pats, mask)
                mats.append(score_matrix(sc["metric"], e, s))
            runs.append(record(sc, ep, dicts, mats, {"run": i, **desc}, 3000))
            ck.sample({"run": i, **desc})
            ck.expect(torch.equal(ep.patterns, pats), "indexing leaves the patterns as they were", desc)
    r = ck.tlc("IndexRun", data=dict(Runs=runs), invariants=["LoopsAreExhaustive"], verdict=True,
               label="recorded runs", timeout=800)
    ck.expect(True, "", {})
    ck.trace(len(runs))
