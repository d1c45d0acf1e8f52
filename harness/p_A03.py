"""PCA-compressed dictionary indexing: same loops and judgement as A02, over
scores in the leading principal subspace of the (zero mean) dictionary."""
import numpy as np
import torch

from index_common import quiet, score_matrix
from p_A02 import build, prepare, record, scenario


def run(ck):
    from ebsdtorch.ebsd.indexing import pca_dictionary_index_orientations
    from ebsdtorch.s2_and_so3.laue_fz_ori import sample_ori_fz_laue_angle

    runs = []
    n = 50 if ck.quick else 500
    for i in range(n):
        rng = ck.numpy_rng(1000 + i)
        sc = scenario(ck, rng, i, pca=True)
        if sc["dtype"] == torch.float16:
            sc["dtype"] = torch.float32
        if i % 3 == 0:
            sc["laues"] = sc["laues"][:1]
        desc = {k: str(v) for k, v in sc.items()}
        with ck.guard("PCA dictionary indexing", {"run": i, **desc}, 120):
            geom, mps, deg, dicts, pats, mask, ep = build(rng, sc)
            learn = deg if i % 2 else deg * 0.8
            subs, keep = [], None
            # subspaces: from the dictionary of the learning resolution
            specs = []
            for mp, d in zip(mps, dicts):
                ld = d if learn == deg else sample_ori_fz_laue_angle(
                    mp.laue_group, learn, torch.device("cpu"), permute=False).double().numpy()
                _, s = prepare(sc, mp, geom, ld, pats, mask)
                c = np.cov(s.T) if len(s) > 1 else np.zeros((s.shape[1],) * 2)
                w, v = np.linalg.eigh(c)
                specs.append((w, v))
            m = len(specs[0][0])
            # number of components with a clear gap below in every phase
            cand = [k for k in range(1, m) if all(
                (w[-k] - w[-k - 1]) > 0.15 * w[-k] and w[-k] > 1e-4 * w[-1] for w, _ in specs)]
            if i % 4 == 0 or not cand:
                k = m
            else:
                k = int(rng.choice(cand))
            desc.update(components=k, of=m, deg=deg, learn=learn)
            quiet(pca_dictionary_index_orientations, mps if len(mps) > 1 or i % 2 else mps[0], geom, ep,
                  n_pca_components=k, signal_mask=mask, subtract_exp_pat_mean=sc["subtract"],
                  experiment_chunk_size=sc["qchunk"], dictionary_resolution_learn_deg=learn,
                  dictionary_resolution_index_deg=deg, dictionary_chunk_size=sc["dchunk"],
                  virtual_binning=sc["binning"], top_k_matches=sc["k"], distance_metric=sc["metric"],
                  match_dtype=sc["dtype"], quantized_via_ao=False)
            mats = []
            for mp, d, (w, v) in zip(mps, dicts, specs):
                e, s = prepare(sc, mp, geom, d, pats, mask)
                p = v[:, -k:]
                mats.append(score_matrix(sc["metric"], e @ p, s @ p))
            rec = record(sc, ep, dicts, mats, {"run": i, **desc}, 3000)
            slack = 1 + int(2e-3 * max(abs(x).max() for x in mats) * 3000)
            rec["tol"] += slack
            rec["mtol"] += slack
            runs.append(rec)
            ck.sample({"run": i, **desc})
    ck.tlc("IndexRun", data=dict(Runs=runs), invariants=["LoopsAreExhaustive"], verdict=True,
           label="recorded runs", timeout=800)
    ck.trace(len(runs))
