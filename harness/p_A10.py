"""Streaming covariance: schedules of StreamSchedule.tla replayed, recorded streams judged by PcaStream.tla."""
import torch

import crystal_common as X
import pca_common as P


def run(ck):
    from ebsdtorch.utils.pca_covmat import OnlineCovMatrix

    rng = ck.numpy_rng(0)
    D = torch.float64
    recs = []
    cases = P.schedules(ck, 6) + [None] * (150 if ck.quick else 3000)
    for q, c in enumerate(cases):
        f = int(rng.integers(1, 6))
        n = 6 if c else int(rng.integers(2, 13))
        x = torch.tensor(rng.integers(-9, 10, (n, f)), dtype=D)
        if rng.integers(0, 4) == 0 and f > 1:
            x[:, 1] = x[:, 0] * (1 if rng.integers(0, 2) else -1)
        if c:
            x = x.roll(c["start"], 0)
            cuts = c["cuts"]
        else:
            cuts, left = [], n
            while left:
                cuts.append(int(rng.integers(1, left + 1)))
                left -= cuts[-1]
        offset = [0, 0, 100, 1000, -3000, 12000][int(rng.integers(0, 6))]
        kinds = [(D, D, D), (D, D, torch.float32), (torch.float32, torch.float32, torch.float32), (torch.float32, D, D)]
        xt, ct, dt = kinds[int(rng.integers(0, 4))]
        # in single precision the means are rounded in proportion to the offset
        loose = 0 if (xt, ct, dt) == (D, D, D) else 3 + abs(offset) // 50
        corr = bool(rng.integers(0, 3) == 0)
        ident = {"samples": x.tolist(), "batches": cuts, "offset": offset, "types": [str(t) for t in (xt, ct, dt)], "correlation": corr}
        ev = [dict(model="cov", op="new", f=f)]
        with ck.guard("streaming covariance", ident, 30):
            default = (xt, ct, dt) == kinds[2] and rng.integers(0, 2)
            kw = {} if default else dict(covmat_dtype=ct, delta_dtype=dt)
            if corr or rng.integers(0, 2):
                kw["correlation"] = corr
            m = OnlineCovMatrix(f, **kw)
            at = 0
            for b in cuts:
                rows = x[at:at + b]
                at += b
                feed = (rows + offset).to(xt)
                keep = feed.clone()
                m(feed)
                ck.expect(torch.equal(keep, feed), "samples are not modified", ident)
                e = dict(model="cov", op="feed", f=f, x=[[int(v) for v in r] for r in rows], cov=[], corr=corr, loose=loose, vec=[])
                if at >= 2:
                    cov = m.get_covmat()
                    ck.expect(cov.dtype == ct and cov.shape == (f, f), "shape and type of the covariance", ident)
                    again = m.get_covmat()
                    ck.expect(torch.equal(torch.nan_to_num(cov), torch.nan_to_num(again)), "reading does not change the state", ident)
                    e["cov"] = P.fx(cov, 1e8 if corr else 1e4)
                    if not corr and rng.integers(0, 2):
                        v = m.get_eigenvectors()
                        e["vec"] = P.fx(v) if v.shape == (f, f) else []
                        ck.expect(v.shape == (f, f), "shape of the eigenvectors", ident)
                ev.append(e)
        recs.append(ev)
        ck.trace()
        if q % 50 == 0:
            ck.sample(ident)
    P.judge(ck, recs)
