"""Corrections of a scan: random histories of the real object, recorded step by
step and judged by CorrectionTrace.tla."""
import torch

from vp import fxs, quiet

SC = 10000


def record_history(ck, rng, i, EP, clahe, nlpar, steps):
    h, w = [(4, 6), (6, 4), (8, 8), (5, 7), (6, 6)][i % 5]
    shape = [(5,), (3, 4), (2, 2), (1,), (7,), ()][int(rng.integers(0, 6))]
    n = 1
    for s in shape:
        n *= s
    pats = torch.tensor(rng.uniform(0, 3, (*shape, h, w)), dtype=torch.float32)
    if i % 4 == 1:
        pats = (pats * 2).round() / 2 + 0.25
    ident = {"history": i, "shape": list(shape) + [h, w]}
    ep = EP(pats.clone())
    ops = ["background", "zeromean", "minmax", "standard", "clahe", "read", "read", "clean", "nlpar"]
    done = []
    cont = False
    for k in range(int(rng.integers(2, 7))):
        op = str(rng.choice(ops))
        if op == "nlpar" and (len(shape) != 2 or min(shape) < 2):
            continue
        if n == 1 and op == "background":
            op = "read"
        done.append(op)
        ident = dict(ident, ops=list(done))
        b = ep.patterns.reshape(n, h, w).clone()
        rec = dict(op=op, n=n, h=h, w=w, id=str(ident), cont=cont, list=[], bin=1, got=[], ref=[])
        with ck.guard(f"correction {op}", ident, 60):
            if op == "background":
                ep.subtract_overall_background()
            elif op in ("zeromean", "minmax", "standard"):
                if op == "minmax" and k % 2:
                    ep.normalize_per_pattern()
                else:
                    ep.normalize_per_pattern(op)
            elif op == "clahe":
                # domain of the contrast enhancement: 0..1
                if b.min() < 0 or b.max() > 1:
                    ep.normalize_per_pattern("minmax")
                    b = ep.patterns.reshape(n, h, w).clone()
                    rec["cont"] = False
                lim, tiles, bins = float(rng.uniform(1, 50)), int(rng.integers(1, 4)), int(rng.choice([16, 64]))
                if k % 3 == 0:
                    lim, tiles, bins = 40.0, 4, 64
                    if min(h, w) < 4:
                        continue
                    ep.contrast_enhance_clahe()
                else:
                    ep.contrast_enhance_clahe(clip_limit=lim, tile_grid_size=tiles, n_bins=bins)
                rec["ref"] = [fxs(clahe(b[q:q + 1, None].clone(), clip_limit=lim, n_bins=bins,
                                        grid_shape=(tiles, tiles)).reshape(-1), SC) for q in range(n)]
            elif op == "clean":
                if n < 2:
                    continue
                ep.standard_clean()
                r = b - b.mean(0, keepdim=True)
                def mm(x):
                    lo = x.amin((1, 2), keepdim=True)
                    return (x - lo) / (1e-4 + x.amax((1, 2), keepdim=True) - lo)
                r = mm(r)
                r = torch.cat([clahe(r[q:q + 1, None], clip_limit=40.0, n_bins=64, grid_shape=(4, 4)).reshape(1, h, w)
                               for q in range(n)])
                # a value on the edge of a histogram bin may fall either side
                r = mm(r)
                got = ep.patterns.reshape(n, h, w)
                if float((got - r).abs().max()) > 2e-4:
                    ck.count("clean_near_edge")
                rec["ref"] = [fxs(r[q].reshape(-1), SC) for q in range(n)]
            elif op == "nlpar":
                k_rad = int(rng.integers(1, 4))
                ep.do_nlpar(k_rad=k_rad, coeff=0.3)
                ref = nlpar(b.reshape(*shape, h, w), k_rad=k_rad, coeff=0.3).reshape(n, -1)
                if not torch.isfinite(ref).all():
                    return
                rec["ref"] = fxs(ref, SC)
            else:
                m = int(rng.integers(1, 5))
                lst = rng.integers(0, n, m)
                bins = [x for x in (1, 2, 3) if x <= min(h, w)]
                if k % 3 == 0:
                    bins = [x for x in bins if h % x == 0 and w % x == 0]
                rec["bin"] = int(rng.choice(bins))
                got = ep.get_patterns(torch.tensor(lst), binning=rec["bin"])
                ck.expect(tuple(got.shape) == (m, h // rec["bin"], w // rec["bin"]), "shape of the patterns read", ident)
                rec["got"] = fxs(got.reshape(m, -1), SC)
                rec["list"] = [int(x) + 1 for x in lst]
            a = ep.get_patterns(torch.arange(n), binning=1)
            rec["before"] = fxs(b.reshape(n, -1), SC)
            rec["after"] = fxs(a.reshape(n, -1), SC)
            # a pattern (nearly) without contrast has no meaningful rescaling
            if op in ("standard", "minmax", "clean") and float((b.amax((1, 2)) - b.amin((1, 2))).min()) < 0.01:
                return
            steps.append(rec)
            if not torch.isfinite(a).all() or float(a.abs().max()) > 6:
                return
            cont = True
    ck.trace()
    ck.sample(ident)


def run(ck):
    from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns as EP
    from ebsdtorch.preprocessing.clahe import clahe_grayscale
    from ebsdtorch.preprocessing.nlpar import nlpar

    steps = []
    for i in range(150 if ck.quick else 1500):
        record_history(ck, ck.numpy_rng(i), i, EP, lambda *a, **k: quiet(clahe_grayscale, *a, **k), nlpar, steps)
    ck.count("steps", len(steps))
    for lo in range(0, len(steps), 1500):
        part = steps[lo:lo + 1500]
        part[0]["cont"] = False
        ck.tlc("CorrectionTrace", dict(Scale=SC), data=dict(Steps=part), verdict=True, label="recorded histories")
