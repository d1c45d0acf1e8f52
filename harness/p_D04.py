"""Blur and downsampling of images judged by ImageTrace.tla."""
import torch

import crystal_common as X
import image_common as I


def rows(m):
    return [X.fixn(r, 1e8) for r in m.double().tolist()]


def run(ck):
    from ebsdtorch.preprocessing.resampling import BlurAndDownsample, GaussianBlur2d

    rng = ck.numpy_rng(0)
    recs = []
    for q in range(160 if ck.quick else 2500):
        z = int(rng.integers(1, 5))
        s = int(rng.integers(20, 220))
        if q % 6 == 0:  # exactly at a size at which the kernel grows by a pixel
            s = int(rng.integers(0, 2)) * 100 + 50 if z != 2 else 25 * (2 * int(rng.integers(0, 4)) + 1)
            z = z if z < 4 else 3
        else:  # or clear of them
            while (2 * z * s + 100) % 200 < 4 or (2 * z * s + 100) % 200 > 196:
                s += 1
        r = (2 * z * s + 100) // 200
        h, w = (int(v) for v in rng.integers(r + 2, r + 9, 2))
        b = int(rng.integers(1, 4))
        mirror = bool(rng.integers(0, 3))
        x = torch.tensor(rng.integers(0, 10, (b, 1, h, w)), dtype=torch.float32)
        data = {"sigma": s / 100, "cutoff": z, "shape": [b, h, w], "mirror": mirror}
        with ck.guard("Gaussian blur", data, 30):
            kw = {}
            if z != 3 or q % 2:
                kw["z_score_cutoff"] = z
            if not mirror or q % 2:
                kw["reflect_padding"] = mirror
            keep = x.clone()
            y = GaussianBlur2d(s / 100, **kw)(x)
            ck.expect(y.shape == x.shape and torch.equal(x, keep), "shape kept, image left as it was", data)
            if y.shape == x.shape:
                for i in range(b):
                    recs.append(dict(op="blur", x=[[int(v) for v in a] for a in x[i, 0]], s=3 * s, z=z, mirror=mirror, got=rows(y[i, 0]), id=q))
        ck.trace()
    for q in range(160 if ck.quick else 2500):
        scale = [200, 200, 300, 400, 125, 175, 220, 310, 150, 450][int(rng.integers(0, 10))]
        r = int(scale / 100 + 0.5)
        h, w = (int(v) for v in rng.integers(max(r + 2, scale // 100 + 1), r + 12, 2))
        b = int(rng.integers(1, 3))
        mode = ["bicubic", "bicubic", "bilinear", "nearest"][int(rng.integers(0, 4))]
        corners = bool(rng.integers(0, 2)) and mode != "nearest"
        x = torch.tensor(rng.integers(0, 10, (b, 1, h, w)), dtype=torch.float32)
        data = {"scale": scale / 100, "shape": [b, h, w], "mode": mode, "corners": corners}
        with ck.guard("downsampling", data, 30):
            kw = {}
            if scale != 200 or q % 2:
                kw["scale_factor"] = scale / 100
            if mode != "bicubic" or q % 2:
                kw["mode"] = mode
            if mode == "nearest":
                kw["align_corners"] = None
            elif corners or q % 2:
                kw["align_corners"] = corners
            y = BlurAndDownsample(**kw)(x)
            for i in range(b):
                recs.append(dict(op="down", x=[[int(v) for v in a] for a in x[i, 0]], s=scale, scale=scale, mode=mode, corners=corners, got=rows(y[i, 0]), id=q))
        ck.trace()
        if q % 40 == 0:
            ck.sample(data)
    # sizes for every integer factor
    for f in range(2, 17 if ck.quick else 65):
        for k in (1, 2, 3):
            if f * k > f + 1:
                with ck.guard("downsampling", {"factor": f}, 30):
                    y = BlurAndDownsample(float(f))(torch.zeros(1, 1, f * k, f * k + f - 1))
                    ck.expect(y.shape == (1, 1, k, k), "sizes are divided by the factor, rounded down", {"factor": f, "multiple": k, "got": list(y.shape)})
    I.judge(ck, recs)
