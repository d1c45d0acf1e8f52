"""CLAHE judged by ClaheTrace.tla."""
import numpy as np
import torch

import crystal_common as X
import image_common as I


def run(ck):
    from ebsdtorch.preprocessing.clahe import clahe_grayscale

    rng = ck.numpy_rng(0)
    recs = []
    for q in range(160 if ck.quick else 2500):
        default = q % 8 == 0
        grid = [4, 4] if default else [int(v) for v in rng.integers(1, 4, 2)]
        bins = 64 if default else int(rng.integers(2, 20))
        clip = 160 if default else [0, -4, 1, 2, 4, 6, 10, 20, 400][int(rng.integers(0, 9))]
        h, w = (int(rng.integers(max(g + 1, 3), 12)) for g in grid)
        if q % 4 == 2:
            # tiles large enough for shares of a tile to be inexact, excess often divisible by the bins
            h, w, bins, clip = grid[0] * int(rng.integers(7, 16)), grid[1] * int(rng.integers(7, 16)), int(rng.integers(2, 7)), int(rng.integers(1, 6))
        if q % 40 == 8:
            h, w = (int(v) for v in rng.integers(24, 61, 2))
        if any((-n) % g >= n for n, g in zip((h, w), grid)):
            continue
        b = int(rng.integers(1, 4))
        kind = q % 5
        x = rng.integers(0, 65, (b, h, w))
        if kind == 1:
            x[:] = x[:, :1, :1]
        elif kind == 2:
            x = x // 13 * 13
        elif kind == 3:
            x[x > 20] = 64
        if q % 10 == 3:
            # shares of a tile that are not representable add up to a little less than the tile
            grid, bins, clip, b = [1, 2], 4, 400, 2
            x = np.stack([np.concatenate([rng.permutation(np.repeat(rng.permutation([0, 22, 43, 64]), [29, 16, 8, 2])).reshape(5, 11) for _ in range(2)], 1) for _ in range(b)])
            h, w = 5, 22
        xt = torch.tensor(x[:, None] / 64, dtype=torch.float32)
        data = {"shape": [b, h, w], "grid": grid, "bins": bins, "clip": clip / 4}
        with ck.guard("CLAHE", data, 30):
            kw = {} if default and q % 16 == 0 else dict(clip_limit=clip / 4, n_bins=bins, grid_shape=(grid[0], grid[1]))
            keep = xt.clone()
            y = clahe_grayscale(xt, **kw)
            ok = y.shape == xt.shape
            ck.expect(ok and torch.equal(keep, xt), "shape kept, images left as they were", data)
            if ok:
                for i in range(b):
                    recs.append(dict(x=x[i].tolist(), grid=grid, bins=bins, clip=clip, got=[X.fixn(r, 1e8) for r in y[i, 0].double().tolist()], id=data))
        ck.trace()
        if q % 40 == 0:
            ck.sample(data)
    I.judge(ck, recs, "ClaheTrace")
