"""Circular masks judged by ImageTrace.tla."""
import torch

import image_common as I


def run(ck):
    from ebsdtorch.preprocessing.radial_mask import get_radial_mask

    rng = ck.numpy_rng(0)
    m = 9 if ck.quick else 20
    cases = [(h, w, None, None) for h in range(1, m) for w in range(1, m)]
    for _ in range(400 if ck.quick else 6000):
        h, w = (int(v) for v in rng.integers(1, 24, 2))
        r = [None, int(rng.integers(1, 16 * 16)), 16 * int(rng.integers(1, 16)), 8 * max(h, w)][int(rng.integers(0, 4))]
        c = None if rng.integers(0, 4) == 0 else [int(v) for v in rng.integers(-4, 21, 2)]
        cases.append((h, w, r, c))
    recs = []
    for h, w, r, c in cases:
        data = {"shape": [h, w], "radius16": r, "center16": c}
        with ck.guard("radial mask", data, 30):
            kw = {}
            if r is not None:
                kw["radius"] = r / 16
            if c is not None:
                kw["center"] = (c[0] / 16, c[1] / 16)
            b = get_radial_mask((h, w), **kw)
            ok = b.dtype == torch.bool and b.shape == (h, w)
            ck.expect(ok, "shape and type of the mask", data)
            if ok:
                recs.append(dict(op="mask", h=h, w=w, r=r or 0, c=c or [8, 8], bits=b.tolist()))
        ck.trace()
    ck.sample({"masks": len(recs)})
    I.judge(ck, recs)
