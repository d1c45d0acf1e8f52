"""Cross mutual information maps judged by MutualTrace.tla."""
import numpy as np
import torch

import crystal_common as X
import image_common as I
from p_D05 import MODES, levels


def run(ck):
    from ebsdtorch.utils.mutual_information import cmif

    rng = ck.numpy_rng(0)
    recs = []
    for q in range(90 if ck.quick else 1500):
        bd, bs = [(4, 4), (2, 3), (8, 8), (9, 9), (5, 12), (17, 3), (8, 9), (10, 8)][q % 8]
        h, w = (int(v) for v in rng.integers(2, 7, 2))
        nd, ns = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        chunked = max(bd, bs) > 8
        mode = MODES[int(rng.integers(0, 7))] if q % 3 == 0 else "none"
        const = q % 4 == 1 or q % 9 == 2
        chunk = int(rng.integers(1, 20))
        a = np.stack([levels(rng, h * w, bd, edges=True) for _ in range(nd)])
        b = np.stack([levels(rng, h * w, bs, a[0], edges=True) for _ in range(ns)])
        data = {"bins": [bd, bs], "shape": [h, w], "images": [nd, ns], "mode": mode, "chunk": chunk, "constant": const}
        with ck.guard("cross mutual information", data, 60):
            ta = torch.tensor(a / (2 * bd), dtype=torch.float32).reshape(nd, h, w)
            tb = torch.tensor(b / (2 * bs), dtype=torch.float32).reshape(ns, h, w)
            kw = {}
            if (bd, bs) != (4, 4) or q % 2:
                kw.update(bins_dst=bd, bins_src=bs)
            if mode != "none":
                kw["norm_mode"] = mode
            if const:
                kw["constant_marginal"] = True
            if chunked or q % 2:
                kw["chunk_size"] = chunk
            ma, mb = np.ones((nd, h * w), int), np.ones((ns, h * w), int)
            if q % 5 in (2, 4):
                ma = (rng.random((nd, h * w)) < 0.8).astype(int)
                kw["dst_ind"] = torch.tensor(ma, dtype=(torch.bool, torch.float32)[q % 2]).reshape(nd, h, w)
            if q % 5 in (3, 4):
                mb = (rng.random((ns, h * w)) < 0.8).astype(int)
                kw["src_ind"] = torch.tensor(mb, dtype=(torch.float32, torch.bool)[q % 2]).reshape(ns, h, w)
            ka, kb = ta.clone(), tb.clone()
            g = cmif(ta, tb, **kw)
            ck.expect(torch.equal(ta, ka) and torch.equal(tb, kb), "images are left as they were", data)
            if ck.expect(g.shape == (nd, ns, h, w), "one map per pair", data):
                for i in range(nd):
                    for j in range(ns):
                        recs.append(dict(op="cross", a=a[i].tolist(), b=b[j].tolist(), ma=ma[i].tolist(), mb=mb[j].tolist(), constant=const, bins=bd, binsy=bs, h=h, w=w, mode=mode, got=[X.fixn(r, 1e8) for r in g[i, j].double().tolist()], id=data))
        ck.trace()
        if q % 20 == 0:
            ck.sample(data)
    for f in (lambda: cmif(torch.rand(1, 4, 4), torch.rand(1, 4, 5)), lambda: cmif(torch.rand(1, 4, 4), torch.rand(1, 4, 4), norm_mode="x")):
        try:
            f()
            ck.expect(False, "images of different sizes and unknown normalisations are refused", {})
        except Exception:
            pass
    I.judge(ck, recs, "MutualTrace")
