"""Space group operations: every setting of SpaceGroupWalk.tla replayed."""
import torch

import crystal_common as X


def run(ck):
    from ebsdtorch.crystallography import groups as G

    for (n, st), c in sorted(X.settings(ck, X.ALL).items()):
        data = {"space_group": n, "setting": st}
        with ck.guard("operations", data, 60):
            ops = G.sg_operators(n, st)
            if not ck.expect(ops.dim() == 3 and tuple(ops.shape[1:]) == (4, 4) and ops.dtype == torch.float64, "shape and precision", data):
                continue
            o = ops * 24
            r = o.round()
            ck.expect(float((o - r).abs().max()) < 0.02, "operations of the crystal lattice", data)
            ck.expect(bool((ops[:, 3] == torch.tensor([0, 0, 0, 1.0])).all()), "homogeneous row", data)
            ck.expect(bool((ops[:, :3, 3] > -1e-9).all() and (ops[:, :3, 3] < 1 - 1e-3).all()), "translations within the cell", data)
            r = r.long().tolist()
            have = [(tuple(a[i][j] // 24 for i in range(3) for j in range(3)), tuple(a[i][3] for i in range(3))) for a in r]
            want = {(tuple(x[0]), tuple(x[1])) for x in c["ops"]}
            ck.expect(len(have) == len(set(have)), "each operation once", data)
            ck.expect(set(have) == want, "operations of the space group", lambda: dict(data, missing=sorted(want - set(have))[:3], extra=sorted(set(have) - want)[:3]))
            ck.expect(G.sg_ords[n - 1] == len(want), "order table", data)
            again = G.sg_operators(n, st)
            ck.expect(torch.equal(again, ops), "asking again gives the same", data)
        ck.trace()
    ck.sample({"settings": len(X.ALL)})
    ck.extra["exhaustive"] = True
