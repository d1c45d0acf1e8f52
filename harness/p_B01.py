"""Tables of Laue group rotations against the groups that LaueGroups.tla builds
exactly from their generators."""
import numpy as np
import torch


def run(ck):
    from ebsdtorch.s2_and_so3.laue_generators import get_laue_mult, laue_elements

    r = ck.tlc("LaueGroups", {"Ids": "1..11"}, invariants=["Bounded", "Unit", "Complete", "EmitDone"], label="closure")
    groups = {}
    for c in r.cases:
        root = c["root"] ** 0.5
        groups[c["l"]] = np.array([[(a + b * root) / 2 for a, b in e] for e in c["els"]])
    for l in range(1, 12):
        want = groups[l]
        data = {"laue_group": l}
        for rep in range(2):
            with ck.guard("group table", data, 30):
                got = laue_elements(l)
                ck.expect(int(get_laue_mult(l)) == 2 * len(want), "multiplicity is twice the number of rotations",
                          dict(data, got=int(get_laue_mult(l)), want=2 * len(want)))
                if not ck.expect(tuple(got.shape) == (len(want), 4), "one quaternion per rotation",
                                 dict(data, got=list(got.shape))):
                    continue
                ck.expect(got.dtype == torch.float64, "double precision", data)
                g = got.double().numpy()
                ck.expect(np.allclose(g[0], [1, 0, 0, 0], atol=1e-12), "the identity comes first", data)
                dot = np.abs(g @ want.T)
                ck.expect(bool(np.allclose(np.linalg.norm(g, axis=1), 1, atol=1e-7)), "unit quaternions", data)
                hit = dot > 1 - 1e-12
                for k in range(len(want)):
                    d = np.minimum(np.abs(g - want[k]).max(1), np.abs(g + want[k]).max(1))
                    ck.expect(int((d < 1e-7).sum()) == 1, "every rotation of the group occurs exactly once",
                              lambda: dict(data, rotation=want[k].tolist()))
                ck.expect(bool((g[:, 0] > -1e-12).all()), "real parts are not negative", data)
        ck.trace()
        ck.sample({"laue_group": l, "rotations": len(want)})
    ck.extra["exhaustive"] = True
