"""Values looked up in a master pattern: exact bilinear values of
MasterLookup.tla at quarter-pixel positions of either hemisphere."""
import numpy as np
import torch


def direction(n, hemi, u, v):
    """unit vector (float64) whose equal-area square position lies u/4, v/4
    pixels from the centre of the first pixel (rows: second axis)"""
    X = (2 * (np.asarray(v) / 4.0) + 1) / n - 1
    Y = (2 * (np.asarray(u) / 4.0) + 1) / n - 1
    ax, ay = np.abs(X), np.abs(Y)
    m, k = np.maximum(ax, ay), np.minimum(ax, ay)
    t = np.pi / 4 * np.divide(k, m, out=np.zeros_like(m), where=m > 0)
    z = 1 - m * m
    h = np.sqrt(np.maximum(0, 1 - z * z))
    big, sml = h * np.cos(t), h * np.sin(t)
    x = np.where(ax >= ay, big, sml) * np.where(X < 0, -1, 1)
    y = np.where(ax >= ay, sml, big) * np.where(Y < 0, -1, 1)
    return np.stack([x, y, np.where(np.asarray(hemi) == 1, -z, z)], -1)


def replay(ck, MP, c, variant):
    n = c["n"]
    pix = torch.tensor(c["pix"], dtype=torch.float32)
    data = {"case": c}
    with ck.guard("master pattern lookup", data, 60):
        rng = np.random.default_rng(variant)
        mp = MP((pix[:, :n].clone(), pix[:, n:].clone()), laue_group=11) if variant % 2 else MP(pix.clone(), laue_group=11)
        for i, op in enumerate(c["hist"]):
            data["step"] = i
            if op["op"] != "lookup":
                return  # exact values are known for the unmodified pattern
            q = op["q"]
            nb = n // op["bin"]
            d = direction(nb, [x["hemi"] for x in q], [x["u"] for x in q], [x["v"] for x in q])
            if variant % 3 == 0:
                d = d * rng.uniform(0.2, 7, (len(d), 1))
            elif variant % 3 == 1:  # unit vectors up to rounding
                d = d * (1 + 1.2e-7 * rng.integers(-3, 4, (len(d), 1)))
            dt = torch.float64 if variant % 4 == 1 and op["bin"] == 0 else torch.float32
            v = torch.tensor(d, dtype=dt)
            shape = [(len(d),), (1, len(d)), (len(d), 1)]
            if len(d) % 2 == 0:
                shape.append((2, len(d) // 2))
            sh = shape[variant % len(shape)]
            got = mp.interpolate(v.reshape(*sh, 3).clone(), virtual_binning=op["bin"], normalize_coords=variant % 3 == 0)
            ck.expect(tuple(got.shape) == sh, "one value per direction", lambda: dict(data, got=list(got.shape)))
            want = np.array(op["val"]) / 16.0 / op["bin"] ** 2
            got = got.reshape(-1).double().numpy()
            tol = 2e-3 * max(1.0, float(pix.max()))
            # beside the equator the two hemispheres share a seam: not judged
            for k in range(len(q)):
                ck.expect(abs(got[k] - want[k]) <= tol, "the value is the bilinear one at the projected position",
                          lambda: dict(data, query=q[k], got=got[k], want=want[k]))
    ck.trace()


def run(ck):
    from ebsdtorch.ebsd.master_pattern import MasterPattern as MP

    v = 0
    for size, factors in ((6, "{1, 2, 3}"), (9, "{1, 3}"), (4, "{1, 2, 4}"), (15, "{1, 3, 5}")):
        r = ck.tlc("MasterLookup", {"Size": size, "Factors": factors, "MaxOps": 3, "NQuery": 24, "MaxPix": 99, "Kinds": "{}"},
                   invariants=["LookupsAreCurrent", "EmitDone"], simulate=60 if ck.quick else 1500, depth=5,
                   label=f"size {size}")
        for c in r.cases:
            v += 1
            replay(ck, MP, c, v)
    ck.sample({"behaviours": v})

