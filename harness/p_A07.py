"""Lookups are independent of history: histories of MasterLookup.tla (modify /
lookup with any binning, in any order) replayed next to a fresh object."""
import numpy as np
import torch

from p_A08 import direction


def apply(mp, kind):
    if kind == "clahe":
        mp.normalize("minmax")
        mp.apply_clahe(clip_limit=8.0, n_bins=16, grid_shape=(2, 2))
    else:
        mp.normalize(kind)


def reference(img, kind):
    """the modification of an image, in float64"""
    x = img.double()
    if kind == "minmax":
        return (x - x.min()) / (x.max() - x.min() + 1e-4)
    if kind == "zeromean":
        return x - x.mean()
    return (x - x.mean()) / x.std()


def replay(ck, MP, c, variant):
    n = c["n"]
    pix = torch.tensor(c["pix"], dtype=torch.float32)
    data = {"case": c}
    with ck.guard("master pattern history", data, 60):
        mp = MP(pix.clone(), laue_group=int(variant % 11) + 1)
        for i, op in enumerate(c["hist"]):
            data["step"] = i
            before = mp.master_pattern.clone()
            if op["op"] == "modify":
                apply(mp, op["kind"])
                if op["kind"] != "clahe":
                    want = reference(before, op["kind"])
                    ck.expect(float((mp.master_pattern.double() - want).abs().max()) < 1e-4 * float(want.abs().max() + 1),
                              "normalising rescales the whole pattern", lambda: dict(data))
                continue
            q, b = op["q"], op["bin"]
            d = torch.tensor(direction(n // b, [x["hemi"] for x in q], [x["u"] for x in q], [x["v"] for x in q]),
                             dtype=torch.float32)
            got = mp.interpolate(d.clone(), virtual_binning=b)
            # a fresh object made from the (block means of the) current pattern
            h, w = before.shape
            img = before.reshape(h // b, b, w // b, b).double().mean((1, 3)).float()
            fresh = MP(img.clone(), laue_group=1).interpolate(d.clone(), virtual_binning=1)
            tol = 1e-4 * max(1.0, float(img.abs().max()))
            ck.expect(got.shape == fresh.shape and float((got - fresh).abs().max()) <= tol,
                      "a lookup sees the pattern as it is now at its own binning",
                      lambda: dict(data, got=got.tolist(), want=fresh.tolist()))
            ck.expect(torch.equal(before, mp.master_pattern), "a lookup changes nothing", lambda: dict(data))
    ck.trace()


def run(ck):
    from ebsdtorch.ebsd.master_pattern import MasterPattern as MP

    v = 0
    for size, factors, m in ((6, "{1, 2, 3}", 7), (12, "{1, 2, 3, 4}", 9), (4, "{2, 4}", 6)):
        r = ck.tlc("MasterLookup", {"Size": size, "Factors": factors, "MaxOps": m, "NQuery": 6, "MaxPix": 99,
                                     "Kinds": '{"minmax", "zeromean", "standard", "clahe"}'},
                   invariants=["LookupsAreCurrent", "EmitDone"], simulate=150 if ck.quick else 2500, depth=m + 1,
                   label=f"size {size}")
        for c in r.cases:
            v += 1
            replay(ck, MP, c, v)
            if v % 100 == 0:
                ck.sample([(o["op"], o.get("bin", o.get("kind"))) for o in c["hist"]])
    many(ck, MP)


def many(ck, MP):
    """any number of directions, in any shape, looked up one after another"""
    rng = ck.numpy_rng(5)
    pix = torch.tensor(rng.uniform(0, 1, (8, 16)), dtype=torch.float32)
    one = MP(pix.clone(), laue_group=2)
    d = torch.tensor(rng.normal(size=(5000, 3)), dtype=torch.float32)
    single = one.interpolate(d)
    counts = list(range(1, 180)) + [int(x) for x in rng.integers(180, 5000, 40 if ck.quick else 400)] + [4999, 4987, 4096]
    for n in counts:
        with ck.guard("lookup of n directions", {"n": n}, 30):
            got = one.interpolate(d[:n])
            ck.expect(tuple(got.shape) == (n,) and torch.allclose(got, single[:n], atol=1e-4),
                      "the value of a direction does not depend on the others looked up with it", {"n": n})
            for f in (2, 3, 7):
                if n % f == 0:
                    got = one.interpolate(d[:n].reshape(f, n // f, 3))
                    ck.expect(tuple(got.shape) == (f, n // f) and torch.allclose(got.reshape(-1), single[:n], atol=1e-4),
                              "the value of a direction does not depend on the batch shape", {"n": n, "f": f})
    ck.count("direction_counts", len(counts))
