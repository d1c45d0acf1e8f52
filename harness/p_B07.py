"""Samplings: grids of zones walked by SamplerTrace.tla, spirals, random
rotations, and the cube map of the cubic zone."""
import numpy as np
import torch

from fz_common import SC, clip4, fxs

CPU = torch.device("cpu")


def matched(grid, got):
    """how often each grid point occurs in the sample; samples off the grid"""
    count, stray = np.zeros(len(grid), int), 0
    for lo in range(0, len(got), 500):
        g = got[lo:lo + 500]
        dot = g @ grid.T
        j = (np.abs(dot) if grid.shape[1] == 4 else dot).argmax(1)
        d = np.abs(g - grid[j]).max(1)
        if grid.shape[1] == 4:  # either sign
            d = np.minimum(d, np.abs(g + grid[j]).max(1))
        ok = d < 1e-5
        count += np.bincount(j[ok], minlength=len(grid))
        stray += int((~ok).sum())
    return count.tolist(), stray


def cubochoric(n):
    """float64 grid through the public conversion (judged by B09)"""
    from ebsdtorch.s2_and_so3.orientations import cu2qu

    a = np.pi ** (2 / 3)
    c = -a / 2 + a * np.arange(n) / n
    g = np.stack(np.meshgrid(c, c, c, indexing="ij"), -1).reshape(-1, 3)
    q = cu2qu(torch.tensor(g)).numpy()
    return np.where(q[:, :1] < 0, -q, q)


def zone(ck, out, kind, l, cands, got, target, ident, slack):
    """the candidate grid (of the edge asked for, or one more or less because
    of rounding) that fits the sample best"""
    best = None
    for g in cands:
        count, stray = matched(g, got)
        if best is None or stray < best[2]:
            best = (g, count, stray)
        if stray == 0:
            best = (g, count, stray)
            break
    g, count, stray = best
    out.append(dict(kind=kind, l=l, id=ident, grid=fxs(g, SC), count=count, stray=stray, size=len(got),
                    least=int(100 * target * (1 - slack)), most=int(100 * target * (1 + slack)) + 100))


def run(ck):
    from ebsdtorch.s2_and_so3 import laue_fz_ori as F
    from ebsdtorch.s2_and_so3 import laue_fz_s2 as S
    from ebsdtorch.s2_and_so3 import sampling as P

    order = {1: 1, 2: 2, 3: 4, 4: 4, 5: 8, 6: 3, 7: 6, 8: 6, 9: 12, 10: 12, 11: 24}
    out = []
    rng = ck.numpy_rng(1)
    # grids
    for n in (1, 2, 5, 8):
        with ck.guard("cubochoric grid", {"n": n}, 60):
            g = P.so3_cubochoric_grid(n, CPU).double().numpy()
            w = cubochoric(n)
            ck.expect(g.shape == w.shape, "one rotation per grid point", {"n": n})
            d = np.minimum(np.abs(g - w).max(1), np.abs(g + w).max(1))
            ck.expect(float(d.max()) < 1e-5, "the grid is regular in the cubochoric cube", {"n": n, "error": float(d.max())})
            ck.expect(bool((g[:, 0] >= -1e-7).all()), "real parts are not negative", {"n": n})
            ck.trace()
    targets = (60, 300) if ck.quick else (60, 300, 1500)
    for l in range(1, 12):
        for target in targets:
            for permute in (False, True):
                ident = {"laue": l, "target": target, "permute": permute, "sampler": "orientations"}
                with ck.guard("zone sampling", ident, 60):
                    torch.manual_seed(ck.seed)
                    got = F.sample_ori_fz_laue(l, target, CPU, permute).double().numpy()
                    e = round((target * order[l]) ** (1 / 3))
                    zone(ck, out, "orizone", l, [cubochoric(x) for x in (e, e - 1, e + 1) if x > 0], got, target, ident, 0.65)
                    ck.trace()
        deg = float(rng.uniform(15, 30))
        ident = {"laue": l, "degrees": deg, "sampler": "orientations by angle"}
        with ck.guard("zone sampling", ident, 60):
            got = F.sample_ori_fz_laue_angle(l, deg, CPU, bool(l % 2)).double().numpy()
            n3 = (2 * 131.97049 / (deg - 0.03732) + 1) ** 3 / order[l]
            e = int(n3 ** (1 / 3) + 1)
            # the edge is that of the number of points of the zone
            zone(ck, out, "orizone", l, [cubochoric(x) for x in (e, e - 1, e + 1)], got, e ** 3 / order[l], ident, 0.65 if e ** 3 > 40 * order[l] else 1.5)
            ck.trace()
        for target in (10, 120):
            ident = {"laue": l, "target": target, "sampler": "directions, spiral"}
            with ck.guard("sector sampling", ident, 60):
                got = S.sample_s2_fz_laue_fibonacci(l, target, CPU).double().numpy()
                full = P.s2_fibonacci(target * 2 * order[l], CPU).double().numpy()
                zone(ck, out, "dirzone", l, [full], got, target, ident, 0.45)
                ck.trace()
            ident = {"laue": l, "target": target, "sampler": "directions, square"}
            with ck.guard("sector sampling", ident, 60):
                from ebsdtorch.s2_and_so3.sphere import inv_rosca_lambert
                got = S.sample_s2_fz_laue_rosca(l, target, CPU).double().numpy()
                e = int((target * 2 * order[l]) ** 0.5)
                cands = []
                for x in (e, e - 1, e + 1):
                    c = np.linspace(-1, 1, x)
                    sq = np.stack(np.meshgrid(c, c, indexing="ij"), -1).reshape(-1, 2)
                    cands.append(inv_rosca_lambert(torch.tensor(sq)).numpy())
                # the grid is on one hemisphere only
                zone(ck, out, "dirzone", l, cands, got, 2 * target, ident, 0.9 if target < 50 else 0.5)
                ck.trace()
    # opposite faces of the cubochoric cube are the same rotations: grid points
    # that coincide are not told apart
    for r in out:
        if r["kind"] == "orizone":
            g = np.array(r["grid"])
            c = r["count"]
            top = np.abs(g[:, 0]) < 30
            for j in np.nonzero(top)[0]:
                c[j] = min(1, c[j])
    # spirals
    for n in (1, 2, 3, 10, 77, 300):
        for mode in ("avg", "max"):
            ident = {"spiral": "sphere", "n": n, "mode": mode}
            with ck.guard("spiral", ident, 30):
                p = P.s2_fibonacci(n, CPU, mode)
                ck.expect(tuple(p.shape) == (n, 3), "number of points", ident)
                out.append(dict(kind="spiral2", id=ident, mode=mode, p=[clip4(v, 11000) for v in fxs(p, SC)]))
                ck.trace()
        ident = {"spiral": "rotations", "n": n}
        with ck.guard("spiral", ident, 30):
            p = P.so3_fibonacci(n, CPU)
            ck.expect(tuple(p.shape) == (n, 4), "number of points", ident)
            out.append(dict(kind="spiral3", id=ident, p=[clip4(v, 11000) for v in fxs(p, SC)]))
            ck.trace()
    # the middle of spirals of many points, where the angles are thousands of turns
    for n in (200001, 3000000) if ck.quick else (200001, 1000000, 3000000, 10000000):
        mid = slice(n // 2 - 40, n // 2 + 40)
        ident = {"spiral": "middle", "n": n}
        with ck.guard("spiral", ident, 60):
            for kind, p, d in (("spiral2mid", P.s2_fibonacci(n, CPU), 3), ("spiral3mid", P.so3_fibonacci(n, CPU), 4)):
                ck.expect(tuple(p.shape) == (n, d), "number of points", ident)
                out.append(dict(kind=kind, id=ident, p=[clip4(v, 11000) for v in fxs(p[mid].double(), SC)]))
                ck.trace()
    # random rotations
    n = 4000 if ck.quick else 20000
    for name, f, half in (("cubochoric", lambda: P.so3_cu_rand(n, CPU), True),
                          ("quaternion", lambda: P.so3_uniform_quat(n, CPU), False),
                          ("quaternion64", lambda: P.so3_uniform_quat(n, CPU, torch.float64), False)):
        with ck.guard("random rotations", {"sampler": name}, 30):
            torch.manual_seed(ck.seed)
            p = f()
            ck.expect(tuple(p.shape) == (n, 4), "number of rotations", {"sampler": name})
            out.append(dict(kind="random", id=name, half=half, p=[clip4(v, 11000) for v in fxs(p, SC)]))
            ck.trace()
    # cube
    r2 = 2 ** 0.5 - 1
    for k, dtype in enumerate((torch.float64, torch.float32)):
        c = rng.uniform(-r2, r2, (200, 3))
        for j in range(60):
            c[j] = np.sign(c[j]) * r2 * rng.choice([1, 1, rng.uniform()], 3)
        c = np.concatenate([c, [[0, 0, 0], [r2, 0, 0], [0, -r2, 0], [r2, r2, r2], [-r2, r2, -r2], [0.1, 0.1, 0.1], [0.2, 0, 0]]])
        t = torch.tensor(c, dtype=dtype)
        t = t if k else t[: len(t) - len(t) % 2].reshape(2, -1, 3)
        with ck.guard("cube of the zone", {"dtype": str(dtype)}, 30):
            r = F.cube_to_rfz(t.clone(), 11)
            b = F.rfz_to_cube(r.clone(), 11)
            ck.expect(r.shape == t.shape and b.shape == t.shape, "shape is kept", {})
            ck.expect(float((b - t).abs().max()) < 1e-5, "the way back leads to the start", {"error": float((b - t).abs().max())})
            for x, y, z in zip(t.reshape(-1, 3), r.reshape(-1, 3), b.reshape(-1, 3)):
                out.append(dict(kind="cube", c=fxs(x, SC), r=clip4(fxs(y, SC))))
                out.append(dict(kind="cube", c=clip4(fxs(z, SC)), r=clip4(fxs(y, SC))))
            ck.trace()
    ck.count("records", len(out))
    ck.sample([o.get("id") for o in out[:3]])
    ck.tlc("SamplerTrace", data=dict(Samples=out), spec="SSpec", invariants=["GridPoint", "Whole", "SJudge", "ZonesCover"],
           verdict=True, label="samplings", timeout=780)
