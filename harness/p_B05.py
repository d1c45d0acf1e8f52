"""Disorientations and symmetry-reduced angles, judged by FzTrace.tla."""
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import torch

from fz_common import FINE, SC, batch, clip4, fx, fxs, qmul, quats, rand_quats, rounding, wall_quats



def run(ck):
    from ebsdtorch.s2_and_so3.laue_generators import laue_elements
    from ebsdtorch.s2_and_so3 import laue_fz_misori as M
    from ebsdtorch.s2_and_so3 import laue_fz_ori as F

    out, fine = [], []
    rng = ck.numpy_rng(1)
    pairs = [(a, b) for a in range(1, 12) for b in range(1, 12)]
    m = 16 if ck.quick else 60
    for k, (a, b) in enumerate(pairs):
        dtype = (torch.float64, torch.float32)[k % 2]
        q1, q2 = quats(rng, 24), quats(rng, 24)
        # some pairs related (nearly) by symmetry
        g1 = laue_elements(a).numpy()
        g1 = g1[rng.integers(0, len(g1), len(q2))]
        near = rng.normal(0, 0.003, (len(q2), 4)) + [1, 0, 0, 0]
        near /= np.linalg.norm(near, axis=1, keepdims=True)
        q1[::3] = qmul(g1, qmul(near, q2))[::3]
        q1[1::6] = q2[1::6]
        pick = rng.permutation(len(q1))[: max(m, 6)]
        t1, t2 = (batch(torch.tensor(q[pick], dtype=dtype), k) for q in (q1, q2))
        desc = {"laue1": a, "laue2": b, "shape": list(t1.shape), "dtype": str(dtype)}
        with ck.guard("disorientation", desc, 60):
            d = [f(t1.clone(), t2.clone(), a, b) for f in (F.disorientation, M.disorientation_naive)]
            ang = [f(t1.clone(), t2.clone(), a, b) for f in (F.disori_angle_laue, M.disori_angle_laue)]
            back = F.disori_angle_laue(t2.clone(), t1.clone(), b, a)
            mis = M.misori_to_fz_laue(t1.clone(), a, b)
            one = F.ori_angle_laue(t1.clone(), t2.clone(), a)
            ok = all(x.shape == t1.shape for x in d + [mis]) and all(x.shape == t1.shape[:-1] for x in ang + [back, one])
            if not ck.expect(ok, "one result per pair", desc):
                continue
            t1, t2, mis = (t.reshape(-1, 4) for t in (t1, t2, mis))
            d, ang = [x.reshape(-1, 4) for x in d], [x.reshape(-1) for x in ang + [back]]
            one = one.reshape(-1)
            for j in range(len(t1)):
                out.append(dict(kind="disori", l1=a, l2=b, q=fxs(t1[j], SC), q2=fxs(t2[j], SC),
                                outs=[clip4(fxs(x[j], SC)) for x in d], angles=[fx(x[j], SC) for x in ang]))
                if j % 2 == k % 2:
                    out.append(dict(kind="misori", l1=a, l2=b, q=fxs(t1[j], SC), outs=[clip4(fxs(mis[j], SC))], angles=[]))
                    out.append(dict(kind="angle", l=a, q=fxs(t1[j], SC), q2=fxs(t2[j], SC), angle=fx(one[j], SC)))
            ck.trace()
        ck.sample(desc)
        # where two equivalents have all but the same angle
        n = 6 if ck.quick else 40
        e1, e2 = laue_elements(a).numpy(), laue_elements(b).numpy()
        mm, q2 = wall_quats(rng, e1, e2, n), rand_quats(rng, n)
        t1, t2, t3 = (torch.tensor(q, dtype=dtype) for q in (qmul(mm, q2), q2, wall_quats(rng, e2, e1, n)))
        with ck.guard("disorientation", dict(desc, where="near the walls"), 60):
            d = [f(t1.clone(), t2.clone(), a, b) for f in (F.disorientation, M.disorientation_naive)]
            mis = M.misori_to_fz_laue(t3.clone(), a, b)
            lim = 11 * FINE // 10
            for j in range(n):
                fine.append(dict(kind="disori", l1=a, l2=b, r=rounding(t1), q=fxs(t1[j], FINE), q2=fxs(t2[j], FINE),
                                 outs=[clip4(fxs(x[j], FINE), lim) for x in d]))
                fine.append(dict(kind="misori", l1=a, l2=b, r=rounding(t1), q=fxs(t3[j], FINE), outs=[clip4(fxs(mis[j], FINE), lim)]))
        # next to an equivalent, down to a millionth of a radian
        n = 3 if ck.quick else 20
        g1, g2 = e1[rng.integers(0, len(e1), n)], e2[rng.integers(0, len(e2), n)]
        w = 10.0 ** rng.uniform(-6, -2, n)
        u = rng.normal(size=(n, 3))
        u /= np.linalg.norm(u, axis=1, keepdims=True)
        s = np.concatenate([np.cos(w / 2)[:, None], np.sin(w / 2)[:, None] * u], 1)
        with ck.guard("disorientation", dict(desc, where="next to an equivalent"), 60):
            t2 = torch.tensor(q2[:n], dtype=dtype)
            t1 = torch.tensor(qmul(g1, qmul(s, qmul(g2, q2[:n]))), dtype=dtype)
            t0 = torch.tensor(qmul(g1, qmul(s, q2[:n])), dtype=dtype)
            ang = [f(t1.clone(), t2.clone(), a, b) for f in (F.disori_angle_laue, M.disori_angle_laue)]
            one = [F.ori_angle_laue(t0.clone(), t2.clone(), a)]
            for ts, l2, vals in ((t1, b, ang), (t0, 1, one)):
                for j in range(n):
                    fine.append(dict(kind="angle", l1=a, l2=l2, r=5 if dtype == torch.float64 else 80, w=int(round(w[j] * FINE)), q=fxs(ts[j], FINE), q2=fxs(t2[j], FINE),
                                     angles=[fx(v[j], FINE) if abs(float(v[j])) < 7 else -FINE for v in vals]))
    # pairs of different shapes are refused
    for f in (F.disorientation, M.disorientation_naive, F.disori_angle_laue, M.disori_angle_laue):
        try:
            f(torch.ones(2, 4), torch.ones(3, 4), 1, 1)
            ck.violation("pairs of different shapes are refused", {"function": getattr(f, "name", "?")})
        except Exception:
            pass
    for r in out:  # NaN and the like must not overflow TLC
        for key in ("angle",):
            if key in r:
                r[key] = max(-90000, min(90000, r[key]))
        if "angles" in r:
            r["angles"] = [max(-90000, min(90000, v)) for v in r["angles"]]
    ck.count("records", len(out))
    ck.count("records near walls", len(fine))
    each = (len(fine) + 7) // 8
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda lo: ck.tlc("FzFine", data=dict(Samples=fine[lo:lo + each]), invariants=["FineZones", "Judged"],
                                      verdict=True, label="near the walls", timeout=780), range(0, len(fine), each)))
    step = (len(out) + 7) // 8
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda lo: ck.tlc("FzTrace", data=dict(Samples=out[lo:lo + step]), invariants=["ZonesCover", "Judged"],
                                      verdict=True, label="disorientations", timeout=780), range(0, len(out), step)))
