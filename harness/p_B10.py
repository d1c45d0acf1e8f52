"""Exponential and logarithm of rigid motions: walks of Se3Walk.tla replayed,
every value judged by Se3Trace.tla."""
import numpy as np
import torch

from fz_common import FINE, SC, clip4, fx, fxs, rand_quats

I4 = np.eye(4)


def run(ck):
    from ebsdtorch.lie_algebra import se3 as S
    from ebsdtorch.s2_and_so3.quaternions import qu_apply, qu_prod

    unit = 1000
    r = ck.tlc("Se3Walk", {"MaxLen": 6, "Unit": unit, "MaxSum": 30}, invariants=["StepsAddUp", "EmitDone"],
               simulate=60 if ck.quick else 600, depth=8, label="screw walks")
    out = []

    def axes(rng, n):
        a = rng.normal(size=(n, 3))
        a[::4] = np.eye(3)[rng.integers(0, 3, len(a[::4]))] * rng.choice([-1, 1], (len(a[::4]), 1))
        return a / np.linalg.norm(a, axis=1, keepdims=True)

    def exp(vec):
        """all exponentials of vec"""
        k = vec.clone()
        om = S.se3_exp_map_om(vec)
        q, tq = S.se3_exp_map_quat(vec)
        R, t = S.se3_exp_map_split(vec)
        w = S.w_exp(vec[..., :3].contiguous())
        ck.expect(torch.equal(vec, k), "the input is not changed", {})
        b = tuple(vec.shape[:-1])
        ok = (tuple(om.shape) == b + (4, 4) and tuple(q.shape) == b + (4,) and tuple(tq.shape) == b + (3,)
              and tuple(R.shape) == b + (3, 3) and tuple(t.shape) == b + (3,) and tuple(w.shape) == b + (3, 3))
        ck.expect(ok, "batch shape is kept", {"batch": list(b)})
        ck.expect(bool((om[..., 3, :] == torch.tensor([0, 0, 0, 1.0], dtype=om.dtype)).all()), "the last row of a motion is 0 0 0 1", {"batch": list(b)})
        return (om, q, tq, R, t, w) if ok else None

    def rec_exp(n, a, t, e, tol, ident):
        om, q, tq, R, tr, w = e
        out.append(dict(kind="exp", n=fxs(n, SC), a=fx(a, SC), t=fxs(t, SC), tol=tol, id=ident,
                        om=clip4(fxs(om[:3, :3].reshape(-1), SC), 60000), tom=clip4(fxs(om[:3, 3], SC), 60000), qu=clip4(fxs(q, SC), 60000),
                        tqu=clip4(fxs(tq, SC), 60000), r=clip4(fxs(R.reshape(-1), SC), 60000), tr=clip4(fxs(tr, SC), 60000),
                        w=clip4(fxs(w.reshape(-1), SC), 60000)))

    def rec_log(n, a, t, logs, tol, ident):
        out.append(dict(kind="log", n=fxs(n, SC), a=fx(a, SC), t=fxs(t, SC), tol=tol, id=ident,
                        **{k: clip4(fxs(v, SC), 60000) for k, v in zip(("lom", "lsp", "lqu"), logs)}))

    def logs(e):
        om, q, tq, R, t, _ = e
        a = [S.se3_log_map_om(om.clone()), S.se3_log_map_split(R.clone(), t.clone()), S.se3_log_map_quat(q.clone(), tq.clone())]
        b = tuple(q.shape[:-1])
        return a if ck.expect(all(tuple(x.shape) == b + (6,) for x in a), "batch shape is kept", {"batch": list(b)}) else None

    # walks along a screw
    rng = ck.numpy_rng(0)
    for k, steps in enumerate(r.cases):
        n = axes(rng, 1)[0]
        t = rng.uniform(-1, 1, 3)
        ident = {"walk": steps}
        with ck.guard("walk", ident, 30):
            xi = torch.tensor(np.concatenate([n, t]) * unit / SC)
            m, (q, tq), tot = torch.eye(4, dtype=torch.float64), (torch.tensor([1.0, 0, 0, 0], dtype=torch.float64), torch.zeros(3, dtype=torch.float64)), 0
            for s in steps:
                v = (xi * s)[None]
                e = exp(v)
                if e is None:
                    break
                m = m @ e[0][0]
                q, tq = qu_prod(q, e[1][0]), tq + qu_apply(q, e[2][0])
                tot += s
                sg = 1 if tot >= 0 else -1
                a, nn, tt = abs(tot) * unit / SC, n * sg, t * sg * abs(tot) * unit / SC
                rec_exp(nn, a, tt, (m, q, tq, m[:3, :3], m[:3, 3], m[:3, :3]), 8, ident)
                lg = logs((m[None], q[None], tq[None], m[None, :3, :3], m[None, :3, 3], None))
                if a < 2.9 and lg:
                    rec_log(nn, a, tt, [x[0] for x in lg], 10, ident)
            ck.trace()
    # tangent vectors of all sizes
    m = 60 if ck.quick else 600
    for k, dtype in enumerate((torch.float64, torch.float32) * 3):
        n = axes(rng, m)
        a = np.concatenate([rng.uniform(0, 3.0, m // 3), 10 ** rng.uniform(-9, -0.5, m // 3), rng.uniform(2.5, 6, m - 2 * (m // 3))])
        a[:2] = 0.0
        a[m // 3: m // 3 + 6] = [0.0009, 0.0011, 0.0099, 0.0101, 0.049, 0.051]
        t = rng.uniform(-1.5, 1.5, (m, 3))
        shape = [(m,), (m // 6, 6), (2, m // 6, 3), (m, 1), (m,), (6, m // 6)][k]
        v = torch.tensor(np.concatenate([n * a[:, None], t], 1), dtype=dtype).reshape(shape + (6,))
        ident = {"dtype": str(dtype), "batch": list(shape)}
        with ck.guard("exponential", ident, 30):
            e = exp(v)
            if e is None:
                continue
            flat = [x.reshape((m,) + x.shape[len(shape):]) for x in e]
            tol = 4 if dtype == torch.float64 else 8
            for j in range(m):
                rec_exp(n[j], a[j], t[j], [x[j] for x in flat], tol, ident)
            ck.trace()
        with ck.guard("logarithm", ident, 30):
            lg = logs(e)
            if lg is None:
                continue
            lg = [x.reshape(m, 6) for x in lg]
            # single precision: the angle near zero and pi is known to ~1e-3 only
            for j in range(m):
                if a[j] < (3.0 if dtype == torch.float64 else 2.8):
                    rec_log(n[j], a[j], t[j], [x[j] for x in lg], 5 if dtype == torch.float64 else 14, ident)
            ck.trace()
        ck.sample(ident)
    with ck.guard("single vector", {"batch": [1]}, 30):
        n, a, t = np.array([0.6, 0, 0.8]), 1.1, np.array([0.3, -0.2, 0.9])
        e = exp(torch.tensor(np.concatenate([n * a, t]))[None])
        if e is not None:
            rec_exp(n, a, t, [x[0] for x in e], 4, {"batch": [1]})
            lg = logs(e)
            if lg is not None:
                rec_log(n, a, t, [x[0] for x in lg], 5, {"batch": [1]})
    # rotations up to a rounding: the trace exceeds three
    for dtype in (torch.float64, torch.float32):
        with ck.guard("logarithm", {"dtype": str(dtype), "what": "rounded rotations"}, 30):
            n, a, t = axes(rng, 12), 10 ** rng.uniform(-12, -5, 12), rng.uniform(-1, 1, (12, 3))
            v = torch.tensor(np.concatenate([n * a[:, None], t], 1), dtype=dtype)
            e = exp(v)
            if e is None:
                continue
            over = 1 + torch.finfo(dtype).eps * torch.tensor(rng.integers(0, 3, (12, 1)), dtype=dtype)
            om = e[0].clone()
            om[:, :3, :3] *= over[..., None]
            lg = logs((om, e[1] * over, e[2], e[3] * over[..., None], e[4], None))
            for j in range(12 if lg is not None else 0):
                rec_log(n[j], a[j], t[j], [x[j] for x in lg], 14, {"dtype": str(dtype), "what": "rounded rotations", "scale": float(over[j])})
            ck.trace()
    # small angles, order by order
    for a in (3e-4, 9e-4, 1.1e-3, 4e-3, 0.02, 0.04, 0.048):
        with ck.guard("small angles", {"angle": a}, 30):
            n, x = axes(rng, 8), rng.uniform(-1, 1, (8, 3))
            N, X = torch.tensor(n), torch.tensor(x)
            e = exp(torch.cat([N * a, X], 1))
            if e is None:
                continue
            K = torch.linalg.cross(N, X)
            K2 = torch.linalg.cross(N, K)
            inv = (S.w_to_v_inv(N * a) @ X[..., None])[..., 0]
            for R, t in ((e[0][:, :3, :3], e[0][:, :3, 3]), (e[3], e[4]), (e[5], e[2])):
                r = (R @ X[..., None])[..., 0] - X - a * K
                v = t - X - a / 2 * K
                i = inv - X + a / 2 * K
                vals = [r / a ** 2, (r - a ** 2 / 2 * K2) / a ** 3, v / a ** 2, (v - a ** 2 / 6 * K2) / a ** 3, i / a ** 2]
                # the next order
                for j in range(8):
                    out.append(dict(kind="series", n=fxs(n[j], SC), x=fxs(x[j], SC), a=fx(a, SC), inv=True, id={"angle": a},
                                    **{k: clip4(fxs(y[j], SC), 60000) for k, y in zip(("r2", "r3", "v2", "v3", "i2"), vals)}))
            ck.trace()
    # every digit, at angles on both sides of the switches between formulas
    fine = []
    for dtype in (torch.float64, torch.float32):
        m = 120 if ck.quick else 1500
        a = np.concatenate([10 ** rng.uniform(-2.5, 0, m // 3), rng.uniform(0, 1.1, m // 3), rng.uniform(0, 2.9, m - 2 * (m // 3))])
        n, x = axes(rng, m), rng.uniform(-1, 1, (m, 3))
        N, X = torch.tensor(n * a[:, None], dtype=dtype), torch.tensor(x, dtype=dtype)
        with ck.guard("exponential", {"dtype": str(dtype), "what": "every digit"}, 30):
            e = exp(torch.cat([N, X], 1))
            if e is None:
                continue
            lim = 7 * FINE
            turns = [(R @ X[..., None])[..., 0] for R in (e[0][:, :3, :3], e[3], e[5])] + [qu_apply(e[1], X)]
            slides = [e[0][:, :3, 3], e[4], e[2], (S.w_to_v(N) @ X[..., None])[..., 0]]
            inv = (S.w_to_v_inv(N) @ X[..., None])[..., 0]
            lg = logs(e) if dtype is torch.float64 else []
            for j in range(m):
                fine.append(dict(n=fxs(n[j], FINE), a=fx(a[j], FINE), x=fxs(X[j], FINE), tol=8 if dtype is torch.float64 else 150 + int(15 / a[j]),
                                 turns=[clip4(fxs(v[j], FINE), lim) for v in turns], slides=[clip4(fxs(v[j], FINE), lim) for v in slides],
                                 inv=clip4(fxs(inv[j], FINE), lim), logs=[clip4(fxs(v[j], FINE), lim) for v in lg or []]))
            ck.trace()
    ck.count("records to every digit", len(fine))
    ck.tlc("Se3Fine", data=dict(Samples=fine), invariants=["Judged"], verdict=True, label="every digit")
    # V and its inverse
    for dtype in (torch.float64, torch.float32):
        with ck.guard("V matrix", {"dtype": str(dtype)}, 30):
            w = torch.tensor(axes(rng, 60) * rng.uniform(0, 3, (60, 1)) ** 2 / 3, dtype=dtype).reshape(3, 20, 3)
            p = S.w_to_v(w) @ S.w_to_v_inv(w)
            ck.expect(bool((p - torch.eye(3, dtype=dtype)).abs().max() < 1e-4), "V times its inverse is the identity", {"error": float((p - torch.eye(3, dtype=dtype)).abs().max())})
            r2, v2 = S.w_exp_vmat(w)
            ck.expect(bool((v2 - S.w_to_v(w)).abs().max() < 3e-4), "V is the same alone and with the rotation", {})
            k = S.skew(w)
            x = torch.tensor(rng.normal(size=(3, 20, 3)), dtype=dtype)
            ck.expect(bool(((k @ x[..., None])[..., 0] - torch.linalg.cross(w, x)).abs().max() < 1e-5), "the skew matrix is the cross product", {})
    ck.count("records", len(out))
    ck.tlc("Se3Trace", data=dict(Samples=out), invariants=["Judged"], verdict=True, label="motions")
