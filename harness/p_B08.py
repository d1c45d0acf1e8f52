"""Quaternion algebra: exact integer behaviours of QuatMachine.tla replayed, and
the metric functions judged by QuatTrace.tla."""
import numpy as np
import torch

from fz_common import SC, clip4, fx, fxs, quats
from p_B11 import sphere_points


def replay(ck, Q, cases, dtype, bshape):
    """all behaviours of the same operations at once, as a batch where they agree"""
    for hist in cases:
        data = {"history": hist, "dtype": str(dtype)}
        with ck.guard("quaternion algebra", data, 30):
            def t(v):
                x = torch.tensor(v, dtype=dtype)
                return x.expand(*bshape, len(v)).clone()

            def same(a, want, what):
                ck.expect(tuple(a.shape[:-1]) == tuple(bshape) and bool((a.double() == torch.tensor(want, dtype=torch.float64)).all()),
                          what, lambda: dict(data, got=a.reshape(-1, a.shape[-1])[0].tolist(), want=want, step=i))

            def mag(a, w, what):
                ck.expect(tuple(a.shape) == tuple(bshape) and bool((a.double() == abs(w)).all()), what,
                          lambda: dict(data, got=a.reshape(-1)[0].item(), want=abs(w), step=i))

            q = t(hist[0]["q"])
            for i, op in enumerate(hist[1:], 1):
                std = op["q"] if op["q"][0] > 0 else [-v for v in op["q"]] if op["q"][0] < 0 else None
                if op["op"] in ("right", "left"):
                    a, b = (q, t(op["a"])) if op["op"] == "right" else (t(op["a"]), q)
                    k = (a.clone(), b.clone())
                    if len(bshape) > 0 and i % 2:  # broadcasting of a single quaternion
                        a, b = (a, torch.tensor(op["a"], dtype=dtype)) if op["op"] == "right" else (torch.tensor(op["a"], dtype=dtype), b)
                    same(Q.qu_prod_raw(a, b), op["q"], "product")
                    if std:
                        same(Q.qu_prod(a, b), std, "standardised product")
                    same(Q.qu_prod_axis(a, b), op["q"][1:], "vector part of the product")
                    mag(Q.qu_prod_pos_real(a, b), op["q"][0], "size of the real part of the product")
                    q = Q.qu_prod_raw(*k)
                elif op["op"] == "conj":
                    q = Q.qu_conj(q)
                    same(q, op["q"], "conjugate")
                elif op["op"] == "std":
                    q = Q.qu_std(q)
                    same(q, op["q"], "standardised quaternion")
                else:
                    a, b = t(op["a"]), t(op["b"])
                    mag(Q.qu_triple_prod_pos_real(a, q, b), op["q"][0], "size of the real part of a triple product")
                    q = Q.qu_prod_raw(a, Q.qu_prod_raw(q, b))
                    same(q, op["q"], "products associate")
                n2 = float(sum(v * v for v in op["q"]))
                got = Q.qu_apply(q / n2 ** 0.5, t(op["v"]))
                want = torch.tensor(op["applied"], dtype=torch.float64) / n2
                ck.expect(tuple(got.shape[:-1]) == tuple(bshape) and
                          float((got.double() - want).abs().max()) <= (1e-9 if dtype == torch.float64 else 2e-4),
                          "rotated vector", lambda: dict(data, got=got.reshape(-1, 3)[0].tolist(), want=want.tolist(), step=i))
    ck.trace(len(cases))


def run(ck):
    from ebsdtorch.s2_and_so3 import quaternions as Q

    n = 400 if ck.quick else 6000
    r = ck.tlc("QuatMachine", {"MaxOps": 6, "C": 4, "MaxNorm": 10000}, invariants=["Homomorphic", "Scaled", "EmitDone"],
               simulate=n, depth=9, label="algebra")
    shapes = [(), (3,), (2, 3), (1, 1, 2), (1,)]
    for k, h in enumerate(r.cases):
        replay(ck, Q, [h], (torch.float64, torch.float32)[k % 2], shapes[k % 5])
    for h in r.cases:
        for op in h:
            ck.count(f"operations {op['op']}")
    ck.sample(r.cases[0] if r.cases else None)
    out = []
    m = 250 if ck.quick else 3000
    for k, dtype in enumerate((torch.float64, torch.float32)):
        rng = ck.numpy_rng(k)
        q = quats(rng, m)
        s = rng.uniform(0.1, 4, (len(q), 1))
        for f, std in ((Q.qu_norm, False), (Q.qu_norm_std, True)):
            desc = {"function": "norm", "dtype": str(dtype)}
            with ck.guard("normalisation", desc, 30):
                t = torch.tensor(q * s, dtype=dtype)
                t = t[: len(t) - len(t) % 2].reshape(2, -1, 4)
                y = f(t.clone())
                ck.expect(y.shape == t.shape, "shape is kept", desc)
                for a, b in zip((t / 4).reshape(-1, 4), y.reshape(-1, 4)):
                    out.append(dict(kind="norm", std=std, q=fxs(a * 4 / max(1, float(a.norm() * 4) / 2), SC), out=clip4(fxs(b, SC))))
        # interpolation
        a, b = quats(rng, m), quats(rng, m)
        b[::7] = a[::7]
        b[1::7] = a[1::7] + rng.normal(0, 1e-3, b[1::7].shape)
        b /= np.linalg.norm(b, axis=1, keepdims=True)
        theta = 2 * np.arcsin(np.clip(np.linalg.norm(a - b, axis=1) / 2, 0, 1))
        ok = theta < 3.0
        a, b, theta = a[ok], b[ok], theta[ok]
        for j, tt in enumerate((0.0, 1.0, 0.5, 0.25, 0.3, 0.9)):
            desc = {"function": "slerp", "t": tt, "dtype": str(dtype)}
            with ck.guard("interpolation", desc, 30):
                x, y = torch.tensor(a[j::6], dtype=dtype), torch.tensor(b[j::6], dtype=dtype)
                sc = 1 + (j % 2)
                z = Q.qu_slerp(x.unsqueeze(j % 2) * sc, y.unsqueeze(j % 2) * sc, tt)
                ck.expect(z.shape == x.unsqueeze(j % 2).shape, "shape is kept", desc)
                for u, v, w, th in zip(x, y, z.reshape(-1, 4), theta[j::6]):
                    out.append(dict(kind="slerp", a=fxs(u, SC), b=fxs(v, SC), t=fx(tt, SC), theta=fx(th, SC), out=clip4(fxs(w, SC))))
        # rotations between directions
        p = sphere_points(rng, m)
        f = p[rng.permutation(len(p))]
        f[::5] = -p[::5]
        f[1::5] = p[1::5]
        f[2::10] = -p[2::10] + rng.normal(0, 0.01, f[2::10].shape)
        f[3::10] = p[3::10] + rng.normal(0, 0.01, f[3::10].shape)
        f /= np.linalg.norm(f, axis=1, keepdims=True)
        with ck.guard("rotation between directions", {"dtype": str(dtype)}, 30):
            x, y = torch.tensor(p, dtype=dtype), torch.tensor(f, dtype=dtype)
            z = Q.quaternion_rotate_sets_sphere(x.clone(), y.clone())
            ck.expect(tuple(z.shape) == (len(p), 4), "one rotation per pair", {})
            for sh in ((3, 5), (2, 1, 4), (1,), ()):   # any batch shape
                k = int(np.prod(sh))
                zz = Q.quaternion_rotate_sets_sphere(x[:k].reshape(*sh, 3).clone(), y[:k].reshape(*sh, 3).clone())
                ck.expect(tuple(zz.shape) == (*sh, 4), "one rotation per pair", {"shape": sh})
                for u, v, w in zip(x[:k], y[:k], zz.reshape(-1, 4)):
                    out.append(dict(kind="between", a=fxs(u, SC), b=fxs(v, SC), out=clip4(fxs(w, SC))))
            for u, v, w in zip(x, y, z):
                out.append(dict(kind="between", a=fxs(u, SC), b=fxs(v, SC), out=clip4(fxs(w, SC))))
        # next to the start or to its opposite
        for opposite in (False, True) if dtype == torch.float64 else (False,):
            x = torch.tensor(sphere_points(rng, m), dtype=dtype)
            size = 10 ** rng.uniform(-6 if dtype == torch.float64 else -4, -2.5, (len(x), 1))
            y = x.double().numpy() * (-1 if opposite else 1) + size * rng.normal(0, 1, x.shape)
            y = torch.tensor(y / np.linalg.norm(y, axis=1, keepdims=True), dtype=dtype)
            with ck.guard("rotation between directions", {"dtype": str(dtype), "beside": True}, 30):
                z = Q.quaternion_rotate_sets_sphere(x.clone(), y.clone())
                for u, v, w in zip(x.double(), y.double(), z.double()):
                    d = v + u if opposite else v - u
                    mag = 0.5 / max(float(d.abs().max()), 1e-12)
                    out.append(dict(kind="beside", opposite=opposite, a=fxs(u, SC), d=fxs(d * mag, SC), out=clip4(fxs(w, SC)),
                                    um=[0, 0, 0] if opposite else clip4(fxs(w[1:] * mag, SC)), cm=clip4([fx(w[0] * mag, SC)])[0] if opposite else 0,
                                    pm=clip4([fx((w[1:] * u).sum() * mag, SC)])[0]))
        with ck.guard("angle", {"dtype": str(dtype)}, 30):
            x = torch.tensor(quats(rng, m), dtype=dtype)
            # of unit length up to a rounding
            x = torch.cat([x * torch.tensor(1 + torch.finfo(dtype).eps * rng.integers(-1, 3, (len(x), 1)), dtype=dtype),
                           torch.tensor([[1, 0, 0, 0], [-1.0, 0, 0, 0]], dtype=dtype) * (1 + torch.finfo(dtype).eps)])
            z = Q.qu_angle(x.unsqueeze(0))
            ck.expect(tuple(z.shape) == (1, len(x)), "one angle per rotation", {})
            for u, v in zip(x, z.reshape(-1)):
                out.append(dict(kind="angle", q=fxs(u, SC), angle=max(-90000, min(90000, fx(v, SC)))))
        ck.trace()
    ck.count("records", len(out))
    ck.tlc("QuatTrace", data=dict(Samples=out), invariants=["Judged"], verdict=True, label="recorded results")
