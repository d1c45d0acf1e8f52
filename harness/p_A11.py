"""Online component analysis (Oja, Krasulina): recorded streams judged by PcaStream.tla."""
import torch

import crystal_common as X
import pca_common as P


def run(ck):
    from ebsdtorch.utils.pca_online import KrasulinaPCA, OjaPCA

    rng = ck.numpy_rng(0)
    D = torch.float64
    recs = []
    for q in range(160 if ck.quick else 2500):
        f = int(rng.integers(1, 7))
        k = int(rng.integers(1, f + 1))
        dt = D if rng.integers(0, 3) else torch.float32
        plus = bool(rng.integers(0, 3) == 0)
        e16 = [1, 2, 4, 3][int(rng.integers(0, 4))]
        ident = {"features": f, "components": k, "type": str(dt), "plus": plus, "eta16": e16}
        torch.manual_seed(int(rng.integers(0, 1 << 30)))
        ev = [dict(model="oja", op="new", f=f)]
        with ck.guard("Oja", ident, 30):
            m = OjaPCA(f, k, eta=e16 / 16, dtype=dt, **(dict(use_oja_plus=plus) if plus or rng.integers(0, 2) else {}))
            for s in range(int(rng.integers(1, 8))):
                x = torch.tensor(rng.integers(-3, 4, (int(rng.integers(1, 5)), f)), dtype=dt)
                before = m.get_components().clone()
                if before.abs().max() > 3:
                    m.Q.clamp_(-3, 3)
                    before = m.get_components().clone()
                keep = x.clone()
                m(x)
                ck.expect(torch.equal(x, keep), "samples are not modified", ident)
                after = m.get_components()
                y = torch.tensor(rng.integers(-3, 4, (2, f)), dtype=dt)
                z = m.transform(y)
                b = m.inverse_transform(z)
                ok = after.shape == (f, k) and z.shape == (2, k) and b.shape == (2, f) and after.dtype == dt
                ck.expect(ok, "shapes of components and projections", ident)
                if not ok:
                    break
                sing = torch.linalg.svdvals((before.double() + e16 / 16 * keep.double().T @ keep.double() @ before.double()))
                if sing.min() < 1e-3 * sing.max():
                    break
                ev.append(dict(model="oja", op="feed", f=f, k=k, x=[[int(v) for v in r] for r in keep], eta16=e16, before=P.fx(before, 1e6), after=P.fx(after), plus=plus, step=int(m.step), drawn=m.initialized_cols.tolist() if plus else [],
                               y=[[int(v) for v in r] for r in y], z=P.fx(z), back=P.fx(b), tol=1500 if dt == D else 20000))
                if (y.abs() @ after.abs()).max() > 18 or (z.abs() @ after.abs().T).max() > 18:
                    ev.pop()
                    break
        recs.append(ev)
        ck.trace()
    # convergence, in batches of any size and order
    for q, c in enumerate(P.schedules(ck, 4) * (3 if ck.quick else 30)):
        w = [0.5 + 0.5 * int(v) for v in rng.permutation(4)]
        k = 1 + q % 4
        h = torch.tensor(P.HAD, dtype=D) * torch.tensor(w, dtype=D)[:, None]
        x = h[torch.tensor(rng.permutation(4))].roll(c["start"], 0)
        dt = D if q % 3 else torch.float32
        rank = sorted(range(4), key=lambda i: -w[i])[:k]
        torch.manual_seed(q)
        ident = {"weights": w, "batches": c["cuts"], "components": k}
        with ck.guard("convergence of Oja", ident, 60):
            m = OjaPCA(4, k, eta=0.25, dtype=dt)
            for _ in range(60):
                for part in x.to(dt).split(c["cuts"]):
                    m(part)
            recs.append([dict(model="oja", op="new", f=4), dict(model="oja", op="end", f=4, k=k, x=[], rank=[r + 1 for r in rank], after=P.fx(m.get_components()), tol=1500 if dt == D else 5000)])
        ck.trace()
    for q in range(160 if ck.quick else 2500):
        f = int(rng.integers(1, 7))
        k = int(rng.integers(1, min(f, 3) + 1))
        dt = D if rng.integers(0, 4) else torch.float32
        eta = [0.5, 0.25, 1.0, 0.125][int(rng.integers(0, 4))]
        ident = {"model": "Krasulina", "features": f, "components": k, "type": str(dt), "eta": eta}
        torch.manual_seed(int(rng.integers(0, 1 << 30)))
        ev = [dict(model="krasulina", op="new", f=f)]
        with ck.guard("Krasulina", ident, 30):
            m = KrasulinaPCA(f, k, dtype=dt, **(dict(eta=eta) if eta != 0.5 or rng.integers(0, 2) else {}))
            for s in range(int(rng.integers(1, 6))):
                x = torch.tensor(rng.integers(-2, 3, (int(rng.integers(1, 4)), f)), dtype=dt)
                eye = torch.eye(k, dtype=dt)
                C, dual = m.inverse_transform(eye).clone(), m.transform(torch.eye(f, dtype=dt)).clone()
                keep = x.clone()
                m(x)
                ck.expect(torch.equal(x, keep), "samples are not modified", ident)
                C2, dual2, u = m.inverse_transform(eye), m.transform(torch.eye(f, dtype=dt)), m.get_components()
                y = torch.tensor(rng.integers(-2, 3, (2, f)), dtype=dt)
                z = m.transform(y)
                b = m.inverse_transform(z)
                ok = C2.shape == (f, k) and dual2.shape == (k, f) and u.shape == (f, k) and z.shape == (k, 2) and b.shape == (f, 2)
                ck.expect(ok, "shapes of components and projections", ident)
                # values that the specification can hold
                big = max(t.abs().max().item() for t in (C, dual, C2, dual2, dual.abs() @ x.abs().T / 4, z / 4, C2.abs() @ z.abs() / 4))
                h = dual @ x.T
                big = max(big, h.norm(dim=0).max().item(), (C.abs() @ h.abs()).max().item() / 3, ((x.T - C @ h).abs() @ h.abs().T).max().item() / 3, (x.T - C @ h).abs().max().item() / 3,
                          ((x.T - C @ h).abs().max() * h.abs().max()).item() / 4)
                if not ok or big > 4:
                    break
                ev.append(dict(model="krasulina", op="feed", f=f, k=k, x=[[int(v) for v in r] for r in keep], eta8=int(eta * 1e8), before=P.fx(C), dual=P.fx(dual), after=P.fx(C2), dualAfter=P.fx(dual2), u=P.fx(u),
                               y=[[int(v) for v in r] for r in y], z=P.fx(z.T), back=P.fx(b.T), tol=4000 if dt == D else 40000))
        recs.append(ev)
        ck.trace()
    P.judge(ck, recs)
