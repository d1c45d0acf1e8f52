"""Orientation conversions: walks generated by ConversionWalk.tla are replayed and
every value on the way is judged by ConversionTrace.tla."""
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import torch

from fz_common import SC, batch, quats, special_quats

EDGES = """om2qu om2ax ax2om cu2ho ho2cu ho2ax ax2ho ax2ro ro2ax ax2qu qu2ax qu2ro qu2ho qu2bu bu2qu qu2om
zh2om om2zh zh2qu qu2zh qu2cu om2ho ax2cu ro2qu ro2om ro2cu ro2ho cu2ax cu2qu cu2om cu2ro ho2qu ho2om ho2ro
om2ro om2cu bu2om bu2ax bu2ro bu2cu bu2ho om2bu ax2bu ro2bu cu2bu ho2bu""".split()
VARIANTS = {"ho2ax exact": ("ho2ax", (False,)), "ho2ax kikuchipy": ("ho2ax_reference", ("kikuchipy",)),
            "ho2ax EMsoft": ("ho2ax_reference", ("EMsoft",)), "ho2ax newton": ("ho2ax_newton", ())}


def start(rep, q, how=0):
    """representations built independently of the library, double precision"""
    w, v = q[:, 0], q[:, 1:]
    s = np.linalg.norm(v, axis=1)
    ang = 2 * np.arctan2(s, w)
    ax = np.where(s[:, None] > 1e-12, v / np.maximum(s, 1e-30)[:, None], [0.0, 0, 1])
    if rep == "qu":
        return q
    if rep == "ax":
        return np.concatenate([ax, ang[:, None]], 1)
    if rep == "ro":
        with np.errstate(divide="ignore"):
            t = np.where(w < 1e-12, np.inf, s / np.maximum(w, 1e-300))
        return np.concatenate([ax, t[:, None]], 1)
    x, y, z = v.T
    m = np.stack([1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z),
                  2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], 1)
    if rep == "om":
        return m.reshape(-1, 3, 3)
    if rep == "zh":
        return m[:, :6]
    h = np.where(ang < 0.01, ang / 2 * (1 - ang ** 2 / 60), (0.75 * (ang - np.sin(ang))) ** (1 / 3))
    ho = ax * h[:, None]
    if rep == "ho":
        return ho
    if rep == "bu":
        c, ss = np.hypot(w, z), np.hypot(x, y)
        Phi = 2 * np.arctan2(ss, c)
        sg = np.arctan2(-z, w)
        de = np.where(ss > 1e-12, np.arctan2(-y, -x), sg)
        sg = np.where(c > 1e-12, sg, de)
        return np.stack([(sg + de) % (2 * np.pi), Phi, (sg - de) % (2 * np.pi)], 1)
    if rep == "cu":
        out = np.zeros_like(ho)
        for j, d in enumerate(ho):
            r = np.linalg.norm(d)
            if r < 1e-12:
                continue
            p = np.argsort(-np.abs(d), kind="stable")
            a = np.abs(d[p])
            b = r * (np.pi / 6) ** (1 / 3)
            # invert the in-plane ratio by bisection, then the height
            lo, hi = 0.0, np.pi / 12
            for _ in range(60):
                t = (lo + hi) / 2
                if 2 ** 0.5 * np.sin(t) * a[1] > (2 ** 0.5 * np.cos(t) - 1) * a[2]:
                    hi = t
                else:
                    lo = t
            C = np.cos(lo)
            f = (3 - 8 ** 0.5 * C) / (2 ** 0.5 * (2 ** 0.5 - C))
            mm = b * np.sqrt(max(0.0, (1 - a[0] / r) / f))
            u = np.array([b, mm, mm * lo * 12 / np.pi])
            out[j, p] = np.copysign(u, d[p])
        return out
    raise KeyError(rep)


def encode(rep, t):
    v = t.detach().double().numpy().reshape(t.shape[0] if t.ndim > 1 else 1, -1)
    if rep == "ro":
        w = v[:, 3]
        c = np.where(np.isinf(w), 0.0, 1 / np.hypot(1, np.where(np.isinf(w), 0, w)))
        s = np.where(np.isinf(w), np.sign(w), w * c)
        v = np.concatenate([v[:, :3], c[:, None], s[:, None]], 1)
    v = np.where(np.isfinite(v), v, 9.0)
    return np.clip(np.rint(v * SC), -80000, 80000).astype(int).tolist()


TAIL = {"om": 2}


def run(ck):
    from ebsdtorch.s2_and_so3 import orientations as O

    fns = {e: (getattr(O, e), e[:2], e[3:], ()) for e in EDGES}
    for k, (f, args) in VARIANTS.items():
        fns[k] = (getattr(O, f), k[:2], k[3:5], args)
    functions = "{" + ", ".join(f'<<"{k}", "{a}", "{b}">>' for k, (_, a, b, _) in sorted(fns.items())) + "}"
    inv = ["SameRotation", "Typed", "Connected", "EmitDone"]
    cases = ck.tlc("ConversionWalk", {"Functions": functions, "MaxLen": 1, "Mode": '"edges"'}, invariants=inv, label="every conversion").cases
    ck.extra["conversions"] = len(cases)
    walks = ck.tlc("ConversionWalk", {"Functions": functions, "MaxLen": 6, "Mode": '"walk"'}, invariants=inv, simulate=60 if ck.quick else 500,
                   depth=9, label="walks").cases
    recs = {}
    rng = ck.numpy_rng(0)
    sp = special_quats()
    sp = np.where(sp[:, :1] < -1e-12, -sp, sp)
    sp[np.abs(sp) < 1e-15] = 0.0
    jobs = [(p, dt, "edge") for p in cases for dt in (torch.float64, torch.float32)]
    jobs += [(p, torch.float64, "walk") for p in walks]
    jobs += [(p[:4], torch.float32, "walk") for p in walks[::2]]
    for k, (path, dtype, kind) in enumerate(jobs):
        n = (40 if kind == "edge" else 8) * (1 if ck.quick else 4)
        r = quats(rng, n)[:n]
        q = np.concatenate([sp[rng.permutation(len(sp))[: n // 2]], [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1.0]],
                            np.where(r[:, :1] < 0, -r, r)])
        if kind == "edge":  # rotations by next to nothing, and nearly half a turn
            a = np.repeat(10.0 ** np.arange(-8, -2), 2)[:, None]
            v = rng.normal(size=(12, 3))
            v /= np.linalg.norm(v, axis=1, keepdims=True)
            q = np.concatenate([np.concatenate([np.cos(a), np.sin(a) * v], 1), np.concatenate([np.sin(a), np.cos(a) * v], 1)[:6], q])
        q /= np.linalg.norm(q, axis=1, keepdims=True)
        q = q[: len(q) - len(q) % 6]
        w = 2 * np.arctan2(np.linalg.norm(q[:, 1:], axis=1), q[:, 0])
        rep = path[0]
        x = torch.tensor(start(rep, q), dtype=dtype)
        if rep == "qu":  # either sign is the same rotation
            x = x * torch.tensor(rng.choice([-1.0, 1.0], (len(q), 1)), dtype=dtype)
            # of unit length up to a rounding
            x = x * torch.tensor(1 + torch.finfo(dtype).eps * rng.integers(-1, 3, (len(q), 1)), dtype=dtype)
        shape = (len(q),) if k % 4 == 0 else (2, len(q) // 2) if k % 4 == 1 else (len(q), 1) if k % 4 == 2 else (3, 2, len(q) // 6)
        x = x.reshape(shape + x.shape[1:])
        desc = {"path": path, "dtype": str(dtype), "batch": list(shape)}
        with ck.guard("conversion", desc, 60):
            for step, name in enumerate(path[1:]):
                f, a, b, args = fns[name]
                keep = x.clone()
                y = f(x, *args)
                ck.expect(torch.equal(torch.nan_to_num(x, 7.0), torch.nan_to_num(keep, 7.0)), "the input is not changed", dict(desc, step=step))
                want = shape + {"qu": (4,), "ax": (4,), "ro": (4,), "om": (3, 3), "zh": (6,)}.get(b, (3,))
                if not ck.expect(tuple(y.shape) == want and y.dtype == dtype, "batch shape and precision are kept",
                                 dict(desc, step=name, got=list(y.shape))):
                    break
                tol = 4 if dtype == torch.float64 else (22 if kind == "edge" else 40)
                tol += 2 * step if dtype == torch.float64 else 8 * step
                v = encode(b, y.reshape(len(q), -1))
                for j in range(len(q)):
                    rec = dict(rep=b, v=v[j], q=[int(round(c * SC)) for c in q[j]], w=int(round(w[j] * SC)), tol=tol, path=path[:step + 2],
                               dtype=str(dtype)[6:])
                    recs.setdefault((b, tuple(v[j]), tuple(rec["q"]), tol), rec)
                x = y
            ck.trace()
        if k % 100 == 0:
            ck.sample(desc)
    # a single rotation without batch dimension
    for name, (f, a, b, args) in sorted(fns.items()):
        desc = {"path": [a, name], "batch": []}
        with ck.guard("conversion", desc, 30):
            q = np.array([[0.5, 0.5, -0.1, 0.7]])
            q /= np.linalg.norm(q)
            x = torch.tensor(start(a, q))[0]
            y = f(x, *args)
            if ck.expect(tuple(y.shape) == {"qu": (4,), "ax": (4,), "ro": (4,), "om": (3, 3), "zh": (6,)}.get(b, (3,)), "batch shape is kept", desc):
                rec = dict(rep=b, v=encode(b, y.reshape(1, -1))[0], q=[int(round(c * SC)) for c in q[0]],
                           w=int(round(2 * np.arccos(q[0, 0]) * SC)), tol=6, path=[a, name], dtype="float64")
                recs[("one", name)] = rec
            ck.trace()
    # six-dimensional vectors need not be orthonormal: same frame by Gram-Schmidt
    q = quats(rng, 20)
    q = np.where(q[:, :1] < 0, -q, q)
    m = start("om", q)
    s = rng.uniform(0.3, 3, (len(q), 3))
    z = np.concatenate([m[:, 0] * s[:, :1], m[:, 1] * s[:, 1:2] + m[:, 0] * s[:, 2:]], 1)
    w = 2 * np.arccos(np.clip(q[:, 0], 0, 1))
    with ck.guard("conversion", {"path": ["zh", "zh2om"]}, 30):
        for b, y in (("om", O.zh2om(torch.tensor(z))), ("qu", O.zh2qu(torch.tensor(z)))):
            v = encode(b, y.reshape(len(q), -1))
            for j in range(len(q)):
                recs[("zh", b, j)] = dict(rep=b, v=v[j], q=[int(round(c * SC)) for c in q[j]], w=int(round(w[j] * SC)), tol=5,
                                          path=["unnormalised zh", b], dtype="float64")
    # rotations of any small angle keep it: the vector part, magnified to a rotation by one radian, is judged as that rotation
    for name, (f, a, b, args) in sorted(fns.items()):
        if {a, b} & {"bu", "zh"}:
            continue
        for dtype in (torch.float64, torch.float32):
            n = 12 if ck.quick else 60
            u = rng.normal(size=(n, 3))
            u /= np.linalg.norm(u, axis=1, keepdims=True)
            w = 10.0 ** rng.uniform(-6, -2, (n, 1))
            x = torch.tensor(start(a, np.concatenate([np.cos(w / 2), np.sin(w / 2) * u], 1)), dtype=dtype)
            with ck.guard("conversion", {"path": ["tiny rotations", name], "dtype": str(dtype)}, 30):
                y = f(x, *args).double().numpy().reshape(n, -1)
                y = np.where(np.isfinite(y), y, 9.0)
                one = np.full((n, 1), 1.0)
                ho = (0.75 * (1 - np.sin(1))) ** (1 / 3) / (w / 2)
                if b == "om":
                    y = np.stack([y[:, 7] - y[:, 5], y[:, 2] - y[:, 6], y[:, 3] - y[:, 1]], 1) / 2
                    y = np.concatenate([one * np.cos(0.5), y * np.sin(0.5) / np.sin(w)], 1)
                elif b == "qu":
                    y = np.concatenate([np.sign(y[:, :1]) * np.cos(0.5), y[:, 1:] * np.sin(0.5) / np.sin(w / 2)], 1)
                elif b == "ax":
                    y = np.concatenate([y[:, :3], y[:, 3:] / w], 1)
                elif b == "ro":
                    y = np.concatenate([y[:, :3], y[:, 3:] * np.tan(0.5) / np.tan(w / 2)], 1)
                else:
                    y = y * ho
                v = encode("qu" if b == "om" else b, torch.tensor(y))
                for j in range(n):
                    q1 = [np.cos(0.5), *(np.sin(0.5) * u[j])]
                    recs[("tiny", name, str(dtype), j)] = dict(rep="qu" if b == "om" else b, v=v[j], q=[int(round(c * SC)) for c in q1], w=int(SC),
                                                               tol=4 if dtype == torch.float64 else 12, path=[f"magnified from {float(w[j, 0]):.2g} radians", name], dtype=str(dtype)[6:])
            ck.trace()
    # Clifford torus angles
    q = quats(rng, 50)
    for dtype in (torch.float64, torch.float32):
        with ck.guard("Clifford torus", {"dtype": str(dtype)}, 30):
            g = O.qu2cl(torch.tensor(q, dtype=dtype)[None]).double().numpy()[0]
            pairs = [(1, 0), (3, 2), (2, 0), (1, 3), (3, 0), (2, 1)]
            for c, (a, b) in enumerate(pairs):
                ok = np.hypot(q[:, a], q[:, b]) > 1e-3
                e = np.abs(np.sin(g[:, c]) * q[:, b] - np.cos(g[:, c]) * q[:, a])[ok]
                ck.expect(bool((e < 1e-4).all()) and bool((np.cos(g[:, c])[ok] >= -1e-6).all()), "torus angle of a pair of components", {"column": c})
    out = list(recs.values())
    ck.count("records", len(out))
    step = (len(out) + 7) // 8
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda lo: ck.tlc("ConversionTrace", data=dict(Samples=out[lo:lo + step]), invariants=["Judged"],
                                      verdict=True, label="values", timeout=780), range(0, len(out), step)))
