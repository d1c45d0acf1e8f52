"""Monte Carlo histograms of backscattered electrons, judged by ElectronTrace.tla."""
import contextlib
import io
import math
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import torch

import crystal_common as X

# Z, A, density
MATTER = [(6.0, 12.011, 2.2), (14.0, 28.086, 2.33), (29.0, 63.546, 8.96), (79.0, 196.97, 19.3), (22.0, 47.867, 4.5)]


def constants(Z, A, rho, E):
    """screening, mean free path (nm), relative energy loss over it and over the logarithm, ionisation potential"""
    a = 3.4e-3 * Z**0.66667 / E
    sig = 5.21 * 602.2 * (Z / E) ** 2 * 4 * math.pi / (a * (1 + a)) * ((511 + E) / (1024 + E)) ** 2
    mfp = 1e7 * A / (rho * sig)
    return a, mfp, mfp * rho * 0.00785 * Z / (A * E * E), (9.76 * Z + 58.5 * Z**-0.19) * 1e-3 / E


def run(ck):
    from ebsdtorch.simulation.monte_carlo import bse_sim_mc

    rng = ck.numpy_rng(0)

    def sim(seed, mat, E, ne, nd, ndir, eb, db, n, sims, steps, sigma, omega, bse=10**9, dtype=torch.float32):
        torch.manual_seed(seed)
        with contextlib.redirect_stdout(io.StringIO()):
            return bse_sim_mc(starting_E_keV=E, n_exit_energy_bins=ne, n_exit_direction_bins=ndir, n_exit_depth_bins=nd, binsize_exit_energy=eb, binsize_exit_depth=db, atom_num=mat[0],
                              unit_cell_density_rho=mat[2], atomic_weight_A=mat[1], n_electrons=n, n_bse_electrons_max=bse, n_simulations_max=sims, n_max_steps=steps, sigma=sigma, omega=omega,
                              dtype=dtype, device=torch.device("cpu"))

    recs = []
    # flights of a few events
    for q in range(8 if ck.quick else 48):
        mat = MATTER[q % len(MATTER)]
        E = float(rng.integers(100, 300)) / 10
        steps = [0, 1, 1, 3, 0, 2, 1, 6][q % 8]
        sigma = float(rng.choice([0.0, 70.0, 45.0, 60.0, 80.0]))
        omega = float(rng.choice([0.0, 0.0, 90.0, 200.0]))
        if steps == 0:
            E, sigma = float(rng.integers(20, 100)) / 1000, float(rng.choice([100.0, 120.0, 150.0]))
        a, mfp, K, J = constants(*mat, E)
        # energy range: most of the losses
        eb = round(K * math.log(1.166 / J + 0.9911) * (steps + 1) * 0.35, 7) * E
        db = round(mfp * 0.45, 4)
        ne, nd = 5, 4
        data = {"matter": mat, "energy": E, "events": steps + 1, "tilt": sigma, "azimuth": omega, "energy bin": eb, "depth bin": db}
        with ck.guard("electron flights", data, 120):
            sims = 400000
            h = sim(ck.seed * 1000 + q, mat, E, ne, nd, 4, eb, db, 2000, sims, steps, sigma, omega, dtype=torch.float64 if q % 4 == 3 else torch.float32)
            if not ck.expect(tuple(h.shape) == (ne, nd, 4, 4), "energy by depth by direction", data):
                continue
            h = h.double().numpy()
            cl = [h.sum()] + list(h.sum((1, 2, 3))) + list(h.sum((0, 2, 3)))
            d = h.sum((0, 1))
            quad = lambda m, x, y: m[2 * x:2 * x + 2, 2 * y:2 * y + 2]
            inner = d.copy()
            inner[[0, 3]] = 0
            inner[:, [0, 3]] = 0
            cl += [quad(inner, x, y).sum() for x in (0, 1) for y in (0, 1)] + [quad(d - inner, x, y).sum() for x in (0, 1) for y in (0, 1)]
            hi = [0 if 2 * i < ne else 1 for i in range(ne)]
            hd = [0 if 2 * i < nd else 1 for i in range(nd)]
            for i in (0, 1):
                for j in (0, 1):
                    for x in (0, 1):
                        cl.append(h[[k for k in range(ne) if hi[k] == i]][:, [k for k in range(nd) if hd[k] == j]][:, :, 2 * x:2 * x + 2].sum())
            n = (6000 if ck.quick else 24000) // (steps + 1)
            psi = rng.uniform(0, 2 * math.pi, (n, steps + 1))
            uni = np.stack([rng.random((n, steps + 1)), np.minimum(rng.exponential(1, (n, steps + 1)), 15), np.cos(psi), np.sin(psi)], -1)
            s, o = math.radians(sigma), math.radians(omega)
            base = dict(op="fly", E0=int(round(E * 1e4)), a0=X.fixn([a], 1e8)[0], K=X.fixn([K], 1e8)[0], J=X.fixn([J], 1e8)[0], dir=X.fixn([math.sin(s) * math.cos(o), math.sin(s) * math.sin(o), math.cos(s)], 1e8),
                        eb=X.fixn([eb / E], 1e8)[0], db=X.fixn([db / mfp], 1e8)[0], ne=ne, nd=nd, code=[int(v) for v in cl], sims=sims, id=data)
            recs.append(dict(base, uni=np.rint(uni * 1e8).astype(int).tolist()))
        ck.trace()
        ck.sample(data)
    few = []
    # energy losses over one event of electrons that start outwards
    for q in range(8 if ck.quick else 30):
        mat = MATTER[q % len(MATTER)]
        E = float(rng.integers(50, 400)) / 10
        a, mfp, K, J = constants(*mat, E)
        loss = K * math.log(1.166 / J + 0.9911)
        ne = int(rng.integers(4, 12))
        eb = round(loss * float(rng.uniform(0.15, 0.4)), 7) * E
        sims = 100000
        data = {"matter": mat, "energy": E, "energy bin": eb, "bins": ne, "one event": True}
        with ck.guard("electron losses", data, 60):
            h = sim(ck.seed * 1000 + 500 + q, mat, E, ne, 1, 2, eb, 1.0, 1000, sims, 0, 180.0, 0.0).double().numpy()
            # nearly all leave: those that turn back are few
            few.append(dict(op="losses", K=X.fixn([K], 1e8)[0], J=X.fixn([J], 1e8)[0], eb=X.fixn([eb / E], 1e8)[0], ne=ne, code=[int(v) for v in h.sum((1, 2, 3))], sims=int(round(sims * (1 - a / (1 + 2 * a)))), id=data))
        ck.trace()
    # angles after one event of electrons that start straight outwards, at low energies
    for q in range(5 if ck.quick else 30):
        mat = MATTER[q % len(MATTER)]
        E = float(rng.integers(20, 150)) / 1000
        a = constants(*mat, E)[0]
        n, sims = int(rng.integers(2, 9)), 100000
        data = {"matter": mat, "energy": E, "bins": 2 * n, "one event": True}
        with ck.guard("electron angles", data, 60):
            h = sim(ck.seed * 1000 + 900 + q, mat, E, 1, 1, 2 * n, 1e9, 1.0, 1000, sims, 0, 180.0, 0.0).double().numpy().sum((0, 1))
            i = np.abs(np.arange(2 * n) - n + 0.5)
            ring = np.maximum.outer(i, i)
            sx = (np.arange(2 * n) >= n).astype(int)
            big = np.subtract.outer(i, i)
            octo = sx[:, None] * 4 + sx[None] * 2 + (big > 0)
            # the bins on the diagonal belong to two octants
            few.append(dict(op="angles", n=n, a0=X.fixn([a], 1e8)[0], sims=sims, rings=[int(h[ring == j + 0.5].sum()) for j in range(n)],
                            octants=[int(2 * h[(octo == j) & (big != 0)].sum() + h[((octo | 1) == (j | 1)) & (big == 0)].sum()) // 2 for j in range(8)], id=data))
        ck.trace()
    # electrons too fast to turn
    for q in range(60 if ck.quick else 600):
        n = int(rng.integers(1, 24))
        A = B = 0
        while A == 0 or abs(B) > abs(A) or abs(A) >= 2 * n:
            A, B = (int(rng.integers(-n, n)) * 2 + 1 for _ in range(2))
            if (A + 2 * n) % 4 == 0 or (B + 2 * n) % 4 == 0:
                A = 0
        sg = math.degrees(math.acos(-(1 - (A / 2 / n) ** 2)))
        om = 45.0 * B / A + (180.0 if A < 0 else 0.0)
        swap = bool(rng.integers(0, 2))
        om2 = 90.0 - om if swap else om
        data = {"bins": n, "tilt": sg, "azimuth": om2}
        with ck.guard("straight electrons", data, 30):
            h = sim(q, MATTER[0], 1e7, 3, 2, n, 1e6, 1.0, 50, 100, 0, sg, om2)
            d = h.sum((0, 1))
            if ck.expect(h[0, 0].sum() == h.sum(), "electrons that leave at once lose no energy and come from the surface", data) and d.sum() > 50:
                at = int(d.argmax())
                few.append(dict(op="straight", n=n, A=A, B=B, swap=swap, sigma=X.fixn([math.radians(sg)], 1e8)[0], omega=X.fixn([math.radians(om)], 1e8)[0], at=[at // n, at % n], id=data))
        ck.trace()
    # the same electrons in finer or more bins
    for q in range(6 if ck.quick else 40):
        mat = MATTER[q % len(MATTER)]
        E, steps, sigma = float(rng.integers(10, 30)), int(rng.integers(1, 40)), float(rng.choice([0.0, 70.0]))
        ne, nd, ndir, eb, db = int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(1, 5)), float(rng.integers(1, 20)) / 10, float(rng.integers(4, 300)) / 10
        args = lambda ne, nd, ndir, eb, db: sim(ck.seed * 1000 + 700 + q, mat, E, ne, nd, ndir, eb, db, 500, 5000, steps, sigma, 0.0)
        data = {"matter": mat, "energy": E, "steps": steps, "tilt": sigma, "bins": [ne, nd, ndir], "sizes": [eb, db]}
        with ck.guard("histograms", data, 60):
            c = args(ne, nd, ndir, eb, db)
            f = args(2 * ne, 2 * nd, 2 * ndir, eb / 2, db / 2)
            f = f.reshape(ne, 2, nd, 2, ndir, 2, ndir, 2).sum((1, 3, 5, 7))
            m = args(ne + 2, nd + 3, ndir, eb, db)[:ne, :nd]
            same = dict(op="same", coarse=c.flatten().int().tolist(), id=data)
            few.append(dict(same, fine=f.flatten().int().tolist(), what="bins of half the size add up"))
            few.append(dict(same, fine=m.flatten().int().tolist(), what="more bins contain the same electrons"))
        ck.trace()
    jobs = [[r] for r in recs] + [few]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: ck.tlc("ElectronTrace", data=dict(Samples=jobs[j]), invariants=["Judged"], verdict=True, timeout=1500, heap="2500m", label=f"runs {j}"), range(len(jobs))))
