"""Atom sites of a unit cell and what is counted from them."""
import torch

import crystal_common as X

SPECIAL = [0, 0, 120, 120, 60, 180, 80, 160, 30, 90, 40, 200, 150]


def point(rng, kind):
    if kind == 0:
        return [int(rng.choice(SPECIAL)) for _ in range(3)]
    if kind == 1:                                        # on a line through special points
        x = int(rng.integers(1, 240))
        y = int(rng.choice([x, -x, 2 * x, 0, x + 120, 120, x + 60]))
        return [x, y % 240, int(rng.choice([x, 0, 120, -x, 60])) % 240]
    return [int(v) for v in rng.integers(0, 240, 3)]


def run(ck):
    from ebsdtorch.crystallography.unit_cell import Cell

    rng = ck.numpy_rng(0)
    rounds = 1 if ck.quick else 5
    recs = []
    for rd in range(rounds):
        sites = {s: [point(rng, k) for k in [0, 0, 1, 2][: int(rng.integers(2, 5))]] for s in X.ALL}
        cases = X.settings(ck, X.ALL, sites, label=f"sites {rd}")
        for (n, st), c in sorted(cases.items()):
            e, cs = X.edges(X.system_of(n), rng)
            units, deg = ["nm", "angstrom", "pm"][int(rng.integers(0, 3))], bool(rng.integers(0, 2))
            pts = sites[n, st]
            whole = bool(rng.integers(0, 2))
            z = [int(v) for v in rng.integers(1, 97, len(pts))]
            occ = [100 if whole else int(rng.integers(1, 101)) for _ in pts]
            wrap = [[int(v) for v in rng.integers(-1, 2, 3)] if rng.integers(0, 3) == 0 else [0] * 3 for _ in pts]
            short = bool(rng.integers(0, 3) == 0)
            dw = [float(rng.integers(1, 20)) / 1000 for _ in pts]
            atoms = []
            for k, p in enumerate(pts):
                xyz = [p[j] / 240 + wrap[k][j] for j in range(3)]
                if short:
                    xyz = [round(v, 5 + n % 2) for v in xyz]
                atoms.append((z[k], *xyz, occ[k] / 100, dw[k]))
            data = {"space_group": n, "setting": st, "sites": pts, "e": e, "c": cs, "units": units, "cells_away": wrap, "rounded": short}
            with ck.guard("unit cell", data, 60):
                cell = X.make(Cell, n, st, e, cs, atoms, units, deg)
                ck.expect(len(cell.apos) == len(pts) and cell.n_s == len(pts), "one orbit per site", data)
                for k, orb in enumerate(c["orbits"]):
                    a = cell.apos[k]
                    ck.expect(a.dtype == torch.float64 and a.dim() == 2 and a.shape[1] == 3, "shape of the sites", data)
                    g = a * 240
                    ck.expect(float((g - g.round()).abs().max()) < 0.02, "sites on the grid", data)
                    ck.expect(bool((a > -1e-5).all() and (a < 1).all()), "sites within the cell", data)
                    have = [tuple(int(v) % 240 for v in r) for r in g.round().long().tolist()]
                    want = {tuple(r) for r in orb}
                    ck.expect(len(set(have)) == len(have), "each site once", lambda: dict(data, which=k, got=len(have), want=len(want)))
                    ck.expect(set(have) == want, "sites of the orbit", lambda: dict(data, which=k, extra=sorted(set(have) - want)[:3], missing=sorted(want - set(have))[:3]))
                    ck.expect(int(cell.mults[k]) == len(want), "multiplicity", lambda: dict(data, which=k))
                ck.expect(cell.atom_types.tolist() == z and cell.atom_ntype == len(set(z)), "elements", data)
                numat = cell.mults
                z2 = Cell.z2_percent(cell.atom_types, numat, cell.atom_data)
                ck.expect(torch.equal(cell.get_density, cell.density) and torch.equal(cell.get_volume, cell.vol), "getters", data)
                recs.append(dict(kind="density", e=e, c=cs, z=z, occ=occ, whole=whole, mult=[len(o) for o in c["orbits"]], density=X.fixn([cell.density], 1000)[0],
                                 aw=X.fixn([cell.get_average_atomic_weight], 1000)[0], an=X.fixn([cell.get_average_atomic_number], 100)[0], z2=X.fixn(z2, 10), id={"space_group": n, "setting": st}))
                text = str(cell)
                ck.expect(f"Space Group: {n} " in text, "the description names the group", data)
            ck.trace()
    ck.sample({"settings": len(X.ALL), "cells": len(recs)})
    X.judge(ck, recs, "densities")
