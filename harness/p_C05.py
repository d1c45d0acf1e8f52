"""Lattice geometry of a unit cell, judged by CellTrace.tla."""
import math

import torch

import crystal_common as X


def cell_of(Cell, rng, n=None):
    n = int(rng.integers(1, 231)) if n is None else n
    s = X.system_of(n)
    while True:
        e, c = X.edges(s, rng)
        e = [8 + x % 13 for x in e]
        if s in (4, 5, 6):
            e[1] = e[0]
        if s == 7:
            e = [e[0]] * 3
        c = [max(min(x, 4), -4) if s < 3 else x for x in c]
        if 1000 - 10 * sum(x * x for x in c) + 2 * c[0] * c[1] * c[2] > 300:
            break
    units, deg = ["nm", "angstrom", "pm"][int(rng.integers(0, 3))], bool(rng.integers(0, 2))
    return n, e, c, X.make(Cell, n, 1, e, c, [(13, 0.1, 0.2, 0.3, 1.0, 0.005)], units, deg)


def flat(t, scale):
    return X.fixn(t.reshape(-1), scale)


def run(ck):
    from ebsdtorch.crystallography.unit_cell import Cell

    rng = ck.numpy_rng(0)
    recs = []
    todo = [1, 2, 5, 1, 14, 62, 136, 166, 148, 194, 225, 1, 12, 1] + [None] * (40 if ck.quick else 400)
    for n in todo:
        n, e, c, cell = cell_of(Cell, rng, n)
        single = bool(rng.integers(0, 3) == 0)
        ident = {"space_group": n, "e": e, "c": c, "single": single}
        with ck.guard("cell", ident, 60):
            if single:
                dt = torch.float32
                cell = cell.set_fp_dtype(dt)
                ck.expect(all(t.dtype == dt for t in (cell.dmt, cell.rmt, cell.dsm, cell.rsm, cell.vol, cell.a, cell.gamma, cell.apos[0])), "precision of the cell", ident)
            else:
                dt = torch.float64
            cell = cell.to(torch.device("cpu"))
            recs.append(dict(kind="metric", e=e, c=c, tol=60 if single else 4, dmt=flat(cell.dmt, 1e8), rmt=flat(cell.rmt, 1e8), dsm=flat(cell.dsm, 1e8), rsm=flat(cell.rsm, 1e8),
                             vol=X.fixn([cell.vol], 1e8)[0], abc=X.fixn([cell.a, cell.b, cell.c], 1e8), angles=X.fixn([cell.alpha, cell.beta, cell.gamma], 1e8), id=ident))
            ck.expect(torch.equal(cell.get_direct_metric_tensor, cell.dmt) and torch.equal(cell.get_reciprocal_metric_tensor, cell.rmt)
                      and torch.equal(cell.get_direct_structure_matrix, cell.dsm) and torch.equal(cell.get_reciprocal_structure_matrix, cell.rsm), "getters", ident)
            mats = {k: flat(getattr(cell, k), 1e6) for k in ("dmt", "rmt", "dsm", "rsm")}
            P = rng.integers(-3, 4, (4, 2, 3))
            P[0, 0] = 0
            P[1, 1] = -2 * P[1, 0] if P[1, 0].any() else 1
            P = torch.tensor(P, dtype=dt)
            for s in "drc":
                keep = P.clone()
                Q = P.flip(1).clone()
                to = {x: cell.transform_space(P, s, x) for x in "drc"}
                cross = {x: cell.calc_cross(P, Q, s, x, True) for x in "drc"}
                bare = {x: cell.calc_cross(P, Q, s, x, False) for x in "drc"}
                dot, auto, ln, lq, unit = cell.calc_dot(P, Q, s), cell.calc_auto_dot(P, s), cell.calc_length(P, s), cell.calc_length(Q, s), cell.norm_vec(P, s)
                il = cell.calc_length(P.to(torch.int64), s)
                ck.expect(torch.allclose(il, ln, atol=1e-5), "lengths of whole vectors", ident)
                zero = (ln == 0) | (lq == 0)
                angle = torch.full_like(dot, -1.0)
                if bool((~zero).any()):
                    angle[~zero] = cell.calc_angle(P[~zero], Q[~zero], s).to(dt)
                try:
                    cell.calc_angle(P, Q, s)
                    ck.expect(not bool(zero.any()), "angles with the zero vector are refused", ident)
                except ValueError:
                    ck.expect(bool(zero.any()), "angles between vectors are not refused", ident)
                ck.expect(torch.equal(P, keep), "the vectors are not changed", ident)
                ck.expect(all(v.shape == P.shape for d in (to, cross, bare) for v in d.values()) and dot.shape == ln.shape == P.shape[:-1] and unit.shape == P.shape, "shapes", ident)
                one = cell.transform_space(P[2, 1], s, "c"), cell.calc_dot(P[2, 1], Q[2, 1], s), cell.norm_vec(P[2, 1], s)
                ck.expect(torch.allclose(one[0], to["c"][2, 1], atol=1e-5) and torch.allclose(one[1], dot[2, 1], atol=1e-4) and torch.allclose(one[2], unit[2, 1], atol=1e-5), "a single vector", ident)
                for a in range(4):
                    for b in range(2):
                        q = P[a, 1 - b]
                        recs.append(dict(kind="vectors", s=s, p=P[a, b].long().tolist(), q=q.long().tolist(), to={x: X.fixn(to[x][a, b], 1e6) for x in "drc"},
                                         cross={x: X.fixn(cross[x][a, b], 1e4) for x in "drc"}, bare={x: X.fixn(bare[x][a, b], 1e4) for x in "drc"},
                                         dot=X.fixn([dot[a, b]], 1e4)[0], auto=X.fixn([auto[a, b]], 1e4)[0], len=X.fixn([ln[a, b]], 1e4)[0], lenq=X.fixn([lq[a, b]], 1e4)[0],
                                         unit=X.fixn(unit[a, b], 1e4), angle=X.fixn([angle[a, b]], 1e4)[0] if float(angle[a, b]) >= 0 else -1, vol=X.fixn([cell.vol], 1e4)[0],
                                         id=ident, **mats))
            m = torch.linalg.qr(torch.tensor(rng.normal(size=(3, 3)), dtype=dt))[0]
            for s in "drc":
                for dr in ("on", "no"):
                    v = cell.transform_coordinates(P, m, s, dr)
                    ck.expect(v.shape == P.shape and torch.allclose(cell.transform_coordinates(P[1, 0], m, s, dr), v[1, 0], atol=1e-5), "shapes", ident)
                    recs.append(dict(kind="frame", dir=dr, m=flat(m, 1e4), p=P[2, 1].long().tolist(), v=X.fixn(v[2, 1], 1e4), id=ident))
            if not single:
                a = torch.tensor([0.0, 0.01, 0.02, 0.05, 0.1, 1.0, math.pi - 0.1, math.pi - 0.02, math.pi - 0.01, math.pi], dtype=dt)
                t = float(rng.uniform(0, 6))
                u = torch.stack([torch.cos(torch.tensor(t)) + 0 * a, torch.sin(torch.tensor(t)) + 0 * a, 0 * a], -1).to(dt) @ m.T
                v = torch.stack([torch.cos(t + a), torch.sin(t + a), 0 * a], -1) @ m.T * 0.7
                for s in "drc":
                    got = cell.calc_angle(cell.transform_space(u, "c", s), cell.transform_space(v, "c", s), s)
                    recs.append(dict(kind="turns", want=X.fixn(a, 1e4), got=X.fixn(got, 1e4), s=s, id=ident))
            try:
                cell.transform_space(P[..., :2], "d", "c")
                ck.expect(False, "vectors of two components are refused", ident)
            except ValueError:
                pass
        ck.trace()
    # rhombohedral axes
    for _ in range(12 if ck.quick else 100):
        n = int(rng.choice([146, 148, 155, 160, 161, 166, 167]))
        e, c = int(rng.integers(6, 14)), int(rng.integers(-3, 8))
        pts = [[int(v) for v in rng.integers(0, 240, 3)] for _ in range(3)]
        z = [int(v) for v in rng.integers(1, 97, 3)]
        z[1] = z[0]
        ident = {"space_group": n, "e": e, "c": c, "sites": pts}
        with ck.guard("hexagonal axes", ident, 60):
            cell = X.make(Cell, n, 1, [e] * 3, [c] * 3, [(z[k], *[v / 240 for v in pts[k]], 0.5 + k / 8, 0.004) for k in range(3)], "angstrom", True)
            vol = float(cell.vol)
            cell.convert_from_R_to_H()
            mv = cell.atom_data[:, :3] * 240
            ck.expect(float((mv * 3 - (mv * 3).round()).abs().max()) < 0.01, "sites on the grid", ident)
            ck.expect(cell.atom_types.tolist() == z and torch.allclose(cell.atom_data[:, 3], torch.tensor([0.5, 0.625, 0.75], dtype=torch.float64)), "elements and occupancies", ident)
            m3 = (mv * 3).round().long()                 # in 720ths
            recs.append(dict(kind="hexagonal", e=e, c=c, abc=X.fixn([10 * cell.a, 10 * cell.b, 10 * cell.c], 1e3), angles=X.fixn([cell.alpha, cell.beta, cell.gamma], 1e4),
                             vol=X.fixn([cell.vol], 1e4)[0], vol1=X.fixn([vol], 1e4)[0], sites=pts, moved=m3.tolist(), id=ident))
            fresh = Cell(n, [(z[k], *cell.atom_data[k, :3].tolist(), 0.5, 0.004) for k in range(3)], (float(cell.a), float(cell.b), float(cell.c)), "nm", (90.0, 90.0, 120.0), "deg")
            ck.expect(torch.allclose(fresh.dmt, cell.dmt, atol=1e-9) and torch.allclose(fresh.rsm, cell.rsm, atol=1e-7) and torch.equal(fresh.mults, cell.mults), "the converted cell is consistent", ident)
        ck.trace()
    ck.sample(recs[0])
    X.judge(ck, recs, "records")
