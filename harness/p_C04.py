"""Reflection lists, judged by CellTrace.tla."""
import math

import torch

import crystal_common as X
from p_C05 import cell_of, flat

PICK = [1, 2, 5, 12, 14, 22, 62, 43, 38, 72, 136, 141, 148, 166, 194, 198, 225, 229, 8, 15, 2, 1]


def run(ck):
    from ebsdtorch.crystallography.unit_cell import Cell

    rng = ck.numpy_rng(0)
    recs = []
    for n in PICK + ([] if ck.quick else PICK * 3 + [None] * 60):
        n, e, c, cell = cell_of(Cell, rng, n)
        if rng.integers(0, 4) == 0:
            cell = cell.set_fp_dtype(torch.float32)
        edge = 0.05 * max(e)
        dmin = float(rng.uniform(edge / 7.5, edge / 2)) if rng.integers(0, 3) else 0.05 * e[int(rng.integers(0, 3))] / int(rng.integers(2, 7))
        for filt in (True, False):
            ident = {"space_group": n, "e": e, "c": c, "dmin": dmin, "centring": filt}
            with ck.guard("reflections", ident, 60):
                L = cell.get_reflections(dmin, False, filt)
                again = cell.get_reflections(dmin, False, filt)
                D = cell.get_reflections(dmin, True, filt)
                ck.expect(all(t.dim() == 2 and t.shape[1] == 3 and not t.is_floating_point() for t in (L, D)) and torch.equal(L, again), "shape", ident)
                hkl = L.tolist()
                box = [int(0.05 * x / dmin) + 2 for x in e]
                recs.append(dict(kind="reflections", n=n, filter=filt, rmt=flat(cell.rmt, 1e4), lim=X.fixn([1 / dmin ** 2], 1e4)[0], box=box, hkl=hkl, id=ident))
                some = [hkl[int(j)] for j in rng.integers(0, len(hkl), 6)] + hkl[:2] + hkl[-2:] if hkl else []
                if len(D) <= 12000:
                    recs.append(dict(kind="differences", n=n, filter=filt, diff=D.tolist(), hkl=hkl, some=some, id=ident))
            ck.trace()
        # finer lists contain coarser ones
        with ck.guard("nested lists", ident, 60):
            coarse = {tuple(v) for v in cell.get_reflections(dmin * 1.3, False).tolist()}
            fine = {tuple(v) for v in cell.get_reflections(dmin, False).tolist()}
            ck.expect(coarse <= fine and all(tuple(-x for x in v) in fine for v in fine), "nested and centrosymmetric lists", ident)
    ck.sample({"lists": len(recs), "longest": max(len(r.get("hkl", [])) for r in recs)})
    X.judge(ck, recs, "lists")
