"""Classification of a unit cell and reflections allowed by its centring."""
import torch

import crystal_common as X


def run(ck):
    from ebsdtorch.crystallography import groups as G
    from ebsdtorch.crystallography.unit_cell import Cell

    rng = ck.numpy_rng(0)
    w = 2 if ck.quick else 4
    waves = [(h, k, l) for h in range(-w, w + 1) for k in range(-w, w + 1) for l in range(-w, w + 1)]
    waves += [tuple(int(v) for v in rng.integers(-15, 16, 3)) for _ in range(50)]
    cases = X.settings(ck, X.ALL, waves=waves)
    g = torch.tensor(waves)
    for (n, st), c in sorted(cases.items()):
        e, cs = X.edges(X.system_of(n), rng)
        data = {"space_group": n, "setting": st}
        with ck.guard("unit cell", data, 60):
            cell = X.make(Cell, n, st, e, cs, [(13, 0.1, 0.2, 0.3, 1.0, 0.005)], "nm", True)
            got = dict(number=cell.sg_num, setting=cell.sg_setting, cls=int(cell.pg_num), laue=int(cell.laue_group), system=int(cell.xtal_system))
            want = dict(number=n, setting=st, cls=c["cls"], laue=c["laue"], system=c["system"])
            ck.expect(got == want, "class, Laue group and crystal system", dict(data, got=got, want=want))
            ck.expect(G.pg_to_laue[c["cls"] - 1] == c["laue"] and G.sg_names[n - 1].strip()[0] == c["lattice"], "tables", data)
            ok = cell.is_g_allowed(g)
            ck.expect(ok.dtype == torch.bool and ok.tolist() == c["allowed"], "reflections allowed by the centring",
                      lambda: dict(data, bad=[waves[j] for j in range(len(waves)) if bool(ok[j]) != c["allowed"][j]][:4]))
            m = len(waves) // 4 * 4
            ck.expect(cell.is_g_allowed(g[:m].reshape(2, 2, -1, 3)).reshape(-1).tolist() == c["allowed"][:m], "in any batch shape", data)
            ck.expect(bool(cell.is_g_allowed(g[7])) == c["allowed"][7], "a single reflection", data)
        ck.trace()

    def refused(*a, **k):
        try:
            Cell(*a, **k)
            return False
        except ValueError:
            return True

    atom = [(13, 0.0, 0.0, 0.0, 1.0, 0.005)]
    ok = ((0.4,) * 3, "nm", (90.0,) * 3, "deg")
    for n in (-1, 0, 231, 500):
        ck.expect(refused(n, atom, *ok), "numbers that are no space group are refused", {"space_group": n})
    for n in range(1, 231):
        for st in (2, 3):
            if st == 3 or n not in X.TWO:
                ck.expect(refused(n, atom, *ok, st) or (st == 3 and n in X.TWO), "settings that do not exist are refused", {"space_group": n, "setting": st})
    ck.expect(refused(225, atom, (0.4,) * 3, "um", (90.0,) * 3, "deg") and refused(225, atom, (0.4,) * 3, "nm", (90.0,) * 3, "grad"), "unknown units are refused", {})
    ck.expect(refused(1, atom, (0.4, 0.4, 0.001), "nm", (90.0, 90.0, 90.0), "deg") is False and refused(1, atom, (1e-3, 1e-3, 0.5), "nm", (90.0,) * 3, "deg"), "cells without volume are refused", {})
    ck.sample({"settings": len(X.ALL), "reflections": len(waves)})
    ck.extra["exhaustive"] = True
