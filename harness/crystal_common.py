"""Space groups of SpaceGroupWalk.tla, and cells for them."""
from concurrent.futures import ThreadPoolExecutor

TWO = [48, 50, 59, 68, 70, 85, 86, 88, 125, 126, 129, 130, 133, 134, 137, 138, 141, 142, 201, 203, 222, 224, 227, 228]
ALL = [(n, st) for n in range(1, 231) for st in ((1, 2) if n in TWO else (1,))]
INVS = ["Typed", "Factors", "Centring", "OrbitStabilizer", "EmitAll"]


def settings(ck, todo, sites=None, waves=(), label="settings", par=8):
    """emitted cases for the settings, keyed by (number, setting)"""
    data = [dict(n=n, st=st, sites=(sites or {}).get((n, st), [])) for n, st in todo]
    n = max(1, min(par, len(data) // 4))
    invs = INVS + ([] if ck.quick else ["IsGroup"])
    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(lambda j: ck.tlc("SpaceGroupWalk", data=dict(Settings=data[j::n], Waves=[list(w) for w in waves]),
                                            invariants=invs, timeout=1500, label=f"{label} {j}"), range(n)))
    out = {}
    for r in runs:
        for c in r.cases:
            out[c["n"], c["st"]] = c
    from vp import MachineryError
    if len(out) != len(todo):
        raise MachineryError(f"{len(out)} of {len(todo)} settings emitted")
    return out


def edges(system, rng):
    """edges (multiples of half an angstrom) and ten times the cosines of the angles"""
    e = [int(x) for x in rng.integers(5, 25, 3)]
    c = [0, 0, 0]
    if system == 1:
        c = [int(x) for x in rng.integers(-4, 5, 3)]
    elif system == 2:
        c = [0, int(rng.integers(-6, 7)), 0]
    elif system in (4, 5, 6):
        e[1] = e[0]
        if system != 4:
            c = [0, 0, -5]
    elif system == 7:
        e = [e[0]] * 3
    return e, c


def system_of(n):
    return sum(1 for b in (1, 3, 16, 75, 143, 168, 195) if b <= n)


def make(Cell, n, st, e, c, atoms, units, deg, **k):
    """a Cell from edges in half angstroms and cosines in tenths"""
    import math
    u = {"nm": 0.05, "angstrom": 0.5, "pm": 50.0}[units]
    ang = [math.acos(x / 10) for x in c]
    if deg:
        ang = [math.degrees(a) for a in ang]
    return Cell(n, atoms, tuple(u * x for x in e), units, tuple(ang), "deg" if deg else "rad", st, **k)


def fixn(v, scale, lim=2.0e9):
    import numpy as np
    return [int(round(max(min(float(np.nan_to_num(float(x), nan=1e30)) * scale, lim), -lim))) for x in v]


def judge(ck, recs, label, par=8):
    n = max(1, min(par, len(recs) // 4))
    ck.count(label, len(recs))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda k: ck.tlc("CellTrace", data=dict(Samples=recs[k::n]), invariants=["Judged"], verdict=True, timeout=1500, label=f"{label} {k}"), range(n)))
