"""Space group numbers and point group symbols to Laue groups: every case of
SpaceGroupTables.tla."""
import torch


def laue(f, x):
    try:
        return int(f(x))
    except Exception as e:  # TorchScript wraps the ValueError
        return f"{e}"


def run(ck):
    from ebsdtorch.ebsd.master_pattern import MasterPattern
    from ebsdtorch.s2_and_so3.laue_generators import get_laue_mult
    from ebsdtorch.utils.symmetry_classes import point_group_to_laue, space_group_to_laue

    r = ck.tlc("SpaceGroupTables", {"Lo": -40, "Hi": 300}, invariants=["Ordered", "EmitAll"], label="all numbers")
    img = torch.rand(4, 8)
    syms = set()
    for c in r.cases:
        data = {"space_group": c["sg"], "want": c["laue"], "symbol": c["sym"]}
        got = laue(space_group_to_laue, c["sg"])
        if not c["laue"]:
            ck.expect(isinstance(got, str), "numbers that are no space group are refused", dict(data, got=got))
            continue
        ck.expect(got == c["laue"], "Laue group of a space group", dict(data, got=got))
        with ck.guard("master pattern of a space group", data, 20):
            mp = MasterPattern(img, space_group=c["sg"])
            ck.expect(int(mp.laue_group) == c["laue"], "a master pattern has the Laue group of its space group", data)
        ck.expect(int(get_laue_mult(c["laue"])) == c["order"], "multiplicity", data)
        got = laue(point_group_to_laue, c["sym"])
        syms.add(c["sym"])
        ck.expect(got == c["laue"], "Laue group of a point group symbol", dict(data, got=got))
        with ck.guard("master pattern of a point group", data, 20):
            ck.expect(int(MasterPattern(img, point_group=c["sym"]).laue_group) == c["laue"], "a master pattern has the Laue group of its point group", data)
            ck.expect(int(MasterPattern((img[:, :4], img[:, 4:]), laue_group=c["laue"]).laue_group) == c["laue"], "a master pattern has its Laue group", data)
        for kw in (dict(space_group=c["sg"], point_group=c["sym"]), dict(space_group=c["sg"], laue_group=c["laue"]), dict(point_group=c["sym"], laue_group=c["laue"]), {}):
            ck.expect(isinstance(laue(lambda k: MasterPattern(img, **k).laue_group, kw), str), "exactly one kind of group is given", {"given": sorted(kw)})
        ck.trace()
    for bad in ("", "7", "m-3m", "4/m m", "432 ", "M3-M", "-1", "33", "2 3"):
        if bad not in syms:
            ck.expect(isinstance(laue(point_group_to_laue, bad), str), "unknown symbols are refused", {"symbol": bad})
    ck.sample({"space_groups": 230, "symbols": sorted(syms)})
    ck.extra["exhaustive"] = True
