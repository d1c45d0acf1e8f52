"""Attribute store of a scan: histories of ScanStore.tla replayed."""
import torch


def val(attr, tag, flat=False):
    g = torch.Generator().manual_seed(7919 * tag + len(attr))
    if attr == "ori":
        v = torch.randn(4, generator=g)
        return v / v.norm()
    if attr == "pos":
        return torch.randn(2, generator=g)
    if tag == 0:
        return torch.eye(3)
    return torch.randn(3, 3, generator=g)


def replay(ck, EP, c, shape, variant):
    n = c["n"]
    pats = torch.rand(*shape, 3, 4, generator=torch.Generator().manual_seed(n))
    data = {"history": c["hist"], "shape": list(shape)}
    with ck.guard("scan attributes", data, 30):
        ep = EP(pats.clone())
        ck.expect(ep.n_patterns == n, "number of patterns", data)
        setters = {"ori": ep.set_orientations, "pos": ep.set_spatial_coords, "def": ep.set_inv_f_matrix}
        getters = {"ori": ep.get_orientations, "pos": ep.get_spatial_coords, "def": ep.get_inv_f_matrix}
        for i, op in enumerate(c["hist"]):
            data["step"] = i
            if op["op"] == "write":
                v = torch.stack([val(op["attr"], t) for t in op["tags"]])
                if op["attr"] == "def" and (i + variant) % 2:
                    v = v.reshape(n, 9)
                if op["list"]:
                    setters[op["attr"]](v, torch.tensor(op["list"]) - 1)
                else:
                    setters[op["attr"]](v)
            elif op["op"] == "onedef":
                v = val("def", op["tags"][0])
                ep.set_inv_f_matrix(v.reshape(1, 9) if op["shape"] == "v" else v.reshape(1, 3, 3))
            elif op["op"] == "resetdef":
                ep.set_inv_f_matrix()
            elif op["op"] in ("bad", "badlist"):
                one = val(op["attr"], 1)
                v = one.expand(op["n"], *one.shape).clone()
                try:
                    if op["op"] == "bad":
                        setters[op["attr"]](v)
                    else:
                        m = torch.arange(op["m"]) % n
                        setters[op["attr"]](v, m)
                    ck.violation("a write of the wrong length is refused", dict(data))
                except ValueError:
                    pass
            else:
                try:
                    idx = torch.tensor(op["list"]) - 1 if op["list"] else None
                    got = getters[op["attr"]](idx) if idx is not None else getters[op["attr"]]()
                except ValueError:
                    ck.expect(op["result"] == "refused", "a read of a written attribute succeeds", lambda: dict(data))
                    continue
                if not ck.expect(op["result"] == "ok", "a read of an attribute never written is refused",
                                 lambda: dict(data)):
                    continue
                want = torch.stack([val(op["attr"], t) for t in op["tags"]])
                ck.expect(tuple(got.shape) == tuple(want.shape) and bool(torch.equal(got, want)),
                          "a read returns the last value written for each listed pattern",
                          lambda: dict(data, got=got.tolist(), want=want.tolist()))
        got = ep.get_patterns(torch.arange(n), binning=1)
        ck.expect(torch.equal(got.reshape(pats.shape), pats), "attribute writes leave the patterns as they were", data)
    ck.trace()


def run(ck):
    from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns as EP

    cases = []
    for N, M, L in ((1, 8, 2), (2, 10, 3), (4, 14, 4), (6, 20, 5)):
        r = ck.tlc("ScanStore", dict(N=N, MaxOps=M, MaxList=L), invariants=["ReadsLastWrite", "EmitDone"],
                   simulate=250 if ck.quick else 4000, depth=M + 1, label=f"N={N}")
        cases += r.cases
    for i, c in enumerate(cases):
        if i % 300 == 0:
            ck.sample([o["op"] for o in c["hist"]])
        n = c["n"]
        shapes = [(n,)] + [(a, n // a) for a in range(1, n + 1) if n % a == 0]
        if n == 1:
            shapes.append(())
        replay(ck, EP, c, shapes[i % len(shapes)], i)
