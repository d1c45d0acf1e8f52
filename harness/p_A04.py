"""Combination of per-phase results: histories of PhaseCombine.tla replayed."""
import torch


def quat(serial, q, k):
    """a distinct quaternion for every match"""
    v = torch.tensor([1.0 + 0.01 * serial, 0.1 * q + 0.013, 0.07 * k - 0.2, 0.3 - 0.03 * serial], dtype=torch.float64)
    return (v / v.norm()).float()


def replay(ck, EP, c, shape, dtype):
    n, k = c["n"], c["k"]
    data = {"history": c["hist"]}
    with ck.guard("combining phases", data, 30):
        ep = EP(torch.zeros(*shape, 3, 4))
        for i, op in enumerate(c["hist"]):
            data["step"] = i
            if op["op"] == "register":
                qs = torch.stack([torch.stack([quat(op["serial"], q, j) for j in range(k)]) for q in range(n)])
                ep.set_raw_indexing_results(qs, torch.tensor(op["metrics"], dtype=dtype) / 8, op["phase"])
                continue
            ep.combine_indexing_results(higher_is_better=op["high"])
            ck.expect([int(v) for v in ep.phases] == op["phase"], "each pattern takes the phase with the best match",
                      lambda: dict(data, got=[int(v) for v in ep.phases]))
            ori = ep.get_orientations()
            want = torch.stack([quat(s, q, 0) for q, s in enumerate(op["serial"])])
            ck.expect(tuple(ori.shape) == (n, 4) and bool(torch.equal(ori.float(), want)),
                      "each pattern takes the orientation of the best match", lambda: dict(data, got=ori.tolist()))
            ck.expect([float(v) * 8 for v in ep.best_metrics] == [float(v) for v in op["best"]],
                      "each pattern keeps the metric of the best match",
                      lambda: dict(data, got=ep.best_metrics.tolist()))
            per = [sorted(int(v) for v in t) for t in ep.get_indices_per_phase()]
            of = op["of"]
            want = [[q - 1 for q in sorted(of[str(p)])] for p in range(len(of))]
            ck.expect(per == want, "index lists per phase partition the scan", lambda: dict(data, got=per, want=want))
            ck.expect(all(t.dim() == 1 for t in ep.get_indices_per_phase()), "index lists are lists", data)
    ck.trace()


def run(ck):
    from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns as EP

    inv = ["Chosen", "Partition", "EmitDone"]
    r = ck.tlc("PhaseCombine", dict(N=3, K=2, Phases="{0, 1}", MaxOps=4 if ck.quick else 6, MaxM=97, Rand="FALSE"),
               invariants=inv, label="exhaustive")
    cases = list(r.cases)
    for N, K, P, M in ((6, 3, "{0, 1, 2}", 7), (1, 1, "{0, 1}", 5), (8, 1, "{0, 2, 5}", 8), (4, 2, "{3}", 4)):
        r = ck.tlc("PhaseCombine", dict(N=N, K=K, Phases=P, MaxOps=M, MaxM=2000, Rand="TRUE"), invariants=inv,
                   simulate=250 if ck.quick else 4000, depth=M + 1, label="random histories")
        cases += r.cases
    for i, c in enumerate(cases):
        if i % 97 == 0:
            ck.sample([o["op"] for o in c["hist"]])
        n = c["n"]
        shapes = [(n,)] + [(a, n // a) for a in range(1, n + 1) if n % a == 0]
        replay(ck, EP, c, shapes[i % len(shapes)], [torch.float32, torch.float64, torch.float16][i % 3])
