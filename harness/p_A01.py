"""Streaming k-nearest-neighbour search: behaviours of KnnStream.tla are
replayed step by step; after every step the retrieved table must be the one of
the model (scores exactly; indices up to ties)."""
import torch
from vp import quiet


def replay(ck, knn, case, dtype, quantized, exact=True):
    q = torch.tensor(case["q"], dtype=torch.float32)
    d = torch.tensor(case["d"], dtype=torch.float32)
    k = case["k"]
    data = {"case": case, "dtype": str(dtype), "quantized": quantized}
    metric = case["metric"]

    def true_score(i, j):
        a, b = case["q"][i], case["d"][j]
        if metric == "angular":
            return sum(x * y for x, y in zip(a, b))
        if metric == "euclidean":
            return sum((x - y) ** 2 for x, y in zip(a, b))
        return sum(abs(x - y) for x, y in zip(a, b))

    with ck.guard("streaming search", data, 60):
        s = quiet(knn.ChunkedKNN, len(d), len(q), k, torch.device("cpu"),
                  metric, dtype, quantized)
        pos = 0
        for n_op, op in enumerate(case["hist"]):
            if op["op"] == "chunk":
                s.set_data_chunk(d[pos:pos + op["n"]].clone())
                pos += op["n"]
                continue
            if op["op"] == "all":
                s.query_all(q.clone())
            else:
                s.query_chunk(q[op["start"]:op["start"] + op["n"]].clone(), op["start"])
            idx, dist = s.retrieve_topk()
            data["step"] = n_op
            ck.expect(tuple(idx.shape) == (len(q), k) and tuple(dist.shape) == (len(q), k),
                      "table has one row per query and one column per neighbour", data)
            idx, dist = idx.tolist(), dist.double().tolist()
            for i in range(len(q)):
                want = op["scores"][i]
                m = len(want)
                got_i, got_s = idx[i][:m], dist[i][:m]
                data["query"] = i
                ok = ck.expect(all(0 <= j < pos for j in got_i) and len(set(got_i)) == m,
                               "neighbours are distinct data seen so far", data)
                if not ok:
                    return
                if exact:
                    ck.expect([round(v) for v in got_s] == want and
                              all(abs(v - w) < 0.25 for v, w in zip(got_s, want)),
                              "scores of the best matches, best first",
                              lambda: dict(data, got=got_s, want=want))
                    ck.expect([true_score(i, j) for j in got_i] == want,
                              "index belongs to its score",
                              lambda: dict(data, got=got_i, want=op["index"][i]))
                else:
                    ck.expect(got_i == op["index"][i],
                              "indices of the best matches, best first",
                              lambda: dict(data, got=got_i, want=op["index"][i]))
                    big = max(1.0, max(abs(true_score(i, j)) for j in range(pos)))
                    ck.expect(all(abs(v - w) < 0.06 * big for v, w in zip(got_s, want)),
                              "quantised scores close to the exact ones",
                              lambda: dict(data, got=got_s, want=want))
    ck.trace()


def run(ck):
    from ebsdtorch.utils import knn

    n_small = 0
    # exhaustive: every chunking and every order of query blocks
    for metric in ("angular", "euclidean", "manhattan"):
        for D, Q, K in ((4, 2, 2), (3, 3, 3)) if ck.quick else ((4, 2, 2), (3, 3, 3), (5, 2, 3), (4, 3, 1)):
            r = ck.tlc("KnnStream", dict(D=D, Q=Q, K=K, Metric=f'"{metric}"', Dim=2, Lo=-4, Hi=4,
                                         Rand="FALSE", Partial="FALSE", MinGap=0),
                       invariants=["StreamingIsExhaustive", "Filled", "EmitDone"],
                       label=f"exhaustive {metric} {D}/{Q}/{K}")
            for c in r.cases:
                replay(ck, knn, c, torch.float32, False)
                n_small += 1
    ck.count("exhaustive_behaviours", n_small)
    # random data, skipped blocks, larger sizes
    n = 40 if ck.quick else 600
    for metric in ("angular", "euclidean", "manhattan"):
        for D, Q, K, dim in ((9, 4, 5, 3), (14, 3, 4, 5), (6, 5, 6, 2)):
            r = ck.tlc("KnnStream", dict(D=D, Q=Q, K=K, Metric=f'"{metric}"', Dim=dim, Lo=-9, Hi=9,
                                         Rand="TRUE", Partial="TRUE", MinGap=0),
                       invariants=["StreamingIsExhaustive", "Filled", "EmitDone"],
                       simulate=n, depth=40, label=f"random {metric}")
            for i, c in enumerate(r.cases):
                ck.sample({"k": c["k"], "metric": metric, "ops": [o["op"] for o in c["hist"]]})
                replay(ck, knn, c, (torch.float32, torch.float64, torch.float16)[i % 3], False)
    # int8-quantised arithmetic: well separated scores
    for metric in ("angular",):
        r = ck.tlc("KnnStream", dict(D=5, Q=2, K=3, Metric='"angular"', Dim=6, Lo=-12, Hi=12,
                                     Rand="TRUE", Partial="TRUE", MinGap=45),
                   invariants=["StreamingIsExhaustive", "EmitDone"],
                   simulate=1200 if ck.quick else 8000, depth=30, label="quantised")
        for c in r.cases:
            replay(ck, knn, c, torch.float32, True, exact=False)
            ck.count("quantised_behaviours")
    # quantised request with the other metrics falls back to exact arithmetic
    for metric in ("euclidean", "manhattan"):
        r = ck.tlc("KnnStream", dict(D=6, Q=2, K=3, Metric=f'"{metric}"', Dim=3, Lo=-9, Hi=9,
                                     Rand="TRUE", Partial="TRUE", MinGap=0),
                   invariants=["StreamingIsExhaustive", "EmitDone"],
                   simulate=n, depth=30, label="quantised request, other metric")
        for c in r.cases:
            replay(ck, knn, c, torch.float32, True)
