"""Streams of samples fed to the component analyses; judged by PcaStream.tla."""
from concurrent.futures import ThreadPoolExecutor

import torch

import crystal_common as X

D = torch.float64
HAD = [[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]]


def fx(m, s=1e8):
    return [X.fixn([v for v in r], s) for r in m.double()]


def schedules(ck, n):
    r = ck.tlc("StreamSchedule", dict(N=n), invariants=["EmitDone"], label=f"batches of {n} samples")
    return r.cases


def judge(ck, recs, n=8):
    """recs: list of event lists (each starts with "new")"""
    parts = [sum(recs[j::n], []) for j in range(n)]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda p: ck.tlc("PcaStream", data=dict(Samples=p[1]), invariants=["Judged"], verdict=True, timeout=1500, label=f"streams {p[0]}"),
                    [(j, p) for j, p in enumerate(parts) if p]))
    ck.count("events", sum(len(r) for r in recs))
