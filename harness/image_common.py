from concurrent.futures import ThreadPoolExecutor


def judge(ck, recs, module="ImageTrace", n=8):
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: ck.tlc(module, data=dict(Samples=recs[j::n]), invariants=["Judged"], verdict=True, timeout=1500, label=f"records {j}") if recs[j::n] else None, range(n)))
