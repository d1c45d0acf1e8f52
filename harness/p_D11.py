"""Recorded progress bars judged by ProgressTrace.tla."""
import contextlib
import io
import re

import image_common as I

FRAME = re.compile(r"^(?P<prefix>.*?)\[(?P<full>█*)(?P<empty>\.*)\]\s*(?P<percent>[0-9.]+)%\s*(?P<at>\d+)/(?P<of>\d+)(\D|$)", re.S)


class Sink:
    def __init__(self):
        self.text, self.flushed = "", 0

    def write(self, s):
        self.text += s

    def flush(self):
        self.flushed = len(self.text)


def run(ck):
    from ebsdtorch.utils.progressbar import progressbar

    rng = ck.rng
    recs = []
    for q in range(120 if ck.quick else 1500):
        n = [0, 1, 2, 3, 7, rng.randrange(1, 40), rng.randrange(1, 200)][q % 7]
        size = [60, 1, 10, rng.randrange(1, 100)][rng.randrange(4)]
        prefix = ["", "REFINE", "a prefix longer than fifteen", "INDX MP 1/2 "][rng.randrange(4)]
        width = [15, 0, 4, 30][rng.randrange(4)]
        data = {"items": n, "size": size, "prefix": prefix, "width": width}
        stop = n > 2 and q % 11 == 0
        ev = [dict(op="new", n=n, size=size, prefix=True, id=q)]
        with ck.guard("progress bar", data, 30):
            sink, spill = Sink(), io.StringIO()
            kw = {}
            if size != 60 or q % 2:
                kw["size"] = size
            if width != 15 or q % 2:
                kw["prefix_min_length"] = width
            if prefix or q % 2:
                kw["prefix"] = prefix
            kind = q % 3
            items = [object() for _ in range(n)]
            src = items if kind == 0 else tuple(items) if kind == 1 else dict.fromkeys(items)
            with contextlib.redirect_stdout(spill):
                if q % 4 == 3:
                    sink = spill = io.StringIO()
                    ctx = contextlib.redirect_stdout(sink)
                else:
                    ctx, kw["out"] = contextlib.nullcontext(), sink
                with ctx:
                    get = (lambda: sink.text) if isinstance(sink, Sink) else sink.getvalue
                    # the destination is looked up when the bar is defined unless given
                    if "out" not in kw:
                        kw["out"] = sink
                    at = 0

                    def frames(end):
                        nonlocal at
                        text = get()[at:]
                        at += len(text)
                        for part in [p for p in text.split("\r") if p.strip()]:
                            m = FRAME.match(part)
                            if m:
                                ev.append(dict(op="frame", at=int(m["at"]), of=int(m["of"]), full=len(m["full"]), empty=len(m["empty"]), percent10=round(float(m["percent"]) * 10)))
                                ck.expect(m["prefix"] == prefix + " " * (width - len(prefix)), "frames start with the padded prefix", data)
                            else:
                                ev.append(dict(op="text", text=part))
                        if end:
                            ev.append(dict(op="close", prefix=True) if text.endswith("\n") else dict(op="text", text="no end of line"))

                    bar = progressbar(src, **kw)
                    if not ck.expect(hasattr(bar, "__iter__"), "the bar hands out the items", data):
                        break
                    for i, item in enumerate(bar):
                        frames(False)
                        ev.append(dict(op="item", item=1 + next((k for k, v in enumerate(items) if v is item), -9)))
                        if stop and i == 1:
                            break
                    else:
                        frames(True)
            if isinstance(sink, Sink):
                ck.expect(spill.getvalue() == "", "nothing is written elsewhere", data)
                ck.expect(stop or n == 0 or "\r" not in sink.text[sink.flushed:], "frames are flushed", data)
        recs += ev
        ck.trace()
    ck.sample({"events": len(recs)})
    I.judge(ck, recs, "ProgressTrace", 1)
    timed(ck, rng)


TIMES = re.compile(r"\d+/\d+ +(?:(\d+):)?(\d+\.\d)<(?:(\d+):)?(\d+\.\d), +([0-9.]+) (itr/s|s/itr)")


def timed(ck, rng):
    """times and speed, with a clock that only moves while an item is worked on"""
    import importlib
    import time

    from ebsdtorch.utils import progressbar as module

    clock = [0]     # tenths of a second
    names = ("time", "monotonic", "perf_counter")
    kept = {k: getattr(time, k) for k in names}
    recs = []
    try:
        for k in names:
            setattr(time, k, lambda: 5000.0 + clock[0] / 10)
        importlib.reload(module)
        for q in range(60 if ck.quick else 600):
            n = rng.randrange(1, 12)
            # fractions of a second, seconds, minutes and hours
            top = (3, 40, 700, 9000)[q % 4]
            steps = [rng.randrange(0, top) + (q % 3 != 0) for _ in range(n)]
            data = {"steps": steps}
            with ck.guard("progress bar", data, 30):
                sink = io.StringIO()
                start = clock[0]
                for i, _ in enumerate(module.progressbar([0] * n, "run", out=sink)):
                    clock[0] += steps[i]
                shown = [p for p in sink.getvalue().split("\r") if p.strip()]
                ck.expect(len(shown) == n, "one frame an item", data)
                total = 0
                for i, text in enumerate(shown):
                    total += steps[i]
                    m = TIMES.search(text)
                    if not ck.expect(m is not None, "times and speed are shown", lambda: dict(data, text=text)):
                        break
                    em, es, rm, rs, v, unit = m.groups()
                    recs.append(dict(op="times", n=n, done=i + 1, clock=total,
                                     eform=em is not None, e60=int(em or 0), es=round(float(es) * 10),
                                     rform=rm is not None, r60=int(rm or 0), rs=round(float(rs) * 10),
                                     v=round(float(v) * 10) if float(v) < 1e7 else -1, fast=unit == "itr/s"))
                ck.trace()
                clock[0] = start + total + rng.randrange(0, 50)
    finally:
        for k in names:
            setattr(time, k, kept[k])
        importlib.reload(module)
    ck.count("frames with times", len(recs))
    ck.sample(recs[-1] if recs else None)
    ck.tlc("ProgressTrace", data=dict(Samples=recs), invariants=["Timed"], verdict=True, spec="TimedSpec", label="times")
