"""P06 histogram: TLC behaviours of Histogram.tla replayed; recorded calls judged by HistogramOps."""
import numpy as np

from .. import tlc
from ..core import call, rat

NONE = 9999


def real_call(req, q, shape=None, dtype=None):
    from PyFHD.pyfhd_tools.pyfhd_utils import histogram

    integral = q == 1 and dtype is None
    d = np.array(req["data"], dtype=np.int64)
    if not integral:
        d = d.astype(dtype or np.float64) / q
    d0 = d
    if shape is not None:
        d0 = d.reshape(shape)
    kw = {}
    conv = (lambda x: int(x)) if q == 1 else (lambda x: x / q)
    if req["min"] != NONE:
        kw["min"] = conv(req["min"])
    if req["max"] != NONE:
        kw["max"] = conv(req["max"])
    if req["nb"] != NONE:
        kw["num_bins"] = req["nb"]
        kw["bin_size"] = conv(req["bs"])
    elif req["bs"] != 1 or q != 1:
        kw["bin_size"] = conv(req["bs"])
    keep = d0.copy()
    out = call(histogram, d0, **kw)
    if not np.array_equal(keep, d0):
        return dict(ok=False, why="input modified", hist=[], edges=[], ri=[])
    if out[0] != "ok":
        return dict(ok=False, why=str(out), hist=[], edges=[], ri=[])
    h, b, ri = out[1]
    return dict(
        ok=True,
        hist=[int(x) for x in h],
        edges=[rat(float(x) * q) for x in b],
        ri=[int(x) for x in ri],
    )


def nan_probe(ctx):
    """A datum that is not a number lies in no interval: it must be counted nowhere."""
    from PyFHD.pyfhd_tools.pyfhd_utils import histogram

    recs = []
    for _ in range(ctx.n(60, 600)):
        n = ctx.rng.randint(1, 12)
        data = [ctx.rng.randint(-4, 8) for _ in range(n)]
        mask = [ctx.rng.random() < 0.3 for _ in range(n)]
        d = np.array(data, dtype=float)
        d[np.array(mask)] = np.nan
        lo, hi, bs = ctx.rng.randint(-5, 2), ctx.rng.randint(3, 9), ctx.rng.choice([1, 2, 3])
        out = call(histogram, d, bin_size=bs, min=lo, max=hi)
        # in the model the undefined datum is a value outside the range
        req = dict(data=[(9000 if m else x) for x, m in zip(data, mask)], min=lo, max=hi, bs=bs, nb=NONE)
        r = dict(ok=out[0] == "ok", hist=[], edges=[], ri=[])
        if out[0] == "ok":
            h, b, ri = out[1]
            r.update(hist=[int(x) for x in h], edges=[rat(x) for x in b], ri=[int(x) for x in ri])
        recs.append(dict(req=req, q=1, nan=True, **r))
    return recs


def run(ctx):
    vals = "{-1, 0, 1, 3}" if not ctx.thorough else "{-2, -1, 0, 1, 3}"
    res = tlc.run(
        ctx, "Histogram",
        constants=dict(MaxLen=3, Vals=vals, Bounds="{-1, 0, 2, 4}", Sizes="{1, 2, 3}", BinCounts="{1, 2, 4}" if not ctx.thorough else "{1, 2, 3, 4, 5}"),
        invariants=["Partition", "Increasing", "Contained", "ReadBack", "Emit"],
    )
    for c in res.cases:
        req = c["req"]
        # integer data; and the same scaled down by 4 (fractional data)
        for q in (1, 4):
            if q == 4 and ctx.rng.random() > ctx.n(0.3, 1.0):
                continue
            got = real_call(req, q)
            ctx.replayed()
            if not got["ok"]:
                ctx.violation("replay:returns", "histogram did not return a result for %s/%d: %s" % (req, q, got["why"]), c)
                continue
            if got["hist"] != c["hist"]:
                ctx.violation("replay:counts", "request %s (/%d): counts %s, model %s" % (req, q, got["hist"], c["hist"]), c)
            if got["ri"] != c["ri"]:
                ctx.violation("replay:ri", "request %s (/%d): reverse indices %s, model %s" % (req, q, got["ri"], c["ri"]), c)
            if [tuple(e) for e in got["edges"]] != [tuple(e) for e in c["edges"]]:
                ctx.violation("replay:edges", "request %s (/%d): edges %s, model %s" % (req, q, got["edges"], c["edges"]), c)
    ctx.sample(res.cases[len(res.cases) // 2])
    ctx.count("spec_behaviours", len(res.cases))
    # larger random requests, judged by TLC
    recs = []
    rng = ctx.rng
    for i in range(ctx.n(1500, 20000)):
        n = rng.choice([1, 2, 3, 5, 8, 20, 40])
        style = rng.randrange(5)
        if style == 0:
            data = [rng.randint(-30, 30) for _ in range(n)]
        elif style == 1:
            data = [rng.choice([0, 5, 10]) + rng.randint(0, 1) for _ in range(n)]
        elif style == 2:
            data = sorted(rng.randint(0, 60) for _ in range(n))
        elif style == 3:
            data = [rng.randint(100, 104)] * n
        else:
            data = [rng.randint(0, 7) * 4 for _ in range(n)]
        lo = rng.choice([NONE, NONE, 0, 1, -5, 3, 12, 200])
        hi = rng.choice([NONE, NONE, 0, 7, 20, 55, -3])
        bs = rng.choice([1, 1, 2, 3, 4, 5, 8, 10, 50])
        nb = rng.choice([NONE, NONE, NONE, 1, 2, 4, 8])
        if style != 0 and rng.random() < 0.1 and lo != NONE and hi != NONE:
            data = []
        req = dict(data=data, min=lo, max=hi, bs=bs, nb=nb)
        l = lo if lo != NONE else min(data)
        h = hi if hi != NONE else max(data)
        if nb != NONE and h <= l:
            continue
        if nb != NONE:  # keep bin sizes exactly representable: the judgement is exact
            q = 4 if ((h - l) % nb == 0 or nb in (1, 2, 4, 8)) else 1
        else:
            q = rng.choice([1, 1, 4, 8])
        shape = None
        if len(data) in (8, 20, 40) and rng.random() < 0.4:
            shape = (-1, rng.choice([2, 4]))
        recs.append(dict(req=req, q=q, **real_call(req, q, shape, None if q == 1 and rng.random() < 0.7 else (np.float64 if rng.random() < 0.7 else np.float32))))
    # data on and just below the edges of bins whose size has no exact inverse
    for bs in rng.sample(range(11, 200), ctx.n(60, 180)) + [49, 98, 103, 107, 161, 187]:
        lo = rng.choice([NONE, 0, 3, -bs])
        l = 0 if lo == NONE else lo
        ks = [0] + [rng.randint(0, 12) for _ in range(9)]
        req = dict(data=[l + k * bs - (rng.random() < 0.3 and k > 0) for k in ks], min=lo, max=rng.choice([NONE, l + 12 * bs]), bs=bs, nb=NONE)
        recs.append(dict(req=req, q=1, **real_call(req, 1, None, rng.choice([None, np.float64]))))
    recs += nan_probe(ctx)
    bad = tlc.judge(ctx, "HistogramOps", "HVerdict", recs)
    for i, v in bad.items():
        for c in v:
            ctx.violation("judge:" + c + (":nan" if recs[i].get("nan") else ""), "%s fails for %s" % (c, recs[i]), recs[i])
    ctx.count("judged_records", len(recs))
    ctx.assumptions.append("bin sizes are exactly representable numbers (integers and dyadic fractions)")
