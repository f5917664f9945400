"""P22 resistant_mean / idl_median."""
import numpy as np

from .. import tlc
from ..core import call, rat


def rmean(d, k, cplx):
    from PyFHD.pyfhd_tools.pyfhd_utils import resistant_mean

    a = np.array([complex(*x) for x in d]) if cplx else np.array([x[0] for x in d], dtype=np.float64)
    keep = a.copy()
    out = call(resistant_mean, a, k / 2)  # k counts half deviations
    if out[0] != "ok":
        return dict(ok=False, kept=True, res=[[0, 0], [0, 0]], why=str(out))
    v = complex(out[1])
    return dict(ok=True, kept=bool(np.array_equal(a, keep)), res=[rat(v.real), rat(v.imag)])


def run(ctx):
    from PyFHD.pyfhd_tools.pyfhd_utils import idl_median, resistant_mean

    res = tlc.run(ctx, "Stats", constants=dict(MaxLen=4, Vals="{0, 1, 2, 7}" if not ctx.thorough else "{-3, 0, 1, 2, 9}", Ks="{2, 4, 6}" if not ctx.thorough else "{1, 2, 3, 4, 6, 9}"),
                  invariants=["ByValue", "Interval", "HalfKept", "Emit"])
    for c in res.cases:
        a = np.array([x[0] for x in c["d"]], dtype=float)
        ctx.replayed()
        if not c["undecided"]:
            g = rmean(c["d"], c["k"], False)
            if not g["ok"] or g["res"] != [list(x) for x in c["mean"]]:
                ctx.violation("replay:rmean", "resistant mean of %s k=%s gave %s, model %s" % (c["d"], c["k"], g, c["mean"]), c)
        for even, want in ((False, c["med"]), (True, c["med2"] / 2)):
            out = call(idl_median, a, even=even)
            if out[0] != "ok" or float(out[1]) != want:
                ctx.violation("replay:median", "median(even=%s) of %s gave %s, model %s" % (even, a, out, want), c)
    ctx.count("spec_behaviours", len(res.cases))
    ctx.sample(res.cases[50])
    rng, recs = ctx.rng, []
    for _ in range(ctx.n(1200, 10000)):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7])
        cplx = rng.random() < 0.4
        if cplx and n % 2 == 0:
            n += 1
        d = [[rng.choice([rng.randint(-4, 4), rng.randint(0, 2), rng.randint(-12, 12)]), rng.randint(-4, 4) if cplx else 0] for _i in range(n)]
        if rng.random() < 0.2:
            d = [d[0]] * n
        k = rng.choice([1, 2, 3, 4, 4, 4, 6, 9, 10])
        recs.append(dict(kind="rmean", d=d, k=k, **rmean(d, k, cplx)))
    # many small deviations and few large ones: only here can the second cut of a large number of deviations remove samples
    for _ in range(ctx.n(60, 400)):
        n = rng.choice([25, 31, 41, 51, 61])
        h = n // 2 + rng.randint(-1, 2)
        d = [[rng.choice([-1, 1]), 0] if j < h else [0, 0] for j in range(n)]
        k = rng.choice([6, 7, 8, 9, 10, 12, 12])
        for j in rng.sample(range(n), rng.choice([1, 1, 2, 3])):
            d[j] = [rng.choice([-1, 1]) * rng.choice([3, 4, 5, 6, 7, 7, 8]), 0]
        rng.shuffle(d)
        recs.append(dict(kind="rmean", d=d, k=k, **rmean(d, k, False)))
    for _ in range(ctx.n(400, 4000)):
        n = rng.choice([1, 2, 3, 4, 5, 8, 13])
        s = [rng.randint(-9, 9) for _i in range(n)]
        a = np.array(s, dtype=rng.choice([float, int]))
        keep = a.copy()
        if rng.random() < 0.5:
            even = rng.random() < 0.5
            out = call(idl_median, a, even=even)
            ok = out[0] == "ok" and np.ndim(out[1]) == 0
            recs.append(dict(kind="median", s=s, even=even, ok=bool(ok), kept=bool(np.array_equal(a, keep)), res=[rat(out[1])] if ok else [], why=str(out)))
        else:
            w = rng.randint(1, min(n, 6))
            out = call(idl_median, a, width=w)
            ok = out[0] == "ok" and np.shape(out[1]) == (n,)
            recs.append(dict(kind="slide", s=s, w=w, ok=bool(ok), kept=bool(np.array_equal(a, keep)), out=[int(x) for x in out[1]] if ok else [], why=str(out)))
    bad = tlc.judge(ctx, "StatsOps", "SVerdict", recs)
    for i, v in bad.items():
        for c in v:
            ctx.violation("judge:%s:%s" % (recs[i]["kind"], c), "%s fails for %s" % (c, recs[i]), recs[i])
    ctx.count("judged_records", len(recs))
    ctx.assumptions.append("cut comparisons that are too close to decide with three digits are not judged")
