"""P08 region_grow."""
import numpy as np

from .. import tlc
from ..core import call

UNDEF, NONE = 99999, 88888


def real(g, dtype=float):
    from PyFHD.pyfhd_tools.pyfhd_utils import region_grow

    a = np.array(g["img"], dtype=float)
    if UNDEF in g["img"]:
        dtype = float
        a[a == UNDEF] = np.nan
    a = a.astype(dtype)
    if g["R"] > 1:
        a = a.reshape(g["R"], g["C"])
    kw = {}
    if g["low"] != NONE:
        kw["low"] = g["low"]
    if g["high"] != NONE:
        kw["high"] = g["high"]
    out = call(region_grow, a, np.array(g["seeds"], dtype=np.int64), **kw)
    if out[0] != "ok":
        return dict(ok=False, none=False, res=[], why=str(out))
    if out[1] is None:
        return dict(ok=True, none=True, res=[])
    return dict(ok=True, none=False, res=[int(x) for x in np.asarray(out[1]).ravel()])


def run(ctx):
    cfgs = [
        (dict(R=3, C=4, Vals="{0, 1}", SeedChoices="{<<5>>, <<6>>, <<5, 6>>, <<1, 6>>}", Lo=1, Hi=1), ctx.n(0.25, 1)),
        (dict(R=1, C=6, Vals="{0, 1, 2}", SeedChoices="{<<1>>, <<2, 4>>, <<0, 3>>, <<1, 2>>}", Lo=1, Hi=2), 1),
        (dict(R=1, C=5, Vals="{0, 1, 2}", SeedChoices="{<<1>>, <<2, 3>>, <<0, 3>>}", Lo=NONE, Hi=NONE), 1),
    ]
    if ctx.thorough:
        cfgs.append((dict(R=4, C=4, Vals="{0, 1}", SeedChoices="{<<5>>, <<5, 10>>}", Lo=1, Hi=1), 0.5))
        cfgs.append((dict(R=3, C=4, Vals="{0, 1}", SeedChoices="{<<5, 6>>}", Lo=NONE, Hi=NONE), 1))
    for cons, frac in cfgs:
        res = tlc.run(ctx, "Region", constants=cons, invariants=["Safe", "Closed", "Emit"], properties=["Monotone"])
        ctx.count("spec_behaviours", len(res.cases))
        for c in res.cases:
            if ctx.rng.random() > frac:
                continue
            got = real(c["g"], ctx.rng.choice([int, float]))
            ctx.replayed()
            if not got["ok"]:
                ctx.violation("replay:returns", "growing %s did not return: %s" % (c["g"], got["why"]), c)
            elif got["none"] != (c["region"] == []) or sorted(got["res"]) != c["region"]:
                ctx.violation("replay:region", "growing %s gave %s, model %s" % (c["g"], got, c["region"]), c)
        ctx.sample(res.cases[len(res.cases) // 3])
    recs = []
    rng = ctx.rng
    for _ in range(ctx.n(500, 5000)):
        R = rng.choice([1, 3, 4, 5, 6, 8])
        C = rng.choice([3, 4, 5, 7, 9])
        dens = rng.choice([0.5, 0.65, 0.8, 0.95])
        lo, hi = rng.choice([(1, 5), (0, 3), (-2, 9), (3, 3), (NONE, NONE), (NONE, 4), (2, NONE)])
        img = []
        for _i in range(R * C):
            x = rng.randint(1, 3) if rng.random() < dens else rng.randint(-5, 12)
            if rng.random() < 0.04:
                x = UNDEF
            img.append(x)
        seeds = sorted(rng.sample(range(R * C), rng.choice([1, 1, 1, 2, 3])))
        if rng.random() < 0.5:
            rng.shuffle(seeds)
        if any(img[s] == UNDEF for s in seeds) and NONE in (lo, hi):
            continue
        # thresholds crossing each other: nothing is within them
        g = dict(R=R, C=C, img=img, seeds=seeds, low=lo, high=hi)
        recs.append(dict(g=g, **real(g)))
    # serpentine regions: long components with many turns, two labels merging late
    for k in range(ctx.n(40, 200)):
        R, C = rng.choice([(7, 7), (9, 7), (7, 9)])
        img = [0] * (R * C)
        for r in range(1, R - 1, 2):
            for c in range(1, C - 1):
                img[r * C + c] = 1
        for r in range(2, R - 1, 2):
            side = 1 if (r // 2) % 2 else C - 2
            img[r * C + side] = 1
        if rng.random() < 0.5:
            img[rng.randrange(R * C)] = 0
        seeds = rng.sample([p for p in range(R * C)], rng.choice([1, 2, 4]))
        g = dict(R=R, C=C, img=img, seeds=seeds, low=1, high=1)
        recs.append(dict(g=g, **real(g, int)))
    bad = tlc.judge(ctx, "RegionOps", "RVerdict", recs)
    for i, v in bad.items():
        for c in v:
            ctx.violation("judge:" + c, "%s fails for %s" % (c, recs[i]), recs[i])
    ctx.count("judged_records", len(recs))
    ctx.sample(recs[1])
