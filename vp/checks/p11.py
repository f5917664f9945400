"""P11 grid locations."""
from .. import grid, tlc


def run(ctx):
    rng = ctx.rng
    S0 = dict(all=False, half=False, fi=[], bi=[], interp=True)
    cfgs = [
        dict(Dim=8, El=8, Psf=2, Res=2, Un=4, Fs="<<1, 2>>", Coords="-10..10", Mn=0, Mx=1000, NB=1),
        dict(Dim=8, El=12, Psf=4, Res=4, Un=2, Fs="<<1, 3>>", Coords="-7..7", Mn=3, Mx=20, NB=1),
        dict(Dim=12, El=8, Psf=2, Res=3, Un=1, Fs="<<1, 2>>", Coords="{-5, -2, 0, 1, 3}", Mn=2, Mx=8, NB=2),
    ]
    if ctx.thorough:
        cfgs.append(dict(Dim=12, El=10, Psf=4, Res=4, Un=4, Fs="<<1, 2, 3>>", Coords="-20..20", Mn=2, Mx=70, NB=1))
    for c in cfgs:
        res = tlc.run(ctx, "Grid", constants=c, invariants=["Inside", "LowerHalf", "Contains", "Mirror", "Rebuilt", "Once", "Emit"])
        ctx.count("spec_behaviours", len(res.cases))
        cases = res.cases if ctx.thorough or len(res.cases) < 1500 else rng.sample(res.cases, 1500)
        for k in cases:
            o = k["o"]
            r = grid.locations(o, S0)
            ctx.replayed()
            if not r["ok"]:
                ctx.violation("replay:returns", "locating %s: %s" % (o, r["why"]), k)
                continue
            nb = len(r["bi"])
            got = sorted((cell, i // nb + 1, r["bi"][i % nb]) for cell, l in r["lists"] for i in l)
            if got != sorted(tuple(x) for x in k["lists"]):
                ctx.violation("replay:cells", "layout %s is listed as %s, the model says %s" % (o, got, k["lists"]), k)
        ctx.sample(cases[len(cases) // 2])
    recs = []
    for _ in range(ctx.n(1200, 12000)):
        o = grid.layout(rng)
        recs.append(grid.locations(o, grid.selection(rng, o)))
    for i, v in sorted(tlc.judge(ctx, "GridOps", "LVerdict", recs).items()):
        for cl in v:
            ctx.violation("judge:" + cl, "%s: %s" % (cl, {k: x for k, x in recs[i].items() if k not in ("frac",)}), recs[i])
    ctx.sample(recs[0])
    # the weights drop exactly the samples that do not fit or whose length is out of range
    from .. import flags

    recs = [flags.update_record(rng) for _ in range(ctx.n(500, 5000))]
    for i, v in sorted(tlc.judge(ctx, "FlagOps", "UVerdict", recs).items()):
        for cl in v:
            ctx.violation("weights:" + cl, "%s: %s" % (cl, recs[i]), recs[i])
    ctx.assumptions = ["grid and kernel widths are even, as the set-up makes them", "coordinates and channel values are small binary fractions so that the real arithmetic is exact"]
