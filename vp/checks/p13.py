"""P13 gridding: the planes are the sums over the usable samples."""
from .. import grid, tlc, vgrid

CORE = ("o", "s")


def kernel(res, psf, ng, seed):
    return [[[[[((g * 5 + j * 3 + i * 2 + p * seed) % 5) - 1, ((g + j * 2 + i * 7 + p) % 3) - 1] for p in range(1, psf * psf + 1)]
              for i in range(1, res + 2)] for j in range(1, res + 2)] for g in range(1, ng + 1)]


def run(ctx):
    rng = ctx.rng
    cfgs = [
        dict(Dim=6, El=6, Psf=2, Res=2, Un=2, Fs="<<1, 2>>", Fbs="<<1, 2>>", Us="<<1, -1>>", Vs="<<-1, 1>>", Vals="{<<2, -1>>, <<0, 3>>}", Interp="TRUE", Conj="TRUE", KSeed=1),
        dict(Dim=6, El=8, Psf=2, Res=2, Un=2, Fs="<<1, 1>>", Fbs="<<1, 1>>", Us="<<1, 1>>", Vs="<<-1, -1>>", Vals="{<<2, -1>>, <<1, 3>>}", Interp="FALSE", Conj="TRUE", KSeed=2),
        dict(Dim=8, El=6, Psf=2, Res=1, Un=1, Fs="<<1>>", Fbs="<<1>>", Us="<<0, 1, 1>>", Vs="<<0, -1, 0>>", Vals="{<<2, -1>>, <<1, 3>>}", Interp="FALSE", Conj="FALSE", KSeed=3),
    ]
    if ctx.thorough:
        cfgs.append(dict(Dim=8, El=8, Psf=4, Res=2, Un=2, Fs="<<1, 2>>", Fbs="<<1, 1>>", Us="<<1, -2>>", Vs="<<0, -1>>", Vals="{<<2, -1>>, <<0, 3>>}", Interp="TRUE", Conj="TRUE", KSeed=4))
        cfgs.append(dict(Dim=6, El=6, Psf=2, Res=3, Un=1, Fs="<<1, 2, 3>>", Fbs="<<1, 2, 2>>", Us="<<0, 0>>", Vs="<<0, -1>>", Vals="{<<2, -1>>}", Interp="FALSE", Conj="TRUE", KSeed=5))
    for c in cfgs:
        res = tlc.run(ctx, "VisGrid", constants=c, invariants=["Sums", "Hermitian", "Mass", "Flagged", "Border", "Emit"])
        ctx.count("spec_behaviours", len(res.cases))
        seen = {}
        for k in res.cases:
            seen[repr((k["o"]["w"], k["o"]["vis"]))] = k
        cases = list(seen.values())
        cases = cases if ctx.thorough or len(cases) < 120 else rng.sample(cases, 120)
        for k in cases:
            o, s = k["o"], k["s"]
            ng = max(o["fb"])
            o.update(K=kernel(o["res"], o["psf"], ng, c["KSeed"]), nbt=len(o["u"]), ids=[[0] * len(o["u"])] * ng)
            r = vgrid.grid_once(o, s)
            ctx.replayed()
            if not r["ok"]:
                ctx.violation("replay:returns", "gridding %s: %s" % (o, r["why"]), k)
            elif r["none"]:
                if k["n"]:
                    ctx.violation("replay:nothing", "nothing was gridded although %d samples are usable: %s" % (k["n"], o), k)
            else:
                for f in ("n", "img", "wts", "var", "cnt", "nf"):
                    if r[f] != k[f]:
                        ctx.violation("replay:" + f, "%s after gridding %s is %s, the model says %s" % (f, {x: o[x] for x in o if x != "K"}, r[f], k[f]), k)
        ctx.sample({x: cases[-1]["o"][x] for x in ("f", "u", "v", "w", "vis")})
    recs = []
    for i in range(ctx.n(700, 8000)):
        o = vgrid.layout(rng)
        s = vgrid.selection(rng, o)
        pol, npol = rng.choice([(0, 1), (0, 2), (1, 2), (3, 4)])
        recs.append(dict(kind="grid", r=vgrid.grid_once(o, s, pol, npol, h5=rng.random() < 0.3)))
    for i in range(ctx.n(300, 3000)):
        o = vgrid.layout(rng)
        s = grid.selection(rng, o)
        s["interp"], s["bpb"], s["conj"] = False, False, rng.random() < 0.5
        recs.append(dict(kind="count", r=vgrid.count_once(o, s)))
    for i, v in sorted(tlc.judge(ctx, "VisGridOps", "AllVerdict", recs).items()):
        for cl in v:
            ctx.violation("judge:%s:%s" % (recs[i]["kind"], cl), "%s: %s" % (cl, {k: x for k, x in recs[i]["r"].items() if k in ("o", "s", "why", "n", "nf", "none")}), recs[i])
    ctx.sample(recs[0]["r"]["o"])
    ctx.assumptions = ["grid and kernel widths are even, as the set-up makes them", "kernels and visibilities are small Gaussian integers and coordinates binary fractions, so that sums are exact",
                       "the spectral planes are decided in the interpolating mode, where nothing is merged beforehand"]
