"""P12 even/odd split and noise."""
import numpy as np

from .. import tlc
from ..core import call, rat


def real(x):
    from PyFHD.pyfhd_tools.pyfhd_utils import split_vis_weights, vis_noise_calc

    w = np.array(x["w"], float)
    npol, nf, nr = w.shape
    vis = 0.5 + 1j * np.array(x["im"], float)
    sizes = x.get("sizes") or [x["nb"]] * x["nt"]
    off = np.concatenate([[0], np.cumsum(sizes)[:-1]]).astype(np.int64)
    obs = dict(n_time=x["nt"], n_pol=npol, n_freq=nf, baseline_info=dict(bin_offset=off, time_use=np.array(x["mu"], np.int64)))
    rec = dict(x=x, ok=False, even=[], odd=[], w=[], noise=[], noise2=[], kept=False)
    a = call(split_vis_weights, obs, w.copy())
    if a[0] != "ok":
        return dict(rec, why=str(a))
    try:
        ws, bi = a[1]
        ints = lambda v: [int(t) + 1 for t in np.asarray(v).ravel()]
        rec.update(even=ints(bi[0]), odd=ints(bi[1]), w=np.asarray(ws).astype(int).tolist() if (np.asarray(ws) == np.asarray(ws).astype(int)).all() else [])
    except Exception as e:
        return dict(rec, why=repr(e))
    mine = w.copy()
    b = call(vis_noise_calc, obs, vis, mine)
    c = call(vis_noise_calc, obs, vis, np.array(ws), bi_use=bi)
    if b[0] != "ok" or c[0] != "ok":
        return dict(rec, why=str((b, c)))
    q = lambda v: [[rat(2 * float(t) ** 2, maxden=40000) for t in r] for r in np.asarray(v)]
    rec.update(ok=True, noise=q(b[1]), noise2=q(c[1]), kept=bool((mine == w).all()))
    return rec


def run(ctx):
    rng = ctx.rng
    for nt in ctx.n([2, 3, 5], [2, 3, 4, 5, 6, 7]):
        ims = "{%s}" % ", ".join("<<%s>>" % ", ".join(str(rng.randint(-4, 4)) for _ in range(nt)) for _ in range(2))
        res = tlc.run(ctx, "Split", constants=dict(NT=str(nt), Wts="{0, 1}" if nt > 4 else "{-1, 0, 1, 2}", Ims=ims), invariants=["SamePairs", "Balanced", "Mates", "Identical", "Emit"])
        ctx.count("spec_behaviours", len(res.cases))
        for c in res.cases if len(res.cases) < 2500 else rng.sample(res.cases, 2500):
            r = real(c["x"])
            ctx.replayed()
            if not r["ok"]:
                ctx.violation("replay:returns", "splitting %s: %s" % (c["x"], r["why"]), c)
            elif r["even"] != c["even"] or r["odd"] != c["odd"] or [max(t, 0) for t in r["w"][0][0]] != c["w"]:
                ctx.violation("replay:split", "splitting %s gave %s" % (c["x"], r), c)
            elif r["noise"][0][0] != c["n"] or r["noise2"][0][0] != c["n"]:
                ctx.violation("replay:noise", "the noise of %s is %s / %s instead of %s" % (c["x"], r["noise"], r["noise2"], c["n"]), c)
            elif not r["kept"]:
                ctx.violation("replay:weights-kept", "calculating the noise of %s changed the weights" % c["x"], c)
        ctx.sample(res.cases[len(res.cases) // 2])
    recs = []
    for _ in range(ctx.n(600, 6000)):
        nt, nb = rng.choice([2, 3, 4, 5, 6, 7, 8]), rng.choice([1, 2, 3, 6])
        npol, nf = rng.choice([1, 2, 4]), rng.choice([1, 2, 3])
        mu = [rng.choice([1, 1, 1, 0]) for _ in range(nt)]
        if not any(mu):
            mu[-1] = 1
        x = dict(nt=nt, nb=nb, mu=mu, w=[[[rng.choice([1, 1, 1, 1, 2, 0, -1]) for _ in range(nt * nb)] for _ in range(nf)] for _ in range(npol)],
                 im=[[[rng.randint(-6, 6) for _ in range(nt * nb)] for _ in range(nf)] for _ in range(npol)])
        recs.append(real(x))
    for i, v in sorted(tlc.judge(ctx, "SplitOps", "SVerdict", recs).items()):
        for cl in v:
            ctx.violation("judge:" + cl, "%s: %s" % (cl, recs[i]), recs[i])
    ctx.sample(recs[0]["x"])
    ctx.assumptions = ["every integration has the same baselines in the same order", "two or more integrations, at least one of them usable"]
