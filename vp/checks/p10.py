"""P10 flagging."""
import copy

import numpy as np

from .. import flags, grid, tlc

O = ('[dim |-> 8, el |-> 8, psf |-> 2, res |-> 2, U |-> 2, f |-> <<1, 2>>, u |-> <<1, 2, -3, 1, 2, -3>>, v |-> <<-1, 1, 0, -1, 1, 0>>, mn |-> 2, mx |-> 100,'
     ' np |-> 2, ta |-> <<1, 1, 2, 1, 1, 2>>, tb |-> <<2, 3, 3, 2, 3, 3>>, tm |-> <<1, 1, 1, 2, 2, 2>>]')
ONE = "[p \\in 1..2 |-> [c \\in 1..2 |-> [b \\in 1..6 |-> %s]]]"
STARTS = "{%s}" % ", ".join("[w |-> %s, tu |-> %s, fu |-> %s, mu |-> %s]" % (ONE % w, t, f, m) for w, t, f, m in [
    ("1", "<<1, 1, 1>>", "<<1, 1>>", "<<1, 1>>"),
    ("IF c = 2 THEN 0 ELSE 1", "<<1, 1, 1>>", "<<1, 1>>", "<<1, 0>>"),
    ("IF p = 2 /\\ c = 1 THEN -1 ELSE 1", "<<1, 0, 1>>", "<<1, 1>>", "<<1, 1>>"),
    ("IF p = 1 /\\ b \\in {2, 3, 5, 6} THEN 0 ELSE 1", "<<1, 1, 1>>", "<<0, 1>>", "<<0, 1>>"),
    ("IF b = 1 /\\ c = 1 THEN 0 ELSE 2", "<<1, 1, 1>>", "<<1, 1>>", "<<1, 1>>"),
])
DATAS = "{%s}" % ", ".join(ONE % x for x in ["1", "IF b \\in {1, 5} THEN 0 ELSE 1", "IF p = 1 THEN 0 ELSE 1"])


def classes(rng, ntile, nf, ntime, kind):
    k = dict(t=[0] * ntile, f=[0] * nf, m=[0] * ntime)
    if kind in ("tiles", "mixed"):
        k["t"][rng.choice([0, ntile - 1, rng.randrange(ntile)])] = rng.choice([1, 2])
    if kind in ("channels", "mixed"):
        k["f"][rng.randrange(nf)] = rng.choice([1, 2])
    if kind in ("times", "mixed") and ntime > 2:
        k["m"][rng.randrange(ntime)] = 2
    if kind == "dead":
        k["t"][rng.randrange(ntile)] = 2
        k["f"][rng.randrange(nf)] = 2
    if kind == "two":
        a, b = rng.sample(range(3, nf - 3), 2)
        if abs(a - b) < 4:
            b = (a + 30) % (nf - 8) + 4
        k["f"][a], k["f"][b] = 3, 4
    if kind == "loudtime":
        k["m"][rng.randrange(ntime)] = 1
    return k


def outlier_case(rng, kind):
    """an observation whose ordinary units are alike and whose outliers stand out"""
    ntile, nf, ntime = {"two": (5, 66, 2), "loudtime": (5, 12, 45)}.get(kind, (rng.choice([14, 15]), rng.choice([12, 15]), rng.choice([2, 3, 4])))
    ta, tb, tm = flags.rows(ntile, ntime)
    nb = len(ta)
    npol = rng.choice([1, 2, 4, 4]) if kind not in ("loudtime",) else 1
    o = dict(dim=64, el=64, psf=2, res=2, U=8, f=list(range(1, nf + 1)), u=[rng.randint(-4, 4) for _ in ta], v=[rng.randint(1, 4) for _ in ta], mn=0, mx=10**4, kpix=0.5, fu=[1] * nf,
             np=npol, ta=ta, tb=tb, tm=tm)
    med = nf // 2 + 1
    if kind in ("tiles", "channels", "plain") and rng.random() < 0.6:
        i = rng.randrange(nb)  # one row is too long
        o["u"][i], o["v"][i] = 30, 40
        o["mx"] = med * rng.choice([40, 40, 50])  # or exactly as long as allowed
        if rng.random() < 0.5:
            j = rng.randrange(nb)  # and one too short
            if j != i:
                o["u"][j], o["v"][j] = 0, 0
                o["mn"] = rng.choice([1, med])
    k = classes(rng, ntile, nf, ntime, kind)
    loud = {0: 1.0, 1: 60.0, 2: 1.0, 3: 1000.0, 4: 4.0}
    g = np.array([(1.2 if t % 2 else 1.0) * loud[k["t"][t]] for t in range(ntile)])
    a = np.array([(1.25 if c % 2 else 1.0) * loud[k["f"][c]] for c in range(nf)])
    h = np.array([(1.1 if m % 2 else 1.0) * loud[k["m"][m]] for m in range(ntime)])
    A, B, M = np.array(ta) - 1, np.array(tb) - 1, np.array(tm) - 1
    sgn = np.array([[1 if rng.random() < 0.5 else -1 for _ in range(nb)] for _ in range(nf)])
    amp = a[:, None] * (g[A] * g[B] * h[M])[None, :]
    base = 3.0 * amp.max()
    vis = np.zeros((npol, nf, nb), complex)
    for p in range(npol):
        vis[p] = (base + sgn * amp) * np.exp(1j * rng.random())
    w = np.ones((npol, nf, nb))
    dead = np.isin(A, np.nonzero(np.array(k["t"]) == 2)[0]) | np.isin(B, np.nonzero(np.array(k["t"]) == 2)[0]) | np.isin(M, np.nonzero(np.array(k["m"]) == 2)[0])
    w[:, :, dead] = 0
    w[:, np.array(k["f"]) == 2] = 0
    if kind in ("tiles", "channels", "plain"):
        for p in range(npol):  # a few samples are missing, not the same ones in every polarisation
            for _ in range(rng.choice([0, 2])):
                w[p, rng.randrange(nf), rng.randrange(nb)] = 0
    st = dict(w=w.astype(int).tolist(), tu=[1] * ntile, fu=[1] * nf, mu=[1] * ntime)
    if rng.random() < 0.3:
        st["fu"][rng.randrange(nf)] = 0
    return flags.step(o, st, "outlier", data=vis, k=k, med=med)


def gain_case(rng):
    ntile, nf = 42, 40
    npol = rng.choice([1, 2])
    o = dict(dim=8, el=8, psf=2, res=2, U=8, f=list(range(1, nf + 1)), u=[1], v=[1], mn=0, mx=10**4, kpix=0.5, fu=[1] * nf, np=npol, ta=[1], tb=[2], tm=[1])
    st = dict(w=[[[1]] * nf] * npol, tu=[1] * ntile, fu=[1] * nf, mu=[1])
    for t in rng.sample(range(ntile), rng.choice([0, 2])):
        st["tu"][t] = 0
    for c in rng.sample(range(nf), rng.choice([0, 2])):
        st["fu"][c] = 0
    k = dict(t=[0] * ntile, f=[0] * nf, m=[0])
    free = [t for t in range(ntile) if st["tu"][t]]
    pick = rng.sample(free, 6)
    fc = rng.choice([0, 0, 1, 2])
    # a bad channel adds to the scatter of every tile, a noisy tile would not stand out
    kinds = [x for x in (1, 2, 3, 4, 5, 6) if rng.random() < 0.5 and not (fc and x == 3)]
    for x in kinds:
        k["t"][pick[x - 1]] = x
    ff = [c for c in range(5, nf - 5) if st["fu"][c]]
    bad = rng.choice(ff)
    gain = np.zeros((npol, nf, ntile), complex)
    x = np.linspace(-1, 1, nf)
    where = {y: rng.randrange(npol) for y in range(1, 8)}
    for p in range(npol):
        for t in range(ntile):
            s = np.array([1 if rng.random() < 0.5 else -1 for _ in range(nf)])
            r = np.array([1 if rng.random() < 0.5 else -1 for _ in range(nf)])
            amp = 1 + (0.004 if t % 2 else 0.006) * s * np.where(np.arange(nf) % 2, 1.0, 1.2)
            ph = (0.02 if t % 2 else -0.03) * x + (0.004 if t % 2 else 0.005) * r + rng.choice([-1, 0.5, 1])
            q = k["t"][t] if k["t"][t] and where[k["t"][t]] == p else 0
            if q == 1:
                amp = amp * 2.6
            elif q == 2:
                amp = amp * 0.3
            elif q == 3:
                amp = 1 + 0.3 * s
            elif q == 4:
                ph = ph + 2.0 * x
            elif q == 5:
                ph = ph + 0.4 * r
            elif q == 6:
                amp = amp * 0
            gain[p, :, t] = amp * np.exp(1j * ph)
    if fc:
        k["f"][bad] = fc
        p = where[7]
        if fc == 1:
            gain[p, bad] *= np.array([1.35 if rng.random() < 0.5 else 0.65 for _ in range(ntile)])
        else:
            gain[p, bad] = 0
    return flags.step(o, st, "gains", data=dict(n_pol=npol, gain=gain), k=k, withf=rng.random() < 0.7)


def run(ctx):
    rng = ctx.rng
    # histories of the specification, replayed step by step
    res = tlc.run(ctx, "Flag", constants=dict(O=O, Starts=STARTS, Datas=DATAS, Depth=str(ctx.n(2, 3))),
                  invariants=["UpdateClean", "NamesClean", "BasicTiles", "Emit"], properties=["MasksShrink", "WeightsShrink", "GivenBack"])
    ctx.count("spec_behaviours", len(res.cases))
    o = dict(dim=8, el=8, psf=2, res=2, U=2, f=[1, 2], u=[1, 2, -3, 1, 2, -3], v=[-1, 1, 0, -1, 1, 0], mn=2, mx=100, np=2, ta=[1, 1, 2, 1, 1, 2], tb=[2, 3, 3, 2, 3, 3], tm=[1, 1, 1, 2, 2, 2], fu=[1, 1], kpix=0.5)
    live = lambda s: dict(s, w=[[[max(x, 0) for x in r] for r in c] for c in s["w"]])
    for c in res.cases if len(res.cases) < 3000 else rng.sample(res.cases, 3000):
        st = c["h"][0]["st"]
        for e in c["h"][1:]:
            r = flags.step(o, st, e["step"], q=e["q"])
            if not r["ok"] or live(r["b"]) != live(e["st"]):
                ctx.violation("replay:" + e["step"], "%s %s from %s gives %s, the model says %s" % (e["step"], e["q"], st, r.get("why") or r["b"], e["st"]), c)
                break
            st = r["b"]
        ctx.replayed()
    ctx.sample(res.cases[7])
    # longer histories on random observations, every step judged
    recs = []
    for _ in range(ctx.n(350, 4000)):
        ob = flags.observation(rng)
        nt = max(ob["tb"])
        st = flags.start(rng, ob, nt)
        for _k in range(rng.choice([1, 2, 3, 4])):
            name = rng.choice(["names", "basic", "basic", "update", "update"])
            q = dict(tiles=rng.sample(range(1, nt + 1), rng.choice([0, 1, 1, min(2, nt)])))
            if name == "basic":
                q.update(at=rng.random() < 0.6, lo=rng.choice([0, 0, 1, 2, 3]), hi=rng.choice([0, 0, 1, 2, 4]), edges=False,
                         data=[[[rng.choice([1, 1, 1, 0]) for _ in ob["u"]] for _ in ob["f"]] for _ in range(ob["np"])])
                if rng.random() < 0.6:
                    q["tiles"] = []
            r = flags.step(ob, st, name, q=q)
            recs.append(r)
            if not r["ok"]:
                break
            st = r["b"]
    for _ in range(ctx.n(6, 40)):  # with channel edges
        ob = flags.observation(rng, nf=rng.choice([96, 192]), ntile=3, ntime=2)
        ob.update(f=list(range(1, len(ob["f"]) + 1)), dim=64, el=64, U=8, mn=0, mx=10**4, u=[rng.randint(-1, 1) for _ in ob["u"]], v=[rng.randint(-1, 1) for _ in ob["u"]])
        st = flags.start(rng, ob, 3)
        q = dict(tiles=[], lo=rng.choice([0, 5]), hi=rng.choice([0, 90]), edges=True, data=[[[1] * len(ob["u"])] * len(ob["f"])] * ob["np"])
        r = flags.step(ob, st, "basic", q=q)
        recs.append(r)
        if r["ok"]:
            recs.append(flags.step(ob, r["b"], "update"))
    ctx.count("steps", len(recs))
    kinds = ["tiles", "channels", "times", "mixed", "dead", "plain"] * ctx.n(5, 40) + ["two"] * ctx.n(3, 12) + ["loudtime"] * ctx.n(2, 6)
    out = [outlier_case(rng, k) for k in kinds]
    ctx.count("outlier_histories", len(out))
    # outlier flagging is followed by the weights being brought in line
    out += [flags.step(r["o"], r["b"], "update") for r in out[:20] if r["ok"]]
    gains = [gain_case(rng) for _ in range(ctx.n(60, 600))]
    ctx.count("gain_flaggings", len(gains))
    recs += out + gains
    for i, v in sorted(tlc.judge(ctx, "FlagOps", "FVerdict", recs).items()):
        for cl in v:
            r = recs[i]
            ctx.violation("%s:%s" % (r["step"], cl), "%s after %s: %s" % (cl, r["step"], str({k: x for k, x in r.items() if k not in ("a", "b", "o")})[:300] + " " + str(r)[:600]), r)
    ctx.assumptions = ["outliers stand out clearly from otherwise uniform data; borderline decisions on real data are not pinned down",
                       "at least one unit of each kind is ordinary"]
