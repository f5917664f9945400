"""P16 the gain solver."""
import cmath
import math

import numpy as np

from .. import tlc
from ..core import call, rat
from ..grid import LOG


def cplx(v):
    return np.array([[complex(*t) for t in f] for f in v]).reshape(len(v), -1)


def inputs(x, pols=None):
    """x (one polarisation) or a list of (v, w, m, g) -> arguments of the solver"""
    nt, ta = x["nt"], x["ta"]
    k = x.get("kpix", 1.0)
    pols = pols or [(x["v"], x["w"], x["m"], x["g"])]
    nf, n = len(x["f"]), len(ta) * nt
    obs = dict(min_baseline=x["omn"] * k, max_baseline=x["omx"] * k, dimension=x["dim"], elements=x["el"], n_freq=nf, n_tile=len(x["tu"]), n_time=nt,
               n_baselines=len(ta), n_pol=len(pols), kpix=k, pol_names=["XX", "YY", "XY", "YX"],
               baseline_info=dict(tile_a=np.array(ta * nt), tile_b=np.array(x["tb"] * nt), freq=np.array(x["f"], float), tile_use=np.array(x["tu"], float),
                                  freq_use=np.array(x["fu"], float), tile_names=np.array(["T%d" % i for i in range(len(x["tu"]))])))
    par = dict(uu=np.array(x["u"] * nt, float) * k, vv=np.array(x["vv"] * nt, float) * k)
    v, w, m, g = (np.array([cplx(p[i]) if i != 1 else np.array(p[i], float).reshape(nf, n) for p in pols]) for i in range(4))
    if x.get("undefined") and not x["avg"]:
        # a model that is not defined says as much as none; unused data may be undefined
        m[m == 0] = np.nan
        v[w <= 0] = np.nan
    return v, m, w, obs, dict(n_pol=len(pols), gain=g, ref_antenna=1), par


def config(x, mx, p=0, thr=1e-7, adaptive=True):
    k = x.get("kpix", 1.0)
    return dict(min_cal_baseline=x["cmn"] * k if x["cmn"] else None, max_cal_baseline=x["cmx"] * k if x["cmx"] else None, cal_time_average=x["avg"],
                max_cal_iter=mx, cal_convergence_threshold=thr, cal_adaptive_calibration_gain=adaptive, cal_base_gain=1.0, cal_phase_fit_iter=p or None)


def solve(x, mx, p=0, thr=1e-7, adaptive=True, noref=False, pols=None):
    from PyFHD.calibration.vis_calibrate_subroutine import vis_calibrate_subroutine

    v, m, w, obs, cal, par = inputs(x, pols)
    keep = (v.copy(), m.copy())
    out = call(vis_calibrate_subroutine, v, m, w, obs, cal, par, config(x, mx, p, thr, adaptive), LOG, no_ref_tile=noref)
    if out[0] == "ok":
        g = np.asarray(out[1]["gain"])
        if g.shape != (len(w), len(x["f"]), len(x["tu"])):
            return ("raise", "shape", str(g.shape))
        if not (np.array_equal(keep[0], v, equal_nan=True) and np.array_equal(keep[1], m, equal_nan=True)):
            return ("raise", "changed", "the visibilities were changed")
    return out


SPEC = ("ta", "tb", "nt", "tu", "fu", "w", "v", "m", "u", "vv", "f", "dim", "el", "omn", "omx", "cmn", "cmx", "avg", "g")


def part(x):
    return {k: x[k] for k in SPEC}


def classify(g, start):
    return [["nan" if cmath.isnan(complex(z)) else "zero" if z == 0 else "start" if z == complex(*s) else "other" for z, s in zip(gr, sr)] for gr, sr in zip(g, start)]


def ratio(g):
    return [[[rat(z.real, 60000), rat(z.imag, 60000)] for z in r] for r in g]


def mil(g):
    return [[[int(round(1000 * z.real)), int(round(1000 * z.imag))] if cmath.isfinite(complex(z)) and abs(z) < 1e5 else [10**6, 10**6] for z in r] for r in g]


def tagged(g):
    o = []
    for z in np.asarray(g).ravel():
        z = complex(z)
        o.append([0, 0, "nan"] if cmath.isnan(z) else [int(round(z.real * 1e6)), int(round(z.imag * 1e6)), "num"] if abs(z) < 2000 else [0, 0, "big"])
    return o


def setup(rng, ntile=None, masks=True, edges=True, avg=None, nt=None, nf=None, small=True):
    ntile = ntile or rng.choice([3, 4, 5, 6, 6, 7])
    nt = nt or rng.choice([1, 2, 3])
    nf = nf or rng.choice([1, 2, 3])
    base = [(a, b) for a in range(1, ntile + 1) for b in range(a + 1, ntile + 1)]
    if edges and rng.random() < 0.4:
        base += [(a, a) for a in range(1, ntile + 1)]
    if edges and rng.random() < 0.4:
        rng.shuffle(base)
        base = [b if rng.random() < 0.5 else b[::-1] for b in base]
    if edges and rng.random() < 0.3:
        base = base[: max(3, int(len(base) * rng.choice([0.5, 0.8])))]
    nb = len(base)
    x = dict(ta=[a for a, b in base], tb=[b for a, b in base], nt=nt, f=[rng.choice([1, 1, 2, 3]) if edges else 1 for _ in range(nf)], kpix=rng.choice([0.5, 1.0, 2.0]),
             u=[rng.randint(-6, 6) if a != b else 0 for a, b in base], vv=[rng.randint(-6, 6) if a != b else 0 for a, b in base], avg=rng.random() < 0.5 if avg is None else avg)
    x.update(dim=64, el=64, omn=0, omx=99, cmn=0, cmx=0)
    if edges and rng.random() < 0.5:
        x.update(dim=rng.choice([8, 12, 16, 64]), el=rng.choice([8, 12, 16, 64]), omn=rng.choice([0, 0, 1, 2]), omx=rng.choice([99, 10, 5]), cmn=rng.choice([0, 1, 2, 3]), cmx=rng.choice([0, 5, 8, 12]))
    x["tu"] = [0 if masks and rng.random() < 0.15 else 1 for _ in range(ntile)]
    x["fu"] = [0 if masks and rng.random() < 0.15 else 1 for _ in range(nf)]
    n = nb * nt
    x["w"] = [[rng.choice([1, 1, 1, 1, 2, 0, -1]) if masks else 1 for _ in range(n)] for _ in range(nf)]
    if masks and rng.random() < 0.3:
        # one tile has few samples in one channel
        f, t = rng.randrange(nf), rng.randint(1, ntile)
        for i in range(n):
            if t in base[i % nb] and rng.random() < 0.8:
                x["w"][f][i] = 0
    return x


def usable(x):
    """at least one usable tile remains (the solver needs a reference tile)"""
    ok = [i for i in range(len(x["ta"])) if x["tu"][x["ta"][i] - 1] and x["tu"][x["tb"][i] - 1]]
    lo, hi = max(x["cmn"], x["omn"]) if x["cmn"] else x["omn"], min(x["cmx"], x["omx"]) if x["cmx"] else x["omx"]
    for f in range(len(x["f"])):
        for i in ok:
            d = (x["u"][i] ** 2 + x["vv"][i] ** 2) * x["f"][f] ** 2
            if lo**2 <= d <= hi**2 and 2 * abs(x["u"][i]) * x["f"][f] <= x["dim"] and 2 * abs(x["vv"][i]) * x["f"][f] <= x["el"]:
                if any(x["w"][f][t * len(x["ta"]) + i] > 0 for t in range(x["nt"])):
                    return True
    return False


GAIN = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (2, 0), (1, -1)]
MOD = [(1, 0), (0, 1), (-1, 0), (1, 1), (1, -1), (0, -1), (-1, 1), (2, 0)]


def fill(rng, x, truth, mods=MOD, noise=0.0, zero=0.0):
    k = 6 if x["avg"] else 1
    x["m"], x["v"] = [], []
    nb = len(x["ta"])
    for f in range(len(x["f"])):
        mr, vr = [], []
        for i in range(nb * x["nt"]):
            z = complex(*rng.choice(mods)) * k if rng.random() >= zero else 0j
            a, b = complex(*truth[f][x["ta"][i % nb] - 1]), complex(*truth[f][x["tb"][i % nb] - 1])
            d = z * a * b.conjugate()
            if noise and rng.random() < noise:
                d = d + k * complex(rng.randint(-1, 1), rng.randint(-1, 1))
            bad = x["w"][f][i] <= 0 or not (x["tu"][x["ta"][i % nb] - 1] and x["tu"][x["tb"][i % nb] - 1])
            if bad and rng.random() < 0.7:
                d = complex(rng.randint(-9, 9), 7 * k)
            mr.append([int(z.real), int(z.imag)])
            vr.append([int(d.real), int(d.imag)])
        x["m"].append(mr)
        x["v"].append(vr)


def step(rng):
    x = setup(rng)
    nf, ntile = len(x["f"]), len(x["tu"])
    truth = [[rng.choice(GAIN) for _ in range(ntile)] for _ in range(nf)]
    fill(rng, x, truth, noise=rng.choice([0, 0.4]), zero=rng.choice([0, 0, 0.3]))
    x["g"] = [[list(rng.choice(GAIN)) for _ in range(ntile)] for _ in range(nf)]
    x["undefined"] = rng.random() < 0.3
    out = solve(x, 1, adaptive=rng.random() < 0.5, noref=True)
    rec = dict(kind="step", x=part(x), ref=False, ok=out[0] == "ok", why=str(out)[:300])
    if rec["ok"]:
        g = out[1]["gain"][0]
        rec.update(q=ratio(g), cls=classify(g, x["g"]), why="")
    return rec


def fixed(rng):
    x = setup(rng)
    nf, ntile = len(x["f"]), len(x["tu"])
    truth = [[rng.choice(GAIN[:5]) for _ in range(ntile)] for _ in range(nf)]
    fill(rng, x, truth)
    if not usable(x):
        return None
    # the phase reference is the second tile, or the first one with equations
    nb = len(x["ta"])
    r = 1
    seen = set()
    y = dict(x)
    for f in range(nf):
        for i in range(nb):
            one = dict(y, ta=[x["ta"][i]], tb=[x["tb"][i]], u=[x["u"][i]], vv=[x["vv"][i]], f=[x["f"][f]], w=[[x["w"][f][t * nb + i] for t in range(x["nt"])]])
            if usable(one):
                seen |= {x["ta"][i] - 1, x["tb"][i] - 1}
    if r not in seen:
        r = min(seen)
    for f in range(nf):
        z = truth[f][r]
        truth[f][r] = (1, 0)
    fill(rng, x, truth)
    x["g"] = [[list(t) for t in f] for f in truth]
    mx, p = rng.choice([1, 2, 4, 5, 6, 7, 8, 9, 10, 12, 20, 30]), rng.choice([0, 0, 1, 2, 5])
    out = solve(x, mx, p, adaptive=rng.random() < 0.5)
    rec = dict(kind="fixed", x=part(x), ref=True, mx=mx, p=p, ok=out[0] == "ok", why=str(out)[:300])
    if rec["ok"]:
        c = out[1]
        g = c["gain"][0]
        rec.update(q=ratio(g), cls=classify(np.where(np.abs(g - cplx(x["g"])) < 1e-9, cplx(x["g"]), g), x["g"]), still=[[bool(abs(z) < 1e-9) for z in r] for r in c["convergence"][0]],
                   it=[[int(z) for z in r] for r in c["conv_iter"][0]], nconv=int(c["n_converged"][0]), why="")
    return rec


def recover(rng, thr=1e-7):
    x = setup(rng, ntile=rng.choice([8, 9]), edges=False, masks=False, nt=rng.choice([1, 2]), nf=rng.choice([1, 2, 3]))
    nf, ntile = len(x["f"]), len(x["tu"])
    if rng.random() < 0.6:
        x["tu"][rng.randrange(ntile)] = 0
    if rng.random() < 0.4:
        x["fu"][rng.randrange(nf)] = 0
    for f in range(nf):
        for i in rng.sample(range(len(x["w"][f])), rng.choice([0, 1, 2])):
            x["w"][f][i] = 0
    if not any(x["fu"]):
        x["fu"][0] = 1
    ref = 1 if x["tu"][1] else 0
    truth = [[cmath.rect(rng.uniform(0.8, 1.2), rng.uniform(-0.4, 0.4)) if t != ref else rng.uniform(0.8, 1.2) + 0j for t in range(ntile)] for _ in range(nf)]
    k = 6 if x["avg"] else 1
    nb = len(x["ta"])
    x["g"] = [[[1, 0]] * ntile for _ in range(nf)]
    x["m"] = [[[k * t for t in rng.choice([(1, 0), (0, 1), (1, 1), (1, -1)])] for _ in range(nb * x["nt"])] for _ in range(nf)]
    vals = []
    for f in range(nf):
        vals.append([complex(*x["m"][f][i]) * truth[f][x["ta"][i % nb] - 1] * truth[f][x["tb"][i % nb] - 1].conjugate() for i in range(nb * x["nt"])])
        for i in range(nb * x["nt"]):
            if x["w"][f][i] == 0:
                vals[f][i] = complex(40, -70)
    x["v"] = [[[z.real, z.imag] for z in f] for f in vals]
    mx = 100
    out = solve(x, mx, 0, thr, adaptive=rng.random() < 0.7)
    y = dict(part(x), v=[[[0, 0]] * (nb * x["nt"])] * nf)
    rec = dict(kind="recover", x=y, ref=True, mx=mx, p=0, ok=out[0] == "ok", why=str(out)[:300])
    if rec["ok"]:
        c = out[1]
        rec.update(mil=mil(c["gain"][0]), truth=mil(truth), cls=classify(c["gain"][0], x["g"]), it=[[int(z) for z in r] for r in c["conv_iter"][0]], nconv=int(c["n_converged"][0]), why="")
    return rec


def pick(x, fs=None, bs=None):
    """the same observation with only some channels / another order of baselines"""
    y = dict(x)
    nb = len(x["ta"])
    fs = range(len(x["f"])) if fs is None else fs
    bs = range(nb) if bs is None else bs
    rows = [t * nb + b for t in range(x["nt"]) for b in bs]
    for k in ("ta", "tb", "u", "vv"):
        y[k] = [x[k][b] for b in bs]
    for k in ("f", "fu", "g"):
        y[k] = [x[k][f] for f in fs]
    for k in ("v", "w", "m"):
        y[k] = [[x[k][f][r] for r in rows] for f in fs]
    return y


def same(rng):
    x = setup(rng, ntile=rng.choice([6, 7]), edges=rng.random() < 0.5)
    nf, ntile, nb = len(x["f"]), len(x["tu"]), len(x["ta"])
    truth = [[(rng.choice([1, 1, 2]), rng.choice([-1, 0, 1])) for _ in range(ntile)] for _ in range(nf)]
    fill(rng, x, truth, noise=0.3)
    x["g"] = [[list(rng.choice(GAIN)) for _ in range(ntile)] for _ in range(nf)]
    if not usable(x):
        return None
    what = rng.choice(["flagged", "channel", "pol", "rows", "split", "average"])
    mx = rng.choice([1, 2, 6, 12])
    kw = dict(adaptive=rng.random() < 0.5, noref=rng.random() < 0.4)
    if what in ("rows", "average"):
        # sums in another order: no ties, few iterations
        mx = rng.choice([1, 2, 3])
        x["g"] = [[[rng.uniform(0.5, 1.5), rng.uniform(-1, 1)] for _ in range(ntile)] for _ in range(nf)]
    b = None
    if what == "flagged":
        y = dict(x, v=[list(r) for r in x["v"]])
        for f in range(nf):
            for i in range(nb * x["nt"]):
                if not x["fu"][f] or x["w"][f][i] <= 0 or not x["tu"][x["ta"][i % nb] - 1] or not x["tu"][x["tb"][i % nb] - 1]:
                    y["v"][f][i] = [rng.choice([1e9, 0, -3]), rng.randint(-99, 99)]
        b = solve(y, mx, **kw)
    elif what == "channel":
        # every channel on its own, when the same tiles take part in every channel
        f = rng.randrange(nf)
        x.update(dim=64, el=64, omn=0, omx=99, cmn=0, cmx=0, tu=[1] * ntile)
        if not usable(pick(x, [f])) or not x["fu"][f]:
            return None
        base = set(t for i in range(nb) for t in (x["ta"][i], x["tb"][i]) if any(x["w"][f][t2 * nb + i] > 0 for t2 in range(x["nt"])))
        if len(base) < ntile:
            return None
        a = solve(x, mx, **kw)
        b = solve(pick(x, [f]), mx, **kw)
        ga = a[1]["gain"][0][f] if a[0] == "ok" else None
    elif what == "pol":
        y = dict(x)
        y["w"] = [[rng.choice([1, 1, 0]) for _ in r] for r in x["w"]]
        fill(rng, y, truth, noise=0.5)
        if not usable(y):
            return None
        both = solve(x, mx, pols=[(q["v"], q["w"], q["m"], q["g"]) for q in (x, y)], **kw)
        first, b = solve(x, mx, **kw), solve(y, mx, **kw)
        a = both
        if both[0] == "ok" and first[0] == "ok" and b[0] == "ok":
            return rec_same(what, np.array([both[1]["gain"], both[1]["convergence"], both[1]["conv_iter"]]).ravel(),
                            np.array([[first[1][k][0], b[1][k][0]] for k in ("gain", "convergence", "conv_iter")]).ravel(), x)
        return dict(kind="same", ok=False, what=what, x=part(x), why=str((both[0], first[0], b[0], both, b))[:400])
    elif what == "rows":
        order = list(range(nb))
        rng.shuffle(order)
        b = solve(pick(x, None, order), mx, **kw)
    elif what == "split":
        # up to three iterations are as many single iterations
        n = rng.choice([2, 3])
        kw["adaptive"] = False
        a = solve(x, n, **kw)
        v, m, w, obs, cal, par = inputs(x)
        from PyFHD.calibration.vis_calibrate_subroutine import vis_calibrate_subroutine

        start = cal["gain"].copy()
        for _ in range(n):
            b = call(vis_calibrate_subroutine, v, m, w, obs, cal, par, config(x, 1, 0, 1e-7, False), LOG, no_ref_tile=kw["noref"])
            if b[0] != "ok":
                break
            cal = dict(n_pol=1, gain=np.where(np.isnan(b[1]["gain"]), start, b[1]["gain"]), ref_antenna=1)
        ga = a[1]["gain"][0] if a[0] == "ok" else None
    else:
        # integrations with the same data: averaging is one integration
        x.update(w=[r[:nb] * x["nt"] for r in x["w"]], v=[r[:nb] * x["nt"] for r in x["v"]], m=[r[:nb] * x["nt"] for r in x["m"]], avg=True)
        if not usable(x):
            return None
        y = dict(x, nt=1, avg=False, w=[r[:nb] for r in x["w"]], v=[r[:nb] for r in x["v"]], m=[r[:nb] for r in x["m"]])
        b = solve(y, mx, **kw)
    if what in ("flagged", "rows", "average"):
        a = solve(x, mx, **kw)
        ga = a[1]["gain"][0] if a[0] == "ok" else None
    if a[0] != "ok" or b[0] != "ok":
        return dict(kind="same", ok=False, what=what, x=0, why=str((a if a[0] != "ok" else b))[:400])
    gb = b[1]["gain"][0]
    return rec_same(what, ga, gb[0] if what == "channel" else gb, x)


def end(rng, tries=None):
    """where the iterations of a channel end, from the changes they make one by one"""
    tries = rng.choice([0, 0, 25]) if tries is None else tries
    x = setup(rng, ntile=rng.choice([6, 7, 8]), edges=False, masks=False, nt=rng.choice([1, 2]), nf=rng.choice([1, 2]), avg=False)
    nf, ntile, n = len(x["f"]), len(x["tu"]), len(x["ta"]) * x["nt"]
    noise = rng.choice([0, 0.02, 0.3, 1, 3, 10])
    sparse = rng.choice([0, 0.6, 0.8, 0.9])
    truth = [[cmath.rect(rng.uniform(0.6, 1.6), rng.uniform(-1, 1)) for _ in range(ntile)] for _ in range(nf)]
    x["g"] = [[[rng.uniform(0.5, 1.5), rng.uniform(-0.5, 0.5)] for _ in range(ntile)] for _ in range(nf)]
    x["m"] = [[[rng.uniform(-2, 2), rng.uniform(-2, 2)] if rng.random() >= sparse else [0.01, 0] for _ in range(n)] for _ in range(nf)]
    x["v"] = []
    for f in range(nf):
        row = []
        for i in range(n):
            z = complex(*x["m"][f][i]) * truth[f][x["ta"][i % len(x["ta"])] - 1] * truth[f][x["tb"][i % len(x["ta"])] - 1].conjugate() + noise * complex(rng.gauss(0, 1), rng.gauss(0, 1))
            row.append([z.real, z.imag])
        x["v"].append(row)
    mx, p, thr = rng.choice([6, 9, 14, 22]), rng.choice([1, 2, 4]), rng.choice([1e-5, 1e-4, 1e-3, 1e-2, 0.05, 0.2, 0.5])
    kw = dict(adaptive=False, noref=rng.random() < 0.3)
    out = solve(x, mx, p, thr, **kw)
    if out[0] == "ok" and tries and (out[1]["conv_iter"][0].max() == mx - 1 or 0 < out[1]["convergence"][0].max() <= thr):
        return end(rng, tries - 1)
    rec = dict(kind="end", x=0, ok=out[0] == "ok", why=str(out)[:300])
    if not rec["ok"]:
        return rec
    # the same iterations one by one
    y, runs = dict(x), []
    for k in range(mx):
        r = solve(y, 1, 1 if k < p else 0, thr, **kw)
        if r[0] != "ok":
            return dict(rec, ok=False, why=str(r)[:300])
        runs.append((r[1]["gain"][0], r[1]["convergence"][0]))
        y = dict(y, g=[[[z.real, z.imag] for z in row] for row in r[1]["gain"][0]])
    g, it = out[1]["gain"][0], out[1]["conv_iter"][0]
    big = lambda z: int(round(min(z, 60.0) * 1e7)) if z == z else 10**9
    chans = [dict(h=dict(s=[big(np.max(c[f])) for _, c in runs], l=[big(np.mean(c[f])) for _, c in runs], P=p, thr=int(round(thr * 1e7)), mx=mx), it=[int(z) for z in it[f]],
                  match=[k + 1 for k in range(mx) if np.allclose(runs[k][0][f], g[f], rtol=0, atol=1e-9)]) for f in range(nf)]
    rec.update(chans=chans, nconv=int(out[1]["n_converged"][0]), why="")
    return rec


def rec_same(what, a, b, x):
    return dict(kind="same", ok=True, what=what, a=tagged(a), b=tagged(b), x=dict(ta=x["ta"], tb=x["tb"], nt=x["nt"], tu=x["tu"], fu=x["fu"], avg=x["avg"]), why="")


def sky(rng):
    """the whole calibration: data that are model times gains become the model"""
    from PyFHD.calibration.calibrate import calibrate

    nf, ntile, nt = rng.choice([2, 4]), rng.choice([8, 9]), rng.choice([1, 2])
    npol = rng.choice([1, 2, 2])
    base = [(a, b) for a in range(1, ntile + 1) for b in range(a + 1, ntile + 1)]
    nb = len(base)
    tu = [1] * ntile
    if rng.random() < 0.5:
        tu[rng.randrange(2, ntile)] = 0
    ta, tb = np.array([a for a, b in base] * nt), np.array([b for a, b in base] * nt)
    G = np.array([[[cmath.rect(rng.uniform(0.85, 1.15), rng.uniform(-0.3, 0.3)) for _ in range(ntile)] for _ in range(nf)] for _ in range(npol)])
    M = np.array([[[complex(*rng.choice([(1, 0), (0, 1), (1, 1), (1, -1)])) for _ in range(nb * nt)] for _ in range(nf)] for _ in range(npol)])
    D = M * G[:, :, ta - 1] * np.conj(G[:, :, tb - 1])
    W = np.ones(D.shape)
    bad = [i for i in range(nb * nt) if not (tu[ta[i] - 1] and tu[tb[i] - 1])]
    for i in bad:
        D[:, :, i] = complex(30, 7)
        W[:, :, i] = 0
    k = 1.0
    obs = dict(min_baseline=0.0, max_baseline=99.0, dimension=64, elements=64, n_freq=nf, n_tile=ntile, n_time=nt, n_baselines=nb, n_pol=npol, kpix=k, pol_names=["XX", "YY"],
               baseline_info=dict(tile_a=ta, tile_b=tb, freq=np.array([1.0 + 0.01 * i for i in range(nf)]), tile_use=np.array(tu, float), freq_use=np.ones(nf), time_use=np.ones(nt),
                                  tile_names=np.array(["T%d" % i for i in range(ntile)]), bin_offset=np.arange(nt) * nb))
    cfg = config(dict(avg=False, cmn=0, cmx=0), 100)
    full = dict(cfg, cal_gain_init=1, calibration_plots=False)
    full.update(calibration_auto_initialize=False, auto_ratio_calibration=False, bandpass_calibrate=False, calibration_polyfit=False, calibration_auto_fit=False,
                calibration_flag_iterate=0, calibration_catalog_file_path="x", vis_baseline_hist=False, flag_calibration=False, return_cal_visibilities=True, cal_stop=False)
    par = dict(uu=np.array([float(a - b) for a, b in base] * nt), vv=np.array([float((a * b) % 7) for a, b in base] * nt))
    out = call(calibrate, obs, par, D.copy(), W.copy(), M.copy(), full, LOG, timeout=60)
    rec = dict(kind="sky", ok=out[0] == "ok", why=str(out)[:400], size=[npol, nf, ntile, nt])
    if rec["ok"]:
        V = np.asarray(out[1][0])
        good = [i for i in range(nb * nt) if i not in bad]
        rec.update(got=[[int(round(1000 * z.real)), int(round(1000 * z.imag))] if cmath.isfinite(complex(z)) and abs(z) < 1e5 else [10**6, 0] for z in V[:, :, good].ravel()],
                   want=[[int(round(1000 * z.real)), int(round(1000 * z.imag))] for z in M[:, :, good].ravel()], why="")
    return rec


def adaptive(ctx):
    """histories of the weight of the next solution"""
    from PyFHD.calibration.calibration_utils import calculate_adaptive_gain

    res = tlc.run(ctx, "Adaptive", constants=dict(Convs="{<<1, 1>>, <<1, 2>>, <<1, 8>>}" if not ctx.thorough else "{<<1, 1>>, <<1, 2>>, <<1, 8>>, <<3, 4>>}", Bases="{<<1, 1>>, <<1, 2>>}", MaxIter=5 if not ctx.thorough else 6,
                                                  Estimates='{"zero", "median"}'), invariants=["Bounded", "Emit"])
    ctx.count("adaptive_histories", len(res.cases))
    cases = res.cases if len(res.cases) < 4000 else ctx.rng.sample(res.cases, 4000)
    for c in cases:
        ctx.replayed()
        n = len(c["gains"])
        base = c["base"][0] / c["base"][1]
        gl, cl, got = np.zeros(n), np.array([q[0] / q[1] for q in c["convs"]]), []
        kw = dict(final_convergence_estimate=0) if c["est"] == "zero" else {}
        for i in range(n):
            seen = cl.copy()
            seen[i:] = 0
            out = call(calculate_adaptive_gain, gl, seen, i, base, **kw)
            got.append(float(out[1]) if out[0] == "ok" else None)
        want = [q[0] / q[1] for q in c["gains"]]
        if any(g is None or abs(g - w) > 1e-9 for g, w in zip(got, want)) or [float(g) for g in gl] != got:
            ctx.violation("replay:adaptive", "weights %s instead of %s for convergence %s, base %s, %s" % (got, want, c["convs"], base, c["est"]), c)


def run(ctx):
    rng = ctx.rng
    adaptive(ctx)
    if not ctx.thorough:
        consts = dict(Truths="{<<<<1,0>>,<<1,0>>,<<1,0>>>>, <<<<0,1>>,<<1,0>>,<<2,0>>>>, <<<<1,1>>,<<1,0>>,<<0,-1>>>>}",
                      Starts="{<<<<1,0>>,<<1,0>>,<<1,0>>>>, <<<<0,1>>,<<1,0>>,<<2,0>>>>, <<<<1,-1>>,<<2,0>>,<<0,1>>>>}",
                      Models="{<<<<1,0>>,<<0,1>>,<<1,1>>,<<-1,0>>,<<1,0>>>>, <<<<1,0>>,<<1,0>>,<<0,0>>,<<2,1>>,<<1,0>>>>}",
                      Weights="{<<1,1,1,1,1,1,1,1,1>>, <<1,0,1,1,1,1,1,0,1>>, <<2,1,0,0,1,-1,1,1,1>>, <<1,1,1,1,1,0,1,1,0>>, <<0,0,1,0,0,1,0,0,1>>, <<0,0,0,0,0,0,0,0,0>>}",
                      Masks="{<<1,1,1>>, <<1,1,0>>, <<0,1,1>>}", Avgs="{TRUE, FALSE}", Noises="{<<7,-5>>}")
    else:
        consts = dict(Truths="{<<<<1,0>>,<<1,0>>,<<1,0>>>>, <<<<0,1>>,<<1,0>>,<<2,0>>>>, <<<<1,1>>,<<1,0>>,<<0,-1>>>>, <<<<-1,0>>,<<1,0>>,<<1,-1>>>>, <<<<2,0>>,<<1,0>>,<<0,1>>>>}",
                      Starts="{<<<<1,0>>,<<1,0>>,<<1,0>>>>, <<<<0,1>>,<<1,0>>,<<2,0>>>>, <<<<1,-1>>,<<2,0>>,<<0,1>>>>, <<<<1,1>>,<<1,0>>,<<0,-1>>>>, <<<<2,0>>,<<0,2>>,<<2,0>>>>}",
                      Models="{<<<<1,0>>,<<0,1>>,<<1,1>>,<<-1,0>>,<<1,0>>>>, <<<<1,0>>,<<1,0>>,<<0,0>>,<<2,1>>,<<1,0>>>>, <<<<0,1>>,<<1,0>>,<<2,0>>,<<0,1>>,<<1,-1>>>>}",
                      Weights="{<<1,1,1,1,1,1,1,1,1>>, <<1,0,1,1,1,1,1,0,1>>, <<2,1,0,0,1,-1,1,1,1>>, <<1,1,1,1,1,0,1,1,0>>, <<0,0,1,0,0,1,0,0,1>>, <<0,0,0,0,0,0,0,0,0>>, <<1,1,1,0,0,0,1,1,1>>, <<1,1,0,1,0,1,0,1,1>>, <<1,1,1,1,1,1,0,0,0>>}",
                      Masks="{<<1,1,1>>, <<1,1,0>>, <<0,1,1>>, <<1,0,1>>, <<1,0,0>>}", Avgs="{TRUE, FALSE}", Noises="{<<7,-5>>, <<-3,0>>}")
    res = tlc.run(ctx, "Solver", constants=consts, invariants=["Collected", "FixedPoint", "Deaf", "Phase", "Emit"])
    ctx.count("spec_behaviours", len(res.cases))
    keys = {}
    for c in res.cases:
        keys[str(c["x"])] = c
    cases = list(keys.values())
    for c in cases if len(cases) < 3000 else rng.sample(cases, 3000):
        x = dict(c["x"])
        ctx.replayed()
        out = solve(x, 1, noref=True)
        if out[0] != "ok":
            ctx.violation("replay:solver", "%s on %s" % (out, x), c)
            continue
        g = out[1]["gain"][0][0]
        for t in range(3):
            k, z = c["cls"][t], complex(g[t])
            want = {"flagged": [[0, 0], [0, 0]], "zero": [[0, 1], [0, 1]], "start": [[v, 1] for v in x["g"][0][t]], "solved": c["step"][t]}[k]
            if k == "solved" and c["edge"][t]:
                continue
            got = [rat(z.real, 60000), rat(z.imag, 60000)] if not cmath.isnan(z) else [[0, 0], [0, 0]]
            if got != want:
                ctx.violation("replay:solver", "tile %d (%s): %s instead of %s for %s" % (t + 1, k, got, want, x), c)
    if cases:
        ctx.sample(cases[len(cases) // 2])
    recs = []
    for fn, n in ((step, ctx.n(250, 2500)), (fixed, ctx.n(200, 2000)), (recover, ctx.n(25, 300)), (end, ctx.n(350, 3000)), (same, ctx.n(200, 2000)), (sky, ctx.n(12, 120))):
        for _ in range(n):
            r = fn(rng)
            if r:
                recs.append(r)
    for i, v in sorted(tlc.judge(ctx, "SolverOps", "JVerdict", recs).items()):
        for cl in v:
            ctx.violation("judge:%s" % cl, "%s: %s %s" % (cl, recs[i]["why"], str(recs[i])[:1500]), recs[i])
    ctx.sample({k: recs[0][k] for k in recs[0] if k != "x"})
    ctx.count("judged_records", len(recs))
    for c in (c for r in recs if r["kind"] == "end" and r["ok"] for c in r["chans"]):
        n = max(c["it"]) + 1
        ctx.count("ends_at_limit" if n == c["h"]["mx"] else "ends_earlier", 1)
    ctx.assumptions = ["one iteration is decided in exact arithmetic on Gaussian integers; convergence to gains that are not a fixed point is decided for well-conditioned arrays of at least eight tiles",
                       "the soft taper of baselines (calibration_weights) cannot be reached from a configuration and is not covered"]
