"""P15 applying the calibration."""
import cmath
import math

import numpy as np

from .. import tlc
from ..core import call, rat
from ..grid import LOG

C = lambda z: [int(z[0]), int(z[1])]


def gains(g):
    return np.array([[[complex(*t[:2]) if t[2] else complex(np.nan, np.nan) for t in f] for f in q] for q in g])


def cplx(v):
    return np.array([[[complex(*t) for t in f] for f in p] for p in v])


def real(x, exact, store=None):
    from PyFHD.calibration.calibration_utils import vis_calibration_apply

    v = cplx(x["v"])
    g = gains(x["g"])
    ta, tb = np.array(x["ta"]), np.array(x["tb"])
    nt = x["nt"]
    obs = dict(n_freq=v.shape[1], n_pol=v.shape[0], n_tile=g.shape[2], n_time=nt, n_baselines=len(ta) // nt, baseline_info=dict(tile_a=ta, tile_b=tb))
    cal = dict(gain=g.copy(), n_pol=g.shape[0])
    m = cplx(x["m"]) if x.get("m") is not None else None
    w = np.array(x["w"], float) if x.get("w") is not None else None
    out = call(vis_calibration_apply, v.copy(), obs, cal, m, w, LOG)
    rec = dict(kind="apply", x={k: x[k] for k in x if x[k] is not None}, ok=False, exact=exact and m is not None, res=[], cross=[0, 0], kept=False)
    if out[0] != "ok":
        return dict(rec, why=str(out))
    r = np.asarray(out[1][0])
    if r.shape != v.shape:
        return dict(rec, why="shape %s" % (r.shape,))
    rec.update(ok=True, res=[[[[rat(t.real), rat(t.imag)] for t in f] for f in p] for p in r],
               kept=bool(np.array_equal(np.asarray(out[1][1]["gain"]), g, equal_nan=True)))
    if rec["exact"] and v.shape[0] == 4:
        a = float(out[1][1].get("cross_phase", float("nan")))
        rec["cross"] = [int(round(1000 * math.cos(a))), int(round(1000 * math.sin(a)))] if a == a else [0, 0]
    return rec


def mix(rng):
    from PyFHD.calibration.calibrate import calibrate_qu_mixing

    nt, nb, nf = rng.choice([1, 2, 3]), rng.choice([3, 5]), rng.choice([1, 2, 4])
    n = nt * nb
    w = np.array([[[rng.choice([1, 1, 1, 0, -1, 2]) for _ in range(n)] for _ in range(nf)]] * 4, float)
    dirs = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)]

    def arr(s):
        u = np.array([[complex(rng.randint(-9, 9), rng.randint(-9, 9)) for _ in range(n)] for _ in range(nf)])
        q = u * complex(*s)
        xx = np.array([[complex(rng.randint(-9, 9), rng.randint(-9, 9)) for _ in range(n)] for _ in range(nf)])
        xy = np.array([[complex(rng.randint(-9, 9), rng.randint(-9, 9)) for _ in range(n)] for _ in range(nf)])
        return np.array([xx, xx + q, xy, u - xy])

    sd, sm = rng.choice(dirs), rng.choice(dirs)
    d, m = arr(sd), arr(sm)
    # the fit needs samples that are not all the same
    cw = np.clip(w[0], 0, 1).reshape(nf, nt, nb)
    for z in (d, m):
        u = ((z[2] + z[3]).reshape(nf, nt, nb) * cw).sum(axis=1)[cw.sum(axis=1) > 0]
        if np.unique(np.round(u, 6)).size < 3:
            return None
    obs = dict(n_freq=nf, n_time=nt, n_baselines=nb, n_pol=4)
    keep = (d.copy(), m.copy(), w.copy())
    out = call(calibrate_qu_mixing, d, m, w, obs)
    rec = dict(kind="mix", ok=out[0] == "ok", sd=list(sd), sm=list(sm), turn=-1, why=str(out)[:200], size=[nt, nb, nf])
    if rec["ok"]:
        t = float(out[1]) * 4 / math.pi
        rec["turn"] = int(round(t)) % 8 if abs(t - round(t)) < 1e-6 else -1
        if not all(np.array_equal(a, b) for a, b in zip(keep, (d, m, w))):
            rec.update(ok=False, why="the arguments were changed")
    return rec


def run(ctx):
    rng = ctx.rng
    G = "{<<1, 0, 1>>, <<0, 1, 1>>, <<1, 1, 1>>, <<0, 0, 1>>, <<0, 0, 0>>}"
    res = tlc.run(ctx, "Cal", constants=dict(GX=G, GY="{<<1, 0, 1>>, <<-2, 0, 1>>, <<1, -1, 1>>}" if not ctx.thorough else G, Skies="{<<8, -16>>, <<24, 8>>}",
                                             Seconds="{<<1, 0, 1>>, <<0, -1, 1>>, <<1, 1, 1>>}"),
                  invariants=["RoundTrip", "UnitGains", "Degenerate", "Compose", "Reversed", "Emit"])
    seen = {}
    for c in res.cases:
        seen[str(c["g"]) + str(c["sky"])] = c
    cases = list(seen.values())
    ctx.count("spec_behaviours", len(cases))
    # the sky corrupted with the gains in floating point, then calibrated by the code
    for c in cases if len(cases) < 1500 else rng.sample(cases, 1500):
        ctx.replayed()
        f1, f2 = [0, 1, 0, 1], [0, 1, 1, 0]
        v = [[[None] * 4] for _ in range(4)]
        for p in range(4):
            for r in range(4):
                a, b = c["g"][f1[p]][0][c["ta"][r] - 1], c["g"][f2[p]][0][c["tb"][r] - 1]
                z = complex(*a[:2]) * complex(*b[:2]).conjugate()
                v[p][0][r] = [7, -3] if not (a[2] and b[2] and z) else [int((complex(*c["sky"][p][0][r]) * z).real), int((complex(*c["sky"][p][0][r]) * z).imag)]
        got = real(dict(ta=c["ta"], tb=c["tb"], g=c["g"], v=v, nt=1), False)
        want = [[[[[t[0], 1], [t[1], 1]] for t in f] for f in p] for p in c["out"]]
        if not got["ok"] or got["res"] != want or not got["kept"]:
            ctx.violation("replay:round-trip", "gains %s: calibrated %s instead of %s %s" % (c["g"], got["res"], want, got.get("why", "")), c)
    ctx.sample(cases[len(cases) // 2])
    recs = []
    units = [(1, 0, 1), (-1, 0, 1), (0, 1, 1), (0, -1, 1)]
    more = units + [(1, 1, 1), (2, 0, 1), (1, -2, 1), (3, 1, 1), (-2, 1, 1)]
    for _ in range(ctx.n(500, 6000)):
        npol, nf, nt, ntile = rng.choice([1, 2, 4, 4]), rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([2, 3, 5])
        pairs = [(a, b) for a in range(1, ntile + 1) for b in range(a, ntile + 1)]
        base = [rng.choice(pairs)[::rng.choice([1, 1, 1, -1])] for _i in range(rng.choice([1, 3, 5]))]
        ta, tb = [a for a, b in base] * nt, [b for a, b in base] * nt
        exact = rng.random() < 0.5
        pool = units if exact else more
        g = [[[list(rng.choice(pool)) if rng.random() < 0.88 else rng.choice([[0, 0, 1], [0, 0, 0]]) for _t in range(ntile)] for _f in range(nf)] for _p in range(2 if npol > 1 else 1)]
        val = lambda: [[[[rng.randint(-9, 9), rng.randint(-9, 9)] for _r in ta] for _f in range(nf)] for _p in range(npol)]
        x = dict(ta=ta, tb=tb, g=g, v=val(), nt=nt, m=val() if rng.random() < 0.9 else None, w=None)
        if x["m"] is not None:
            x["w"] = [[[rng.choice([1, 1, 1, 0, -1, 2]) for _r in ta] for _f in range(nf)] for _p in range(npol)]
            if not any(t > 0 for f in x["w"][0] for t in f):
                x["w"][0][0][0] = 1
        recs.append(real(x, exact))
    mixes = [m for m in (mix(rng) for _ in range(ctx.n(200, 2000))) if m]
    recs += mixes
    for i, v in sorted(tlc.judge(ctx, "CalOps", "AVerdict", recs).items()):
        for cl in v:
            ctx.violation("judge:%s" % cl, "%s: %s" % (cl, str(recs[i])[:1500]), recs[i])
    ctx.sample(recs[0]["x"])
    ctx.count("judged_records", len(recs))
    ctx.assumptions = ["gains and samples are small Gaussian integers, so that quotients are small rationals", "the visibilities themselves are finite numbers"]
