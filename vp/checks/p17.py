"""P17 gain factorisations."""
import cmath
import math

import numpy as np

from .. import tlc
from ..core import call, rat
from ..grid import LOG

CU = "PyFHD.calibration.calibration_utils"
UNITS = [1, -1, 1j, -1j]


def mod():
    import importlib

    return importlib.import_module(CU)


def R(v):
    v = np.asarray(v)
    return [R(t) for t in v] if v.ndim else rat(float(v), 60000)


def RC(v):
    v = np.asarray(v)
    return [RC(t) for t in v] if v.ndim else [rat(float(v.real), 60000), rat(float(v.imag), 60000)]


def pairs(v, s=1000):
    return [[int(round(s * z.real)), int(round(s * z.imag))] if cmath.isfinite(complex(z)) and abs(z) < 1e5 else [10**8, 10**8] for z in np.asarray(v).ravel()]


def shaped(v, s=1000):
    v = np.asarray(v)
    return [shaped(t, s) for t in v] if v.ndim > 1 else pairs(v, s)


def rec0(kind, out, x, **kw):
    return dict(kind=kind, ok=out[0] == "ok", why="" if out[0] == "ok" else str(out)[:300], x=x, kept=True, **kw)


# ---- auto-correlations ----
def auto(rng):
    npol, nf, nt, ntile = rng.choice([1, 2, 4]), rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([2, 3, 4])
    who = [t for t in range(1, ntile + 1) if rng.random() < 0.8] if rng.random() < 0.85 else []
    base = [(a, b) for a in range(1, ntile + 1) for b in range(a, ntile + 1) if a != b or a in who]
    if rng.random() < 0.5:
        rng.shuffle(base)
    avg = rng.random() < 0.6
    tu = [rng.choice([1, 1, 0]) for _ in range(nt)]
    if not any(tu):
        tu[rng.randrange(nt)] = 1
    ta, tb = [a for a, b in base] * nt, [b for a, b in base] * nt
    v = [[[6 * rng.randint(-9, 9) for _ in ta] for _ in range(nf)] for _ in range(npol)]
    arr = np.array(v) + 1j * np.array([[[rng.randint(-9, 9) for _ in ta] for _ in range(nf)] for _ in range(npol)])
    obs = dict(n_pol=npol, n_freq=nf, n_tile=ntile, n_time=nt, baseline_info=dict(tile_a=np.array(ta), tile_b=np.array(tb), time_use=np.array(tu)))
    keep = arr.copy()
    out = call(mod().vis_extract_autocorr, obs, arr, dict(cal_time_average=avg))
    r = rec0("auto", out, dict(ta=ta, tb=tb, nt=nt, v=v, tu=tu, avg=avg))
    if r["ok"]:
        a, t = out[1]
        r.update(tiles=[int(i) + 1 for i in t], val=R(a) if np.size(t) else [], kept=bool(np.array_equal(keep, arr)))
        if np.size(t) and np.shape(a) != (npol, nf, np.size(t)):
            r.update(ok=False, why="shape %s" % (np.shape(a),))
    return r


def entries(rng, ntile, full=False):
    """the tiles of the auto-correlation entries: one per time, in order of time"""
    who = [t for t in range(1, ntile + 1) if full or rng.random() < 0.8] or [1]
    if rng.random() < 0.3:
        rng.shuffle(who)
    return who * rng.choice([1, 1, 2, 3])


def squares(rng, npol, nf, n, pool=(1, 2, 3, 4, 6)):
    return [[[rng.choice(pool) for _ in range(n)] for _ in range(nf)] for _ in range(npol)]


def ratio(rng):
    npol, nf, ntile = rng.choice([1, 2]), rng.choice([1, 2, 4]), rng.choice([2, 3, 4])
    ti = entries(rng, ntile)
    root = squares(rng, npol, nf, len(ti))
    g = [[[[rng.randint(-4, 4), rng.randint(-4, 4)] for _ in range(ntile)] for _ in range(nf)] for _ in range(npol)]
    ref = rng.choice([1, 2, 2])
    G = np.array([[[complex(*z) for z in f] for f in p] for p in g])
    cal = dict(n_pol=npol, gain=G.copy(), ref_antenna=ref - 1)
    obs = dict(n_freq=nf, n_tile=ntile, n_pol=npol)
    autos = np.array(root, float) ** 2
    m = mod()
    out = call(m.cal_auto_ratio_divide, obs, cal, autos.copy(), np.array(ti) - 1)
    r = rec0("ratio", out, dict(root=root, ti=ti, ref=ref, g=g))
    if r["ok"]:
        c, q = out[1]
        r.update(ratio=R(q), div=RC(c["gain"]))
        out = call(m.cal_auto_ratio_remultiply, dict(c, gain=np.array(c["gain"]).copy()), np.array(q).copy(), np.array(ti) - 1)
        if out[0] != "ok":
            return rec0("ratio", out, r["x"])
        r["back"] = RC(out[1]["gain"])
    return r


def init(rng):
    npol, nf, ntile = rng.choice([1, 2]), rng.choice([1, 2, 3]), rng.choice([2, 3])
    ti = entries(rng, ntile)
    root, mroot = squares(rng, npol, nf, len(ti), (1, 2, 3)), squares(rng, npol, nf, len(ti), (1, 2))
    s = [rng.choice([1, 2, 3]) for _ in range(npol)]
    fu = [rng.choice([1, 1, 0]) for _ in range(nf)]
    if not any(fu):
        fu[0] = 1
    n = rng.choice([3, 5])
    m = np.array([[[rng.choice(UNITS) * (1 if fu[f] else rng.choice([0, 9])) for _ in range(n)] for f in range(nf)] for _ in range(npol)])
    d = np.array([[[rng.choice(UNITS) * s[p] ** 2 * (1 if fu[f] else rng.choice([0, 7])) for _ in range(n)] for f in range(nf)] for p in range(npol)])
    obs = dict(n_freq=nf, n_tile=ntile, n_pol=npol, baseline_info=dict(freq_use=np.array(fu)))
    out = call(mod().vis_cal_auto_init, obs, dict(n_pol=npol), d, m, np.array(root, float) ** 2, np.array(mroot, float) ** 2, np.array(ti) - 1)
    r = rec0("init", out, dict(root=root, mroot=mroot, ti=ti, s=s, ntile=ntile))
    if r["ok"]:
        g = np.asarray(out[1])
        r["val"] = R(np.where(np.abs(g.imag) < 1e-12, g.real, 1e8))
    return r


# ---- bandpass ----
CFG = dict(cal_bp_transfer=None, cable_bandpass_fit=False, auto_ratio_calibration=False, instrument="mwa", cal_reflection_mode_theory=0, cal_reflection_mode_file=False,
           cal_reflection_mode_delay=False, cal_reflection_hyperresolve=False, cal_amp_degree_fit=2, cal_phase_degree_fit=1, digital_gain_jump_polyfit=False)


def cables():
    import PyFHD

    import os

    t = np.loadtxt(os.path.join(os.path.dirname(PyFHD.__file__), "templates", "mwa_cable_reflection_coefficients.txt"), skiprows=1)
    return t


def masks(rng, nf, ntile, least=3, leastt=1):
    fu = [rng.choice([1, 1, 1, 0]) for _ in range(nf)]
    while sum(fu) < least:
        fu[rng.randrange(nf)] = 1
    tu = [rng.choice([1, 1, 1, 0]) for _ in range(ntile)]
    while sum(tu) < leastt:
        tu[rng.randrange(ntile)] = 1
    return fu, tu


def spoil(rng, G, fu, tu):
    """flagged tiles and channels have anything"""
    G = np.array(G, complex)
    for t in range(len(tu)):
        if not tu[t]:
            G[:, :, t] = complex(np.nan, np.nan) if rng.random() < 0.6 else complex(rng.randint(-9, 9), 5)
    for f in range(len(fu)):
        if not fu[f]:
            G[:, f, :] = rng.choice([0, 99, 1j, 1000])
    return G


def band(rng, cable=False, chain=False):
    npol = rng.choice([1, 2])
    nf = rng.choice([4, 5]) if cable else rng.choice([3, 4, 5, 6, 7])
    table = cables() if cable else None
    ntile = len(table) if cable else rng.choice([3, 4, 5, 7])
    fu, tu = masks(rng, nf, ntile, 3, 3)
    lens = sorted(set(table[:, 2])) if cable else [0]
    grp = [lens.index(t[2]) + 1 for t in table] if cable else [1] * ntile
    gone = cable and rng.random() < 0.3
    if gone:
        k = rng.randint(1, len(lens))
        tu = [0 if g == k else u for g, u in zip(grp, tu)]
    auto_ratio = cable and rng.random() < 0.3
    glob = bool(not cable or auto_ratio or gone)
    b = [[[rng.randint(1, 6) for _ in range(nf)] for _ in lens] for _ in range(npol)]
    if glob:
        b = [[p[0]] * len(lens) for p in b]
    a = [[rng.choice([0.5, 1.0, 2.0, 4.0]) * rng.choice(UNITS) for _ in range(ntile)] for _ in range(npol)]
    G = np.array([[[b[p][grp[t] - 1][f] * a[p][t] for t in range(ntile)] for f in range(nf)] for p in range(npol)])
    odd = []
    if not cable:
        good = [t for t in range(ntile) if tu[t]]
        odd = rng.sample(good, rng.randint(0, (len(good) - 1) // 2)) if rng.random() < 0.5 else []
        for t in odd:
            G[:, :, t] = np.array([[rng.randint(1, 9) * rng.choice(UNITS) for _ in range(nf)] for _ in range(npol)])
    if chain:
        G = np.array([[[complex(rng.randint(1, 9), rng.randint(-9, 9)) for _ in range(ntile)] for _ in range(nf)] for _ in range(npol)])
    G = spoil(rng, G, fu, tu)
    obs = dict(n_freq=nf, n_tile=ntile, n_pol=npol, baseline_info=dict(freq_use=np.array(fu), tile_use=np.array(tu), freq=1e8 + 1e5 * np.arange(nf)))
    cal = dict(n_pol=npol, gain=G.copy())
    cfg = dict(CFG, cable_bandpass_fit=cable, auto_ratio_calibration=auto_ratio)
    out = call(mod().vis_cal_bandpass, obs, cal, cfg, LOG)
    r = rec0("chain" if chain else "band", out, dict(b=b, grp=grp, fu=fu, tu=tu, **{"global": glob}), odd=odd)
    if r["ok"]:
        B, Q = np.asarray(out[1][0]["gain"]), np.asarray(out[1][1]["gain"])
        with np.errstate(all="ignore"):
            r.update(prod=shaped(B * Q), gain=shaped(G), kept=bool(np.array_equal(cal["gain"], G, equal_nan=True)))
        if not chain:
            r["band"] = R(np.where(np.abs(B.imag) < 1e-12, B.real, 1e8))
    return r


def deaf(rng):
    """flagged tiles and channels change nothing for the others; another order or scale of the tiles does not matter"""
    npol, nf, ntile = rng.choice([1, 2]), rng.choice([5, 6, 8]), rng.choice([4, 5, 6])
    fu, tu = masks(rng, nf, ntile, 4, 3)
    G = np.array([[[cmath.rect(rng.uniform(0.5, 2), rng.uniform(-3, 3)) for _ in range(ntile)] for _ in range(nf)] for _ in range(npol)])
    what = rng.choice(["band", "poly", "order"])
    good = [t for t in range(ntile) if tu[t]]

    def one(g, tu=tu):
        obs = dict(n_freq=nf, n_tile=ntile, n_pol=npol, baseline_info=dict(freq_use=np.array(fu), tile_use=np.array(tu), freq=1e8 + 1e5 * np.arange(nf)))
        cal = dict(n_pol=npol, gain=g.copy())
        if what == "poly":
            o = call(mod().vis_cal_polyfit, obs, cal, None, dict(CFG), LOG)
            return o, (np.asarray(o[1]["gain"]) if o[0] == "ok" else None)
        o = call(mod().vis_cal_bandpass, obs, cal, dict(CFG), LOG)
        return o, (np.asarray(o[1][0]["gain"]) if o[0] == "ok" else None)

    if what == "order":
        order = list(range(ntile))
        rng.shuffle(order)
        o1, a = one(G)
        o2, b = one(G[:, :, order] * np.array([rng.choice([1, 2, -2, 1j]) for _ in order]), [tu[i] for i in order])
        if b is not None:
            b = b[:, :, np.argsort(order)]
    else:
        o1, a = one(spoil(rng, G, fu, tu))
        o2, b = one(spoil(rng, G, fu, tu))
    bad = o1 if o1[0] != "ok" else o2
    r = rec0("same", bad, dict(fu=fu, tu=tu, what=what))
    if r["ok"]:
        r.update(a=pairs(a[:, :, good], 10**5), b=pairs(b[:, :, good], 10**5))
        if what == "order":
            # a tie between two tiles may be broken by rounding: nothing to compare then
            pass
    return r


def poly(rng):
    npol, nf, ntile = rng.choice([1, 2]), rng.choice([6, 8, 9]), rng.choice([1, 2, 4])
    fu, tu = masks(rng, nf, ntile, 5)
    deg, pdeg = rng.choice([1, 2, 2, 3]), rng.choice([1, 1, 2])
    jump = rng.random() < 0.5
    at = rng.choice([0, 1, nf // 2, nf // 2, nf // 2, nf - 1, nf])
    khz = [187515 - 40 * (at - f) - rng.choice([1, 40]) if f < at else 187515 + 40 * (f - at) for f in range(nf)]
    use = [f for f in range(nf) if fu[f]]
    lo, hi = [f for f in use if khz[f] < 187515], [f for f in use if khz[f] >= 187515]
    split = jump and lo and hi
    if split and (len(lo) < deg or len(hi) < deg):
        return None

    def coef(n, lowest, zero=False):
        for _ in range(200):
            c = [rng.randint(1, 9)] + [rng.choice([0, 0, 1, -1, 2]) for _ in range(n)]
            if all(sum(k * f**i for i, k in enumerate(c)) >= lowest for f in range(nf)):
                return c
        return [3] + [0] * n

    def phase():
        for _ in range(300):
            c = [rng.randint(-20, 20), rng.randint(-9, 9)] + ([rng.randint(-2, 2)] if pdeg == 2 else [])
            v = [sum(k * f**i for i, k in enumerate(c)) / 8 for f in use]
            if abs(v[0]) < 3.1 and all(abs(q - p) < 3.0 for p, q in zip(v, v[1:])):
                return c
        return [5, 1] + ([0] if pdeg == 2 else [])

    n = deg - 1 if split else deg
    a = [[coef(n, 1) for _ in range(ntile)] for _ in range(npol)]
    a2 = [[coef(n, 1) for _ in range(ntile)] for _ in range(npol)]
    ph = [[phase() for _ in range(ntile)] for _ in range(npol)]
    ev = lambda c, f: sum(k * f**i for i, k in enumerate(c))
    amp = lambda p, t, f: ev(a2[p][t], f) if split and khz[f] >= 187515 else ev(a[p][t], f)
    G = np.array([[[cmath.rect(amp(p, t, f), ev(ph[p][t], f) / 8) for t in range(ntile)] for f in range(nf)] for p in range(npol)])
    S = spoil(rng, G, fu, tu)
    obs = dict(n_freq=nf, n_tile=ntile, n_pol=npol, baseline_info=dict(freq_use=np.array(fu), tile_use=np.array(tu), freq=1000.0 * np.array(khz)))
    out = call(mod().vis_cal_polyfit, obs, dict(n_pol=npol, gain=S), None, dict(CFG, cal_amp_degree_fit=deg, cal_phase_degree_fit=pdeg, digital_gain_jump_polyfit=jump), LOG)
    r = rec0("poly", out, dict(a=a, a2=a2, ph=ph, fu=fu, tu=tu, khz=khz, jump=jump, deg=deg, pdeg=pdeg))
    if r["ok"]:
        c = out[1]
        turn = np.array([[[cmath.rect(1, -ev(ph[p][t], f) / 8) for t in range(ntile)] for f in range(nf)] for p in range(npol)])
        z = np.asarray(c["gain"]) * turn
        z = np.where(np.abs(z.imag) < 1e-6, z.real, 1e8)
        q = np.round(z, 5)
        ap, pp = np.asarray(c["amp_params"]), 8 * np.asarray(c["phase_params"])
        fine = lambda v: R(np.where(np.abs(v - np.round(v)) < 1e-5, np.round(v) + 0.0, v))
        r.update(amp=fine(q), apar=fine(ap if split else ap[:, :, None, :]), ppar=fine(pp))
    return r


def afit(rng):
    npol, nf, ntile = rng.choice([1, 2]), rng.choice([5, 6, 8]), rng.choice([2, 3])
    ti = entries(rng, ntile)
    fu = [rng.choice([1, 1, 1, 1, 0]) for _ in range(nf)]
    far = [f for f in range(nf) if all(fu[k] for k in range(max(0, f - 1), min(nf, f + 2)))]
    if len(far) < 2:
        return None
    last = {t: i for i, t in enumerate(ti)}
    root = squares(rng, npol, nf, len(ti), (1, 2, 3, 4, 5))
    s = [[rng.choice([1, 2, 3, -1]) for _ in range(ntile)] for _ in range(npol)]
    o = [[rng.choice([0, 1, 6, 2]) for _ in range(ntile)] for _ in range(npol)]
    for p in range(npol):
        for t in range(ntile):
            if s[p][t] < 0:
                o[p][t] = 7
    keep = squares(rng, npol, nf, ntile)
    ph = np.array([[[rng.choice(UNITS) for _ in range(ntile)] for _ in range(nf)] for _ in range(npol)])
    G = np.zeros((npol, nf, ntile), complex)
    for p in range(npol):
        for t in range(1, ntile + 1):
            for f in range(nf):
                G[p, f, t - 1] = keep[p][f][t - 1] if t not in last else s[p][t - 1] * root[p][f][last[t]] + o[p][t - 1]
                if t in last and f not in far:
                    G[p, f, t - 1] = rng.choice([1, 50, 3])
            if t in last and len({root[p][f][last[t]] for f in far}) < 2:
                return None
    mroot = squares(rng, npol, nf, len(ti), (1, 2))
    extra = rng.choice([0, 2]) if npol == 2 else 0
    va = np.array(root, float) ** 2 * np.array(mroot) ** 2
    vm = np.array(mroot, float) ** 2
    if extra:
        va, vm = np.concatenate([va, 3 + va]), np.concatenate([vm, 5 + vm])
    obs = dict(n_freq=nf, n_tile=ntile, n_pol=npol + extra, baseline_info=dict(freq_use=np.array(fu)))
    cal = dict(n_pol=npol, gain=G * ph)
    out = call(mod().vis_cal_auto_fit, obs, cal, va, vm, np.array(ti) - 1)
    r = rec0("afit", out, dict(root=root, ti=ti, s=s, o=o, keep=keep))
    if r["ok"]:
        c = out[1]
        z = np.asarray(c["gain"]) / ph
        near = lambda v: R(np.where(np.abs(v - np.round(v)) < 1e-8, np.round(v) + 0.0, v))
        par = np.asarray(c["auto_params"])
        r.update(amp=near(np.where(np.abs(z.imag) < 1e-7, z.real, 1e8)), par=[[[near(par[0, p, t]), near(par[1, p, t])] for t in range(ntile)] for p in range(npol)], scale=R(np.round(np.asarray(c["auto_scale"]), 9)))
    return r


def hist(rng):
    npol, nf, n = rng.choice([1, 2, 4]), rng.choice([1, 2, 3]), rng.choice([3, 5, 8])
    f, u = [rng.choice([1, 1, 2]) for _ in range(nf)], [rng.randint(0, 20) for _ in range(n)]
    lo, hi = rng.choice([0, 0, 1, 3]), rng.choice([7, 10, 14, 19])
    m = [[[rng.choice([0, 1, 2, 4, -4, 3, 6]) for _ in range(n)] for _ in range(nf)] for _ in range(npol)]
    c = [[[rng.randint(-6, 6) for _ in range(n)] for _ in range(nf)] for _ in range(npol)]
    k = rng.choice([0.5, 1.0, 2.0])
    if not any(lo <= p * q <= hi for p in f for q in u):
        return None
    w = rng.choice(UNITS)
    swap = rng.random() < 0.5
    uu, vv = (np.array(u, float), np.zeros(n)) if swap else (np.zeros(n), -np.array(u, float))
    obs = dict(n_pol=npol, kpix=k, min_baseline=float(lo), max_baseline=float(hi), baseline_info=dict(freq=np.array(f, float)))
    out = call(mod().vis_baseline_hist, obs, dict(uu=uu, vv=vv), np.array(c) * w, np.array(m) * w)
    r = rec0("hist", out, dict(m=m, c=c, u=u, f=f, lo=lo, hi=hi))
    if r["ok"]:
        r.update(mean=R(out[1]["vis_res_ratio_mean"]), var=R(np.asarray(out[1]["vis_res_sigma"]) ** 2))
    return r


def mode(rng):
    """cable reflections from the file: the factor of the row of the tile and polarisation, on unflagged tiles only"""
    table = cables()
    npol, nf, ntile = rng.choice([1, 2]), 8, len(table)
    fu, tu = masks(rng, nf, ntile, 5)
    only = rng.choice([0, 0, 150, -150, 90, -230])
    G = np.array([[[rng.choice([1.0, 2.0, 0.5]) for _ in range(ntile)]] * nf for _ in range(npol)], complex)
    obs = dict(n_freq=nf, n_tile=ntile, n_pol=npol, baseline_info=dict(freq_use=np.array(fu), tile_use=np.array(tu), freq=1e8 + 1e5 * np.arange(nf)))
    cfg = dict(CFG, cal_reflection_mode_file=True, cal_reflection_mode_theory=only)
    out = call(mod().vis_cal_polyfit, obs, dict(n_pol=npol, gain=G.copy()), None, cfg, LOG)
    r = rec0("mode", out, dict(fu=fu, tu=tu, only=only), tol=2)
    if r["ok"]:
        want, got = [], []
        par = np.asarray(out[1]["mode_params"])
        for p in range(npol):
            for t in range(ntile):
                if not tu[t]:
                    continue
                m, a, ph = table[t, 5 + 3 * p : 8 + 3 * p]
                m *= min(1, max(0, table[t, 4]))
                if abs(only) > 1 and (table[t, 2] != only if only > 0 else table[t, 2] == -only):
                    m = 0
                fac = [1 + (a * cmath.exp(1j * (ph - 2 * math.pi * m * f / nf)) if m else 0) for f in range(nf)]
                want += [z * 1e4 for z in fac] + [m * 1e3, a * 1e5 if m else 0, ph * 1e4 if m else 0]
                got += [z * 1e4 for z in out[1]["gain"][p, :, t] / G[p, :, t]] + [par[p, t, 0] * 1e3, par[p, t, 1] * 1e5, par[p, t, 2] * 1e4]
        r.update(got=pairs(got, 1), want=pairs(want, 1))
    return r


def resolve(rng):
    """a reflection in the gains of the tiles of the fitted cable length is found; other tiles keep their polynomial"""
    import os

    import PyFHD

    table = np.loadtxt(os.path.join(os.path.dirname(PyFHD.__file__), "templates", "mwa_cable_length.txt"), skiprows=1)
    npol, nf, ntile = rng.choice([1, 2]), 96, len(table)
    how = rng.choice(["theory", "delay"])
    only = rng.choice([150, 230, -90, 1]) if how == "theory" else 0
    hyper = how == "theory" or rng.random() < 0.3
    fu = [1] * nf
    if how == "theory":
        for f in rng.sample(range(nf), rng.choice([0, 0, 3])):
            fu[f] = 0
    tu = [rng.choice([1, 1, 1, 1, 0]) for _ in range(ntile)]
    freq = 1.5e8 + 8e4 * np.arange(nf)
    nominal = 2 * table[:, 2] / (299792458.0 * table[:, 3]) * (8e4 * nf) * np.minimum(1, np.maximum(0, table[:, 4]))
    if how == "delay":
        nominal = np.full(ntile, float(rng.choice([8, 11, 15])))
    base = np.array([[[rng.choice([1.0, 2.0]) for _ in range(ntile)]] * nf for _ in range(npol)], complex)
    G = base.copy()
    amps, on = {}, {}
    odd = set()
    if how == "delay" and not hyper and rng.random() < 0.7:
        odd = {(npol - 1, max(t for t in range(ntile) if tu[t])), (0, min(t for t in range(ntile) if tu[t]))}
    for p in range(npol):
        for t in range(ntile):
            sel = how == "delay" or only == 1 or (table[t, 2] == only if only > 0 else table[t, 2] != -only)
            on[p, t] = bool(tu[t] and sel and nominal[t] != 0)
            if on[p, t]:
                m = nominal[t] + (rng.randint(-20, 20) * 0.05 if hyper else 0)
                # the mode most of the tiles show counts, not that of any one tile
                a, ph = 0.05, rng.uniform(-3, 3)
                if odd and (p, t) in odd:
                    m = 3.0 + nominal[t]
                    a *= 2
                G[p, :, t] *= 1 + a * np.exp(1j * (ph - 2 * np.pi * m * np.arange(nf) / nf))
                amps[p, t] = (m, a, ph)
    S = spoil(rng, G, fu, tu)
    obs = dict(n_freq=nf, n_tile=ntile, n_pol=npol, baseline_info=dict(freq_use=np.array(fu), tile_use=np.array(tu), freq=freq))
    cfg = dict(CFG, cal_reflection_mode_theory=only, cal_reflection_mode_delay=how == "delay", cal_reflection_hyperresolve=hyper)
    out = call(mod().vis_cal_polyfit, obs, dict(n_pol=npol, gain=S), None, cfg, LOG)
    r = rec0("mode", out, dict(tu=tu, only=only, how=how, hyper=hyper), tol=250)
    if r["ok"]:
        want, got = [], []
        par = np.asarray(out[1]["mode_params"])
        for p in range(npol):
            for t in range(ntile):
                if not tu[t]:
                    continue
                if not on[p, t]:
                    want += [z * 1e4 for z in np.ones(nf)[::8]] + [0, 0]
                    got += [z * 1e4 for z in (out[1]["gain"][p, :, t] / base[p, :, t])[::8]] + [par[p, t, 0] * 1e3, par[p, t, 1] * 1e4]
                else:
                    m, a, ph = amps[p, t]
                    if (p, t) in odd:
                        want.append(nominal[t] * 1e3)
                        got.append(par[p, t, 0] * 1e3)
                        continue
                    if m < 5:
                        continue  # hardly a reflection: the polynomial takes part of it
                    want += [z * 1e4 for z in (G[p, :, t] / base[p, :, t])[::8]] + [m * 1e3, a * 1e4]
                    got += [z * 1e4 for z in (out[1]["gain"][p, :, t] / base[p, :, t])[::8]] + [par[p, t, 0] * 1e3, par[p, t, 1] * 1e4]
        r.update(got=pairs(got, 1), want=pairs(want, 1), worst=max([abs(a - b) for a, b in zip(got, want)] or [0]))
    return r


def sky(rng):
    """the whole calibration with its options: gains that the factors can describe come back, and the data become the model"""
    from PyFHD.calibration.calibrate import calibrate

    nf, ntile, nt = rng.choice([5, 6]), 8, rng.choice([1, 2])
    npol = rng.choice([1, 2])
    base = [(a, b) for a in range(1, ntile + 1) for b in range(a, ntile + 1)]
    nb = len(base)
    fu, tu = [1] * nf, [1] * ntile
    if rng.random() < 0.5:
        tu[rng.randrange(ntile)] = 0
    if rng.random() < 0.5:
        fu[rng.randrange(nf)] = 0
    ta, tb = np.array([a for a, b in base] * nt), np.array([b for a, b in base] * nt)
    bandp, poly, aratio, ainit, afit = rng.choice([True, False]), True, rng.random() < 0.5, rng.random() < 0.4, rng.random() < 0.3
    if not bandp:
        poly = rng.random() < 0.6
    shape = [rng.uniform(0.9, 1.1) if bandp or not poly else 1 + 0.02 * f - 0.003 * f * f for f in range(nf)]
    G = np.array([[[a * shape[f] * cmath.exp(1j * (c + d * f)) for a, c, d in [z for z in row]] for f in range(nf)]
                  for row in [[(rng.uniform(0.85, 1.15), rng.uniform(-0.3, 0.3), rng.uniform(-0.05, 0.05)) for _ in range(ntile)] for _ in range(npol)]])
    ref = 1 if tu[1] else 0
    G = G * np.exp(-1j * np.angle(G[:, :, ref : ref + 1]))
    M = np.array([[[4.0 if a == b else complex(*rng.choice([(1, 0), (0, 1), (1, 1), (1, -1)])) for a, b in base * nt] for _ in range(nf)] for _ in range(npol)])
    D = M * G[:, :, ta - 1] * np.conj(G[:, :, tb - 1])
    W = np.ones(D.shape)
    bad = [i for i in range(nb * nt) if not (tu[ta[i] - 1] and tu[tb[i] - 1])]
    cross = [i for i in bad if ta[i] != tb[i]]
    D[:, :, cross] = complex(3, 7)
    W[:, :, bad] = 0
    for f in range(nf):
        if not fu[f]:
            W[:, f] = 0
    obs = dict(min_baseline=1.0, max_baseline=99.0, dimension=64, elements=64, n_freq=nf, n_tile=ntile, n_time=nt, n_baselines=nb, n_pol=npol, kpix=1.0, pol_names=["XX", "YY"],
               baseline_info=dict(tile_a=ta, tile_b=tb, freq=np.array([1.0 + 0.01 * i for i in range(nf)]), tile_use=np.array(tu, float), freq_use=np.array(fu, float), time_use=np.ones(nt),
                                  tile_names=np.array(["T%d" % i for i in range(ntile)]), bin_offset=np.arange(nt) * nb))
    from .p16 import config

    full = dict(CFG, **config(dict(avg=rng.random() < 0.4, cmn=0, cmx=0), 100, thr=1e-9))
    full.update(cal_gain_init=1, calibration_plots=False, calibration_auto_initialize=ainit, auto_ratio_calibration=aratio and bandp, bandpass_calibrate=bandp, calibration_polyfit=poly,
                calibration_auto_fit=afit, flag_calibration=False)
    par = dict(uu=np.array([float(a - b) for a, b in base] * nt), vv=np.array([0.0 if a == b else 1 + float((a * b) % 7) for a, b in base] * nt))
    out = call(calibrate, obs, par, D.copy(), W.copy(), M.copy(), full, LOG, timeout=60)
    r = rec0("sky", out, dict(opts=[bandp, poly, aratio, ainit, afit], fu=fu, tu=tu))
    if r["ok"]:
        V = np.asarray(out[1][0])
        good = [i for i in range(nb * nt) if i not in bad]
        fs = [f for f in range(nf) if fu[f]]
        r.update(got=pairs(V[:, fs][:, :, good], 10**4), want=pairs(M[:, fs][:, :, good], 10**4))
    return r


def replay(c):
    """the functions in the order of the calibration"""
    m = mod()
    nf, ntile = 4, len(c["tu"])
    G = np.array([c["g"]], complex)
    for t in range(ntile):
        if not c["tu"][t]:
            G[:, :, t] = np.nan
    fu = np.array([0 if f + 1 == c["skip"] else 1 for f in range(nf)])
    obs = dict(n_freq=nf, n_tile=ntile, n_pol=1, baseline_info=dict(freq_use=fu, tile_use=np.array(c["tu"]), freq=1e8 + 1e5 * np.arange(nf)))
    cal = dict(n_pol=1, gain=G.copy(), ref_antenna=0)
    autos = np.array([[[float(r) ** 2 for r in c["root"]]] * nf])
    ti = np.arange(ntile)
    o = c["opt"]
    ratio = None
    if o["ratio"]:
        cal, ratio = m.cal_auto_ratio_divide(obs, cal, autos, ti)
    if o["band"]:
        b, r = m.vis_cal_bandpass(obs, cal, dict(CFG), LOG)
        if o["poly"]:
            p = m.vis_cal_polyfit(obs, r, None, dict(CFG), LOG)
            cal["gain"] = p["gain"] * b["gain"]
        else:
            cal = b
        if o["ratio"]:
            cal = m.cal_auto_ratio_remultiply(cal, ratio, ti)
    elif o["poly"]:
        cal = m.vis_cal_polyfit(obs, cal, None, dict(CFG), LOG)
    return np.asarray(cal["gain"])[0]


def run(ctx):
    rng = ctx.rng
    res = tlc.run(ctx, "Gain", constants=dict(Values="{1, 3}" if not ctx.thorough else "{1, 2, 5}", NT=2, Skips="{2, 4}" if not ctx.thorough else "{1, 2, 3, 4}",
                                              TileMasks="{<<1, 1>>, <<1, 0>>}", Roots="{<<1, 1>>, <<2, 1>>, <<1, 3>>}"),
                  invariants=["Recombines", "Product", "Blank", "ScaleFree", "Emit"])
    ctx.count("spec_behaviours", len(res.cases))
    cases = res.cases if len(res.cases) < 2500 else rng.sample(res.cases, 2500)
    for c in cases:
        ctx.replayed()
        out = call(replay, c)
        if out[0] != "ok":
            ctx.violation("replay:chain", "%s on %s" % (out, c), c)
            continue
        for f in range(4):
            for t in range(len(c["tu"])):
                if not c["tu"][t]:
                    continue
                if c["opt"]["band"] and not c["opt"]["poly"] and f + 1 != c["skip"]:
                    continue  # the bandpass alone: its resistant averages are judged below
                q = c["out"][f][t]
                z = complex(out[1][f, t])
                if not abs(z - q[0] / q[1]) < 1e-7:
                    ctx.violation("replay:chain", "channel %d tile %d: %s instead of %s for %s" % (f, t, z, q, c), c)
    ctx.sample(cases[len(cases) // 2])
    recs = []
    for fn, n in ((auto, ctx.n(120, 1200)), (ratio, ctx.n(120, 1200)), (init, ctx.n(80, 800)), (band, ctx.n(160, 1600)), (lambda r: band(r, chain=True), ctx.n(40, 400)),
                  (lambda r: band(r, cable=True), ctx.n(8, 60)), (deaf, ctx.n(80, 800)), (poly, ctx.n(200, 2000)), (afit, ctx.n(100, 1000)), (hist, ctx.n(120, 1200)), (mode, ctx.n(6, 40)), (resolve, ctx.n(6, 40)), (sky, ctx.n(14, 150))):
        for _ in range(n):
            r = fn(rng)
            if r:
                recs.append(r)
    for i, v in sorted(tlc.judge(ctx, "GainOps", "FVerdict", recs).items()):
        for cl in v:
            ctx.violation("judge:%s:%s" % (cl, recs[i]["kind"]), "%s: %s %s" % (cl, recs[i]["why"], str(recs[i])[:1500]), recs[i])
    ctx.sample(recs[0])
    ctx.count("judged_records", len(recs))
    ctx.assumptions = ["auto-correlations are squares of small whole numbers, so that gains are small rationals", "a bandpass transferred from a calfits file is not covered",
                       "bandpass shapes are compared where the usable tiles share a shape, but for a minority"]
