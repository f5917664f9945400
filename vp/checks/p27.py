"""P27 directions on the sky, pixels and w-term phases (Sky.tla)."""
import logging
import math
import os

import numpy as np

from .. import tlc
from ..core import call, rat

PT = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]
DEG = 180 / math.pi
BAD = 1999999999
HOW = ("info", "given", "file", "given-ra", "given-dec")


def ang(p):
    return math.degrees(math.atan2(p[1], p[0]))


def ra(d, rng=None):
    return ang(d[0]) % 360.0


def dec(d):
    return ang(d[1])


def vec(d):
    a, b = math.radians(ra(d)), math.radians(dec(d))
    return np.array([math.cos(b) * math.cos(a), math.cos(b) * math.sin(a), math.sin(b)])


def whole(x, scale, tol=1e-6):
    """the integer x*scale, or a value no model has"""
    v = float(x) * scale
    return int(round(v)) if math.isfinite(v) and abs(v - round(v)) < tol * scale else BAD


def deg(x):
    return np.asarray(getattr(x, "deg", x), dtype=float)


def sky(ctx, o, z, stars, obsx, obsy, how):
    """everything the code says about the stars for an observation at o under the zenith z"""
    import h5py

    from PyFHD.data_setup.obs import project_slant_orthographic
    from PyFHD.pyfhd_tools.pyfhd_utils import angle_difference, l_m_n
    from PyFHD.pyfhd_tools.unit_conv import pixel_to_radec, radec_to_pixel

    ras, decs = np.array([ra(s) for s in stars] + [np.nan]), np.array([dec(s) for s in stars] + [5.0])
    obs = dict(obsra=ra(o), obsdec=dec(o))

    def modes():
        info = {"ra_arr": ras.reshape(1, -1).copy(), "dec_arr": decs.reshape(1, -1).copy()}
        if how == "given-ra":
            return l_m_n({"obsra": 1.0, "obsdec": obs["obsdec"]}, {"image_info": info}, obsra=obs["obsra"])
        if how == "given-dec":
            return l_m_n({"obsra": obs["obsra"], "obsdec": 2.0}, {"image_info": dict(info, dec_arr=info["dec_arr"] + 7)}, obsdec=obs["obsdec"], declination_arr=info["dec_arr"])
        if how == "given":
            return l_m_n({"obsra": 1.0, "obsdec": 2.0}, {}, obsdec=obs["obsdec"], obsra=obs["obsra"], declination_arr=info["dec_arr"], right_ascension_arr=info["ra_arr"])
        if how == "file":
            p = os.path.join(ctx.scratch, "psf.h5")
            with h5py.File(p, "w") as f:
                g = f.create_group("image_info")
                for k, v in info.items():
                    g[k] = v
            with h5py.File(p, "r") as f:
                return l_m_n(obs, f)
        return l_m_n(obs, {"image_info": info})

    rec = dict(kind="sky", o=o, z=z, stars=stars, ok=False)
    m = call(modes)
    if m[0] != "ok":
        return dict(rec, why=str(m))
    l, mm, n = (np.ravel(np.asarray(x, dtype=float)) for x in m[1])
    rec["lmn"] = [[whole(l[i], 625), whole(mm[i], 625), whole(n[i], 625)] for i in range(len(stars))]
    rec["undef"] = [whole(x[-1], 625) for x in (l, mm, n)]

    def seps():
        out = []
        for s in stars:
            v = [angle_difference(ra(o), dec(o), ra(s), dec(s), degree=True), angle_difference(math.radians(ra(s)), math.radians(dec(s)), math.radians(ra(o)), math.radians(dec(o))),
                 angle_difference(ra(s), dec(s), ra(o), dec(o), degree=True, nearest=True)]
            out.append([whole(math.cos(math.radians(x)), 625) if -1e-9 <= x <= 180 + 1e-9 else BAD for x in v])
        both = angle_difference(np.full(len(stars), ra(o)), np.full(len(stars), dec(o)), ras[:-1], decs[:-1], degree=True)
        for i in range(len(stars)):
            out[i].append(whole(math.cos(math.radians(both[i])), 625))
        return out

    s = call(seps)
    if s[0] != "ok":
        return dict(rec, why=str(s))
    rec["sep"] = s[1]
    zv, ov = vec(z), vec(o)
    seen = [q for q in stars if vec(q) @ ov > 0.03 and vec(q) @ zv > 0.03]
    if zv @ ov < 0.15:
        return dict(rec, ok=True, seen=[], pix=[], back=[], slant=[[0, 0], [0, 0]], zpix=[[0, 0], [0, 0]])
    meta = dict(phasera=ra(o), phasedec=dec(o), zenra=ra(z), zendec=dec(z), obsx=obsx, obsy=obsy, jd0=2456528.2)
    p = call(project_slant_orthographic, meta, dict(dimension=2 * obsx, elements=2 * obsy, degpix=DEG / 625))
    if p[0] != "ok":
        return dict(rec, why=str(p))
    astr, zx, zy = p[1]
    rec["slant"] = [rat(v, 625) for v in astr["pv2"]]
    rec["zpix"] = [rat(zx - obsx, 625, 1e-7), rat(zy - obsy, 625, 1e-7)]
    if not seen:
        return dict(rec, ok=True, seen=[], pix=[], back=[])
    xy = call(radec_to_pixel, np.array([ra(q) for q in seen]), np.array([dec(q) for q in seen]), astr)
    if xy[0] != "ok":
        return dict(rec, why=str(xy))
    x, y = (np.atleast_1d(np.asarray(v, dtype=float)) for v in xy[1])
    bk = call(pixel_to_radec, x, y, astr)
    if bk[0] != "ok":
        return dict(rec, why=str(bk))
    a, b = (np.radians(np.atleast_1d(deg(v))) for v in bk[1])
    rec["pix"] = [[rat(x[i] - obsx, 625, 1e-7), rat(y[i] - obsy, 625, 1e-7)] for i in range(len(seen))]
    rec["back"] = [[whole(np.cos(b[i]) * np.cos(a[i]), 25), whole(np.cos(b[i]) * np.sin(a[i]), 25), whole(np.sin(b[i]), 25)] for i in range(len(seen))]
    return dict(rec, ok=True, seen=seen)


def gauss(a):
    return [[[[whole(v.real, 1), whole(v.imag, 1)] for v in f] for f in p] for p in a]


def turn(rng):
    from PyFHD.pyfhd_tools.pyfhd_utils import simple_deproject_w_term

    npv, nf, nb = rng.choice([1, 2, 4]), rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4, 5])
    np_obs = rng.choice([npv, npv, min(npv, 2)])
    vis = [[[[rng.randint(-5, 5), rng.randint(-5, 5)] for _ in range(nb)] for _ in range(nf)] for _ in range(npv)]
    ww = [rng.randint(-9, 9) for _ in range(nb)]
    ff = [rng.randint(1, 12) for _ in range(nf)]
    d = rng.choice([1, -1, 1, -1, 2, -3])
    arr = np.array([[[complex(*v) for v in f] for f in p] for p in vis])
    obs = dict(n_pol=np_obs, n_freq=nf, baseline_info=dict(freq=np.array(ff, dtype=float)))
    params = dict(ww=np.array(ww) * (math.pi / 2))
    log = logging.getLogger("p27")
    rec = dict(kind="turn", vis=vis, ww=ww, ff=ff, dir=d, np=np_obs, ok=False)
    a = call(simple_deproject_w_term, obs, params, arr.copy(), d, log)
    if a[0] != "ok":
        return dict(rec, why=str(a))
    b = call(simple_deproject_w_term, obs, params, np.array(a[1], copy=True), -d, log)
    if b[0] != "ok":
        return dict(rec, why=str(b))
    if np.shape(a[1]) != arr.shape or np.shape(b[1]) != arr.shape:
        return dict(rec, why="shape")
    return dict(rec, ok=True, out=gauss(a[1]), out2=gauss(b[1]))


def horizon(rng):
    from PyFHD.pyfhd_tools.unit_conv import altaz_to_radec, radec_to_altaz

    lat, lon, h = rng.randint(-60, 60), rng.randint(-179, 179), rng.choice([0.0, 377.8, 2000.0])
    jd = 2451600.5 + rng.randint(0, 6500) + rng.random()
    there = [[rng.randint(5, 85) * 1000, rng.randint(1, 359) * 1000] for _ in range(3)]
    rec = dict(kind="horizon", lat=lat * 1000, there=there, ok=False, why="lat %s lon %s jd %s" % (lat, lon, jd))

    def go():
        back = []
        for al, az in there:
            r, d = altaz_to_radec(al / 1000, az / 1000, lat, lon, h, jd)
            b = radec_to_altaz(r, d, lat, lon, h, jd)
            back.append([whole(b[0], 1000, 1e-4), whole(b[1], 1000, 1e-4)])
        zr, zd = altaz_to_radec(90.0, 0.0, lat, lon, h, jd)
        later, turns = [], []
        for hours in (1.0, 6.0, 13.5):  # eastern longitudes see the same sky earlier
            later.append(int(round(float(altaz_to_radec(90.0, 0.0, lat, lon, h, jd + hours / 24)[0]) * 1000)))
            turns.append(int(round(hours * 15041.0686)) % 360000)
        for dl in (30, -75):
            later.append(int(round(float(altaz_to_radec(90.0, 0.0, lat, lon + dl, h, jd)[0]) * 1000)))
            turns.append(dl * 1000 % 360000)
        m = altaz_to_radec(90.0, 0.0, lat, lon, h, jd - 2400000.5, time_format="mjd")
        later.append(int(round(float(m[0]) * 1000)))
        turns.append(0)
        return back, [int(round(float(zr) * 1000)), int(round(float(zd) * 1000))], later, turns

    o = call(go, timeout=60)
    if o[0] != "ok":
        return dict(rec, why=str(o))
    return dict(rec, ok=True, back=o[1][0], zen=o[1][1], later=o[1][2], turns=o[1][3])


def run(ctx):
    import warnings

    warnings.filterwarnings("ignore")
    rng = ctx.rng
    # the origins of right ascension and declination are always among them
    some = lambda k: "{%s}" % ", ".join("<<%d, %d>>" % p for p in [PT[0]] + rng.sample(PT[1:], k - 1))
    res = tlc.run(ctx, "Sky", constants=dict(Centres=some(ctx.n(3, 8)), Zeniths=some(ctx.n(3, 8))),
                  invariants=["Frame", "AtOrigin", "OnSphere", "Sides", "Plain", "CentreStays", "ZenithAt", "TurnsGroup", "Emit"])
    cases = res.cases
    rng.shuffle(cases)
    dirs = [[list(a), list(b)] for a in PT for b in PT if b[0] >= 0]
    recs = []
    for i, c in enumerate(cases[: ctx.n(160, 1500)]):
        o, z = [list(x) for x in c["o"]], [list(x) for x in c["z"]]
        stars = rng.sample(dirs, 7) + [o]
        recs.append(sky(ctx, o, z, stars, rng.choice([8, 3, 16]), rng.choice([8, 5]), rng.choice(HOW)))
        ctx.replayed()
    # the zenith at the centre and on its meridian
    for o in rng.sample([d for d in dirs if d[1][0] > 0], ctx.n(12, 50)):
        for z in (o, [o[0], rng.choice([[4, 3], [4, -3], [3, 4], [3, -4], [0, 5], [0, -5]])]):
            recs.append(sky(ctx, o, z, rng.sample(dirs, 5) + [o, z], 8, 8, rng.choice(HOW)))
    recs += [turn(rng) for _ in range(ctx.n(200, 2000))]
    recs += [horizon(rng) for _ in range(ctx.n(10, 80))]
    bad = tlc.judge(ctx, "SkyOps", "SkyVerdict", recs)
    for i, v in bad.items():
        for c in v:
            ctx.violation("judge:%s:%s" % (recs[i]["kind"], c), "%s fails for %s" % (c, recs[i]), recs[i])
    ctx.sample(recs[0])
    ctx.count("judged_records", len(recs))
    ctx.assumptions += ["the coordinate transformations are astropy's own; zeniths in right ascension and declination are judged to half a degree (precession), the round trip to 1e-7",
                        "slants are judged for zeniths up to 78 degrees from the centre, pixels for stars in front of the projection and above the horizon"]
