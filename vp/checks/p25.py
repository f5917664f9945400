"""P25 images of gridded planes."""
import copy
import logging
import os
import shutil
from pathlib import Path

import numpy as np
from astropy.io import fits

from .. import tlc
from ..core import call, rat
from ..grid import LOG
from .p21 import patched

DEG = 180 / np.pi
FILTERS = ["uniform", "natural", "optimal", "radial"]


def q(v):
    return rat(float(v), maxden=40000, tol=1e-10)


def carr(a, n):
    return (np.array(a, float)[..., 0] + 1j * np.array(a, float)[..., 1]).reshape(n, n)


def image(x, rng):
    from PyFHD.gridding.gridding_utils import dirty_image_generate

    n = x["n"]
    plane = carr(x["plane"], n)
    kw = dict(not_real=not x["real"])
    if x["cut"]["on"]:
        kw.update(baseline_threshold=x["cut"]["t2"] / 2, width_smooth=x["cut"]["w"] or rng.choice([None, 0]))
    elif rng.random() < 0.5:
        kw.update(baseline_threshold=rng.choice([0, None]))
    if x["mask"]:
        kw["mask"] = np.array(x["mask"]).reshape(n, n)
    if x["filt"] == "given":
        kw["filter"] = np.array(x["given"], float).reshape(n, n)
    elif x["filt"] == "uniform":
        kw["filter"] = np.empty(0)
        if x["cnt"]:
            kw["uniform_filter_uv"] = np.array(x["cnt"]).reshape(n, n) / 2
    if x["wts"]:
        kw["weights"] = carr(x["wts"], n) if x["filt"] != "uniform" or x["cnt"] else carr(x["wts"], n).real / rng.choice([1, 8])  # only their ratios matter
    if x["resize"] > 1 or rng.random() < 0.3:
        kw["resize"] = x["resize"]
    if x["pad"] > 1 or rng.random() < 0.5:
        kw["pad_uv_image"] = rng.choice([float, int])(x["pad"])
    if x["r"][1]:
        kw["degpix"] = DEG * x["r"][0] / x["r"][1]
    if x["norm"][1]:
        kw["normalization"] = x["norm"][0] / x["norm"][1]
    m = n * x["resize"] * x["pad"]
    if x["beam"]:
        kw["beam_ptr"] = np.array(x["beam"], float).reshape(m, m) / 8
    before = copy.deepcopy((plane, kw))
    o = call(dirty_image_generate, plane, dict(image_filter="filter_uv_optimal" if x["opt"] else rng.choice(["filter_uv_uniform", "filter_uv_natural"])), LOG, **kw)
    rec = dict(x=x, ok=False, image=[], filter=[], norm=[0, 0], isreal=False, kept=False)
    if o[0] != "ok":
        return dict(rec, why=str(o)[:300])
    im, filt, norm = o[1]
    same = lambda a, b: a is b or np.array_equal(a, b)
    rec["kept"] = bool(np.array_equal(plane, before[0]) and all(same(kw[k], before[1][k]) for k in kw))
    try:
        rec["isreal"] = not np.iscomplexobj(im)
        rec["image"] = [[q(v.real), q(v.imag)] for v in np.asarray(im, complex).ravel()] if np.shape(im) == (m, m) else []
        rec["filter"] = [] if filt is None else [q(v) for v in np.ravel(filt)]
        rec["norm"] = [0, 0] if norm is None else q(norm)
    except (TypeError, ValueError) as e:
        return dict(rec, why=repr(e))
    return dict(rec, ok=True)


def case(rng):
    n = rng.choice([2, 2, 4])
    grow = rng.choice(["", "", "pad", "resize"]) if n == 2 else ""
    resize, pad = (2 if grow == "resize" else 1), (2 if grow == "pad" else 1)
    c = n * n
    m = (n * resize * pad) ** 2
    filt = rng.choice(["none", "given", "uniform", "uniform"])
    cut = dict(on=rng.random() < (0.3 if filt == "uniform" else 0.6), t2=rng.randint(-6, 6), w=rng.choice([0, 0, 1, 2, 3]) if n == 4 and filt != "uniform" else 0)
    if not cut["on"]:
        cut.update(t2=0, w=0)
    fromw = filt == "uniform" and rng.random() < 0.2
    cnt = [rng.choice([0, 1, 2, 2, 3, 4, 6, 8]) for _ in range(c)]
    cnt[rng.randrange(c)] = rng.choice([2, 4])
    wts = []
    if fromw:
        wts = [[rng.choice([0, 1, 2, 3, 4]), 0] for _ in range(c)]
        wts[rng.randrange(c)] = [rng.choice([1, 2]), 0]
        cnt = []
    elif rng.random() < 0.6:
        wts = [[rng.choice([0, 1, 2]), rng.choice([0, 0, 1])] if v >= 2 or rng.random() < 0.2 else [0, 0] for v in cnt]
        if not any(w != [0, 0] and v >= 2 for w, v in zip(wts, cnt)):
            i = next(i for i, v in enumerate(cnt) if v >= 2)
            wts[i] = [1, 0]
    return dict(n=n, plane=[[rng.randint(-4, 4), rng.randint(-4, 4)] for _ in range(c)], cut=cut, mask=[rng.choice([0, 1, 1]) for _ in range(c)] if rng.random() < 0.4 else [],
                filt=filt, given=[rng.randint(0, 3) for _ in range(c)] if filt == "given" else [], cnt=cnt if filt == "uniform" else [], wts=wts, resize=resize, pad=pad,
                r=rng.choice([[0, 0], [1, 1], [1, 2], [2, 1]]), real=rng.random() < 0.5, norm=rng.choice([[0, 0], [2, 1], [1, 4]]), opt=rng.random() < 0.3, beam=[rng.randint(0, 8) for _ in range(m)] if rng.random() < 0.6 else [])


def snap(ctx, x, rng):
    from PyFHD.io import pyfhd_quickview as Q
    from PyFHD.io.pyfhd_io import load

    n, npol, pad = x["n"], x["np"], x["pad"]
    m = n * pad
    kpix = x["k"][0] / x["k"][1]
    out = os.path.join(ctx.scratch, "snap")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    s = x["save"]
    cfg = dict(output_dir=Path(out), obs_id="77", image_filter="filter_uv_" + x["filter"], pad_uv_image=float(pad), save_obs=s["obs"], save_params=s["params"], save_visibilities=s["vis"], recalculate_grid=s["grid"], save_cal=s["cal"],
               calibrate_visibilities=s["calibrate"], save_weights=s["weights"])
    deg = DEG / (kpix * m)
    cd = np.array([[1.0, rng.choice([0, 0.5])], [rng.choice([0, 0.25]), 1.0]])
    astr = dict(naxis=np.array([n, n]), cd=cd.copy(), cdelt=np.full(2, deg * pad), crpix=np.array([n / 2 + 1, n / 2 + 1]), crval=np.array([rng.uniform(0, 360), rng.uniform(-90, 90)]), ctype=["RA---SIN", "DEC--SIN"], longpole=180, latpole=0,
                pv2=np.array([rng.random(), rng.random()]), pv1=np.array([0, 0, 90, 180, 0.0]), radecsys="ICRS", equinox=2000.0, mjdobs=56528.25, dateobs="2013-08-24T06:00:00.000", coord_sys="C", projection="SIN")
    freq = 1e8 + 1e5 * np.arange(4)
    names = ["XX", "YY", "XY", "YX"][:npol]
    obs = dict(n_pol=npol, n_freq=4, freq_res=1e5, kpix=kpix, degpix=deg * pad, dimension=n, elements=n, obsx=n / 2, obsy=n / 2, max_baseline=1e9, pol_names=rng.choice([list, np.array])(names), n_vis=x["nvis"], astr=astr,
               baseline_info=dict(freq=freq, fbin_i=np.array([0, 0, 1, 1])))
    params = dict(uu=np.array([rng.random(), 1.0]), vv=np.array([0.0, rng.random()]))
    cal = dict(gain=np.array([1.0, rng.random()]), n_pol=npol)
    psf = dict(mark=rng.random())
    V = np.array([[[1 + 2j, rng.random()]]])
    W = np.array([[[1.0, rng.random()]]])
    planes = lambda a: np.array([carr(a[p], n) for p in range(npol)])
    img, mod, wts, var = planes(x["img"]), planes(x["mod"]), planes(x["wts"]), planes(x["wts"]).real * 3
    uni = np.array(x["cnt"]).reshape(n, n) / 2
    seen = dict(sky=False, pols=[], bad=False)

    def beam(ps, ob, pol_i, freq_i=None, abs=False, square=False):
        seen["bad"] |= not (ps is psf and freq_i is None and not abs and not square and int(ob["dimension"]) == n)
        seen["pols"].append(int(pol_i))
        return np.array(x["beam"][int(pol_i)], float).reshape(n, n) / 2048

    def sky(X, Y, a, *aa, **k):
        w = np.mgrid[0:m, 0:m]
        seen["sky"] = bool(np.array_equal(X, w[1]) and np.array_equal(Y, w[0]) and list(a["crpix"]) == [m / 2 + 1] * 2 and list(a["naxis"]) == [m, m] and np.allclose(a["cdelt"], deg, rtol=1e-12) and np.array_equal(a["crval"], astr["crval"]))
        ra = np.full(m * m, 12.5)
        ra[[h - 1 for h in x["hor"]]] = np.nan
        return ra.reshape(m, m), np.zeros((m, m))

    before = copy.deepcopy((obs, params, cal, V, W, img, mod, var, uni))
    wts0 = wts.copy()
    rec = dict(x=x, ok=False, files=[], saved=[], savedwrong=[], kept=False, beamargs=False, sky=False, pol=[])
    old = Q.beam_image, Q.pixel_to_radec
    Q.beam_image, Q.pixel_to_radec = beam, sky
    try:
        o = call(Q.quickview, obs, psf, params, cal, V, W, img, wts, var, uni, mod, cfg, LOG)
    finally:
        Q.beam_image, Q.pixel_to_radec = old
    if o[0] != "ok":
        return dict(rec, why=str(o)[:300])
    rec.update(ok=True, sky=seen["sky"], beamargs=bool(not seen["bad"] and set(seen["pols"]) == set(range(npol))))

    def eq(a, b):
        if isinstance(a, dict):
            return isinstance(b, dict) and set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)) and a and isinstance(a[0], dict):
            return len(a) == len(b) and all(eq(u, v) for u, v in zip(a, b))
        return bool(np.array_equal(np.asarray(a), np.asarray(b)))

    rec["kept"] = all(eq(a, b) for a, b in zip(before, (obs, params, cal, V, W, img, mod, var, uni)))
    fd = os.path.join(out, "fits")
    rec["files"] = sorted(os.listdir(fd)) if os.path.isdir(fd) else []
    content = {"obs": before[0], "params": before[1], "cal": before[2], "calibrated_vis_arr": before[3], "calibrated_vis_weights": before[4], "image_uv": before[5], "model_uv": before[6], "variance_uv": before[7], "uniform_filter_uv": before[8], "weights_uv": wts0}
    for d in ("metadata", "visibilities", "gridding", "calibration"):
        p = os.path.join(out, d)
        for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
            rec["saved"].append(d + "/" + f)
            k = f[len("77_"):-len(".h5")]
            got = call(load, Path(p, f), LOG)
            want = content.get(k)
            if got[0] != "ok" or want is None:
                rec["savedwrong"].append(f)
            elif k == "obs":
                if not all(t in got[1] and eq(want[t], got[1][t]) for t in ("n_pol", "kpix", "dimension", "n_vis", "degpix")):
                    rec["savedwrong"].append(f)
            elif not eq(want, got[1]):
                rec["savedwrong"].append(f)
    shown = names if npol < 4 else names[:2] + ["XY_real", "XY_imag"]
    for nm in shown:
        d = {}
        wrong = []
        for k, f in [(k, "77_%s_%s_%s.fits" % (x["filter"], k, nm)) for k in ("dirty", "model", "residual")] + [("beam", "77_beam_%s.fits" % nm), ("weights", "77_uv_weights_%s.fits" % nm)]:
            p = os.path.join(fd, f)
            if not os.path.exists(p):
                continue
            with fits.open(p) as h:
                data, hd = np.asarray(h[0].data, float), h[0].header.copy()
            side = n if k == "weights" else m
            d[k] = [q(v * v if k == "weights" else v) for v in data.ravel()] if data.shape == (side, side) else []
            if k == "weights":
                want = dict(CD1_1=kpix, CD2_2=kpix, CD1_2=0.0, CD2_1=0.0, CRPIX1=n / 2 + 1, CRPIX2=n / 2 + 1, CRVAL1=0.0, CRVAL2=0.0)
            else:
                want = dict(CD1_1=cd[0, 0] * deg, CD1_2=cd[0, 1] * deg, CD2_1=cd[1, 0] * deg, CD2_2=cd[1, 1] * deg, CRPIX1=m // 2 + 1, CRPIX2=m // 2 + 1, CRVAL1=astr["crval"][0], CRVAL2=astr["crval"][1], PV2_1=astr["pv2"][0], PV2_2=astr["pv2"][1],
                            PV1_2=90.0, PV1_3=180.0, EQUINOX=2000.0, CTYPE1="RA---SIN", CTYPE2="DEC--SIN", BUNIT="Jy/sr (apparent)" if k != "beam" else None)
            want.update({"MJD-OBS": 56528.25, "DATE-OBS": "2013-08-24T06:00:00.000"})
            for t, v in want.items():
                g = hd.get(t)
                if g != v and not (isinstance(v, float) and isinstance(g, (int, float)) and abs(g - v) <= 1e-9 * max(1.0, abs(v))):
                    wrong.append("%s %s is %s instead of %s" % (k, t, g, v))
        rec["pol"].append(dict({t: [] for t in ("dirty", "model", "residual", "beam", "weights")}, **d, wrong=wrong))
    return rec


def shot(rng):
    # the image has four by four pixels: the centre may not be at its edge
    n = rng.choice([2, 4])
    pad = 4 // n
    npol = rng.choice([1, 2, 2, 4, 4])
    c, m = n * n, n * pad
    cnt = [rng.choice([0, 1, 2, 2, 2, 4, 6]) for _ in range(c)]
    cnt[rng.randrange(c)] = 2
    few = lambda a: [[[rng.randint(-a, a), rng.randint(-a, a)] if v else [0, 0] for v in cnt] for _ in range(npol)]
    inv = [96 // v if v >= 2 else 0 for v in cnt]
    while True:
        wts = [[[rng.choice([1, 1, 2, 0, -1]), rng.choice([0, 0, 1, -1])] if v >= 2 else [0, 0] for v in cnt] for _ in range(npol)]
        if all(sum(w[0] * f for w, f in zip(p, inv)) for p in wts):
            break
    beam = [[rng.choice([0, 256, 512, 1024, 1024, 2048, 2048, 2, 3, -512]) for _ in range(c)] for _ in range(npol)]
    for b in beam:
        b[(n // 2) * n + n // 2] = rng.choice([1024, 2048])
    hor = sorted(set(rng.randint(1, m * m) for _ in range(rng.choice([0, 0, 1, 3]))) - {(m // 2) * m + m // 2 + 1})
    yes = lambda: rng.random() < 0.5
    f = rng.choice(FILTERS)
    return dict(n=n, np=npol, pad=pad, k=rng.choice([[1, 2], [1, 4], [1, 1]]), img=few(4), mod=few(3), wts=wts, cnt=cnt, beam=beam, hor=hor, opt=f == "optimal", filter=f, nvis=rng.randint(1, 9),
                save=dict(obs=yes(), params=yes(), vis=yes(), grid=yes(), cal=yes(), calibrate=yes(), weights=yes()))


def run(ctx):
    rng = ctx.rng
    logging.getLogger().setLevel(logging.CRITICAL)
    # the model: every small plane, counts and padding
    inv = ["Measured", "MeanOne", "Uniform", "Centre", "Mean", "Finer", "Energy", "Emit"]
    res = tlc.run(ctx, "Imaging", constants=dict(N="2", Values="{<<0, 0>>, <<1, 0>>, <<0, 1>>}", Counts="{1, 2, 4}", Pads="{1, 2}"), invariants=inv)
    ctx.count("spec_behaviours", len(res.cases))
    for c in rng.sample(res.cases, min(len(res.cases), ctx.n(400, 6000))):
        x = dict(n=2, plane=[list(v) for v in c["plane"]], cut=dict(on=False, t2=0, w=0), mask=[], filt="uniform", given=[], cnt=list(c["cnt"]), wts=[list(v) for v in c["wts"]], resize=1, pad=c["pad"], r=[0, 0], real=False, norm=[0, 0], opt=False, beam=[])
        r = image(x, rng)
        ctx.replayed()
        f = c["scale"][0] / c["scale"][1] / 4
        want = [[q(v[0] * f), q(v[1] * f)] for v in c["im"]]
        if r["image"] != want:
            ctx.violation("replay:image", "the image of %s is %s instead of %s" % (x, r["image"] or r.get("why"), want), dict(x=x, case=c, real=r))
    recs = [image(case(rng), rng) for _ in range(ctx.n(500, 8000))]
    for i, v in sorted(tlc.judge(ctx, "ImagingOps", "DVerdict", recs).items()):
        for cl in v:
            ctx.violation("judge:" + cl, "%s: the image of %s %s" % (cl, recs[i]["x"], recs[i].get("why", "")), recs[i])
    shots = [snap(ctx, shot(rng), rng) for _ in range(ctx.n(90, 1500))]
    for i, v in sorted(tlc.judge(ctx, "ImagingOps", "SVerdict", shots).items()):
        for cl in v:
            ctx.violation("judge:snapshot-" + cl, "%s: the snapshot images of %s %s" % (cl, shots[i]["x"], shots[i].get("why", "") or [p["wrong"] for p in shots[i]["pol"]] + shots[i]["savedwrong"]), shots[i])
    ctx.sample(shots[0]["x"])
    ctx.assumptions = ["planes of 2 by 2 or 4 by 4 cells, so that images are exact", "beams and sky positions are given to the snapshot images (P26)", "whole padding factors (others crash, as the beam cannot be rebinned)"]
