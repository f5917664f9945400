"""P19 the description of the observation."""
import copy
import logging
import math
import os
import pickle

import numpy as np
from astropy.io import fits

from .. import fitsio, tlc
from ..core import call, rat
from ..grid import LOG

BASE = 2456528.0


def num(v, k=1):
    v = float(v) * k
    return int(round(v)) if abs(v) < 1e9 and abs(v - round(v)) < 1e-6 else 1999999999


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    try:
        return type(a) is type(b) and pickle.dumps(a) == pickle.dumps(b)
    except Exception:
        return a is b


def real(ctx, x, rng):
    from PyFHD.data_setup import obs as O

    rows, n = x["rows"], len(x["nums"])
    path = os.path.join(ctx.scratch, "obs.metafits")
    if os.path.exists(path):
        os.unlink(path)
    hd = dict(n_pol=x["np"], n_tile=n, n_freq=x["nf"], freq_res=float(x["df"]), frequency_array=x["f0"] + x["df"] * np.arange(x["nf"], dtype=float),
              lon=116.67, lat=-26.7, alt=377.0, obsra=float(x["hra"]), obsdec=-11.0)
    if x["meta"]:
        order = [(i, p) for i in range(n) for p in "XY"]
        rng.shuffle(order)
        fitsio.metafits(path, [("RA", 31.0), ("DEC", -32.0), ("RAPHASE", float(x["mra"])), ("DECPHASE", -34.0), ("INTTIME", float(x["res"])), ("DELAYS", "1,2,3"), ("FREQCENT", 150.0)],
                        [fits.Column("Input", "J", array=list(range(2 * n))), fits.Column("Antenna", "J", array=[i for i, p in order]), fits.Column("Tile", "J", array=[x["names"][i] for i, p in order]),
                         fits.Column("Pol", "1A", array=[p for i, p in order]), fits.Column("Flag", "I", array=[x["flags"][i] for i, p in order]),
                         fits.Column("Height", "D", array=[377.0 + x["heights"][i] for i, p in order])])
    ty = rng.choice([np.float64, np.float64, np.float32, np.int64])
    col = lambda k: np.array([r[k] for r in rows])
    params = dict(uu=col("u").astype(float), vv=col("v").astype(float), ww=np.zeros(len(rows)), time=BASE + col("t") / 64.0, antenna1=col("a").astype(ty), antenna2=col("b").astype(ty))
    if x["coded"]:
        params["baseline_arr"] = (256 * col("a") + col("b")).astype(float)
    layout = dict(antenna_numbers=np.array(x["nums"]))
    kb = x["kb"]
    cfg = dict(n_pol=x["cfgpol"], instrument="mwa", obs_id="obs", input_path=ctx.scratch, beam_nfreq_avg=x["navg"] or None, FoV=float(x["fov"]) if x["fov"] else rng.choice([None, 0.0]),
               kbinsize=kb[0] / kb[1] if kb[0] else None, dimension=x["dim"] or None, elements=x["el"] or None, min_baseline=float(x["minb"]) if x["minb"] else None,
               time_cut=[float(c) for c in x["cuts"]] or None, dft_threshold=False, healpix_inds=x["inds"], run_simulation=x["sim"],
               override_target_phasera=float(x["ora"]) if x["ora"] != 999 else None, override_target_phasedec=float(x["odec"]) if x["odec"] != 999 else None)
    rec = dict(x=x, ok=False, refused=False, o={}, up=[])
    out = call(O.create_obs, hd, params, layout, cfg, LOG)
    if out[0] == "exit":
        return dict(rec, refused=True, why="refused")
    if out[0] != "ok":
        return dict(rec, why=str(out))
    try:
        from PyFHD.pyfhd_tools.unit_conv import radec_to_pixel

        o = out[1]
        b = o["baseline_info"]
        ints = lambda v, k=1: [num(t, k) for t in np.asarray(v).ravel()]
        pix = lambda d: rat(d["degpix"] * math.pi / 180 * d["kpix"] * d["dimension"])
        cd = lambda d: [rat(t / d["degpix"]) for t in d["astr"]["cdelt"]]
        c = radec_to_pixel(o["phasera"], o["phasedec"], o["astr"])
        rec["o"] = dict(
            n_time=num(o["n_time"]), n_time_flag=num(o["n_time_flag"]), offsets=ints(b["bin_offset"]), n_baselines=num(o["n_baselines"]), n_vis=num(o["n_vis"]), n_freq=num(o["n_freq"]), n_tile=num(o["n_tile"]),
            n_pol=num(o["n_pol"]), jdate=[num(t - BASE, 64) for t in b["jdate"]], jd0=num(o["jd0"] - BASE, 64), tile_a=ints(b["tile_a"]), tile_b=ints(b["tile_b"]), p_a=ints(params["antenna1"]),
            p_b=ints(params["antenna2"]), tile_flag=ints(b["tile_flag"]), tile_use=ints(b["tile_use"]), n_tile_flag=num(o["n_tile_flag"]), tile_names=ints(b["tile_names"]), heights=ints(b["tile_height"]),
            fbin=ints(b["fbin_i"]), freq=ints(b["freq"]), center2=num(o["freq_center"], 2), freq_use=ints(b["freq_use"]), freq_res=num(o["freq_res"]), kpix=rat(o["kpix"]),
            kfov=rat(o["kpix"] * math.pi / 180 * x["fov"]) if x["fov"] else [0, 1], dim=num(o["dimension"]), el=num(o["elements"]), pix=pix(o), obsx=num(o["obsx"]), obsy=num(o["obsy"]),
            max2=rat(o["max_baseline"] ** 2), min2=rat(o["min_baseline"] ** 2), time_use=ints(b["time_use"]), obsra=num(o["obsra"]), obsdec=num(o["obsdec"]), time_res=num(o["time_res"]),
            phasera=num(o["phasera"]), phasedec=num(o["phasedec"]), orig_ra=num(o["orig_phasera"]), orig_dec=num(o["orig_phasedec"]), naxis=ints(o["astr"]["naxis"]), crpix=ints(o["astr"]["crpix"]),
            crval=ints(o["astr"]["crval"]), cdelt=cd(o), centre=[num(t) for t in c], inds=num(o["healpix"]["ind_list"]), instrument=o["instrument"], obsname=o["obsname"], residual=bool(o["residual"]))
        rec["ok"] = True
    except Exception as e:
        return dict(rec, why=repr(e))
    cur = o
    for u in x["ups"]:
        before = copy.deepcopy(cur)
        r = call(O.update_obs, cur, u["dim"], u["kb"][0] / u["kb"][1], u["avg"] or None, float(u["fov"]) if u["fov"] else None)
        if r[0] != "ok":
            rec["up"].append(dict(ok=False, why=str(r)))
            break
        n = r[1]
        try:
            rec["up"].append(dict(ok=True, dims=[num(n["dimension"]), num(n["elements"])], centre=[rat(n["obsx"]), rat(n["obsy"])], pix=pix(n), kpix=rat(n["kpix"]),
                                  kfov=rat(n["kpix"] * math.pi / 180 * u["fov"]) if u["fov"] else [0, 1], max2=rat(n["max_baseline"] ** 2), fbin=ints(n["baseline_info"]["fbin_i"]),
                                  naxis=ints(n["astr"]["naxis"]), cdelt=cd(n), crpix=[rat(t) for t in n["astr"]["crpix"]],
                                  kept=same({k: v for k, v in before.items() if k != "meta_data"}, {k: v for k, v in cur.items() if k != "meta_data"})))
        except Exception as e:
            rec["up"].append(dict(ok=False, why=repr(e)))
            break
        cur = n
    return rec


def domain(x):
    """At least one baseline that is not zero, and one sample inside the grid (the model's Domain)."""
    k = [(abs(f * r["u"]), abs(f * r["v"])) for f in range(x["f0"], x["f0"] + x["df"] * x["nf"], x["df"]) for r in x["rows"]]
    if not any(a or b for a, b in k):
        return False
    kp = 57.2957795 / x["fov"] if x["fov"] else (x["kb"][0] / x["kb"][1] if x["kb"][0] else 0.5)
    if not (x["dim"] or x["el"]):
        big = 2 * max(max(t) for t in k) / kp
        half = 2 ** int(math.log2(big)) / 2 if big >= 1 else 0
        return not x["fov"] and big >= 4 and any(a / kp < half and b / kp < half for a, b in k)
    d, e = x["dim"] or x["el"], x["el"] or x["dim"]
    return any(a / kp < d / 2 and b / kp < e / 2 for a, b in k)


def rand(rng):
    n = rng.choice([2, 3, 4, 6])
    nums = rng.choice([list(range(1, n + 1)), list(range(0, n)), rng.sample(range(1, 2 * n), n), sorted(rng.sample(range(1, 200), n)), rng.sample(range(1, n + 1), n)])
    pairs = [(a, b) for i, a in enumerate(nums) for b in nums[i:] if a != b or rng.random() < 0.5]
    if len(pairs) > 3 and rng.random() < 0.3:
        gone = rng.choice(nums)
        pairs = [p for p in pairs if gone not in p] or pairs
    nt = rng.choice([1, 1, 2, 3, 5])
    t0, dt = rng.randint(0, 9), rng.choice([1, 2, 3])
    rows = []
    for t in range(nt):
        ps = pairs if rng.random() < 0.8 else rng.sample(pairs, max(1, len(pairs) - 1))
        rows += [dict(a=a, b=b, t=t0 + dt * t, u=rng.choice([0, 1, -1, 2, 5, -7]) if a != b else 0, v=rng.choice([0, 1, -2, 3, -6]) if a != b else 0) for a, b in ps]
    meta = rng.random() < 0.75
    coded = max(r["a"] for r in rows) > 0 and max(r["b"] for r in rows) > 0 and rng.random() < 0.4
    res = rng.choice([1, 2, 4])
    return dict(rows=rows, nums=nums, nf=rng.choice([1, 2, 3, 5, 8]), f0=rng.choice([1, 2, 5]), df=rng.choice([1, 2]), navg=rng.choice([0, 1, 2, 3, 16]), np=rng.choice([1, 2, 4]), cfgpol=rng.choice([0, 0, 2]),
                kb=rng.choice([[0, 1], [1, 2], [1, 1], [3, 2], [1, 4]]), fov=rng.choice([0, 0, 0, 10, 40, 90]), dim=rng.choice([0, 8, 16, 24, 64, 65]), el=rng.choice([0, 8, 12, 16, 32, 50, 64]), minb=rng.choice([0, 1, 4]),
                cuts=rng.choice([[], [], [res], [-res], [1, -1], [3], [-3], [2 * res, -res], [50], [-50], [0]]) if meta else [], res=res, meta=meta, flags=[rng.choice([0, 0, 0, 1]) for _ in nums], names=rng.sample(range(11, 99), n),
                heights=[rng.randint(-9, 9) for _ in nums], sim=rng.random() < 0.2, inds=rng.choice([1, 0]), ora=rng.choice([999, 999, 41, 0]), odec=rng.choice([999, 999, -42, 0]), hra=rng.choice([10, 10, 170, 355]), mra=rng.choice([33, 33, 0, 190, 359]), coded=coded,
                ups=[dict(dim=rng.choice([4, 6, 7, 16, 32]), kb=rng.choice([[1, 2], [1, 1], [3, 4]]), avg=rng.choice([0, 0, 1, 2, 3]), fov=rng.choice([0, 0, 0, 25])) for _ in range(rng.choice([0, 1, 2, 3]))])


def run(ctx):
    rng = ctx.rng
    logging.getLogger().setLevel(logging.CRITICAL)
    from PyFHD.data_setup import obs as O

    # the transformations to the horizon are astropy's and slow: they are asked once per position and time
    for name in ("altaz_to_radec", "radec_to_altaz"):
        setattr(O, name, memo(getattr(O, name)))
    G = lambda navg, kb, fov, dim, el, minb: "[navg |-> %d, kb |-> <<%d, %d>>, fov |-> %d, dim |-> %d, el |-> %d, minb |-> %d]" % (navg, kb[0], kb[1], fov, dim, el, minb)
    U = lambda dim, kb, avg, fov: "[dim |-> %d, kb |-> <<%d, %d>>, avg |-> %d, fov |-> %d]" % (dim, kb[0], kb[1], avg, fov)
    grids = [G(2, (1, 2), 0, 16, 8, 1), G(0, (0, 1), 0, 0, 64, 0), G(3, (1, 1), 30, 12, 12, 5)] + ([G(2, (1, 1), 0, 0, 0, 1)] if ctx.thorough else [])
    res = tlc.run(ctx, "Obs", constants=dict(Nums=ctx.n("<<2, 1>>", "<<3, 1, 2>>"), MaxRows="3", MaxTimes="3", Cuts="{<<>>, <<2>>, <<-1>>, <<1, -3>>}", Grids="{%s}" % ", ".join(grids),
                                             Updates="{%s}" % ", ".join([U(4, (1, 2), 0, 0), U(7, (1, 1), 2, 0)]), MaxUps=ctx.n("1", "2")),
                  invariants=["Integrations", "Tiles", "OneBin", "CutEnds", "Bins1", "Emit"], properties=["Shrinks"])
    ctx.count("spec_behaviours", len(res.cases))
    recs = []
    for c in rng.sample(res.cases, min(len(res.cases), ctx.n(400, 4000))):
        r = real(ctx, c["x"], rng)
        ctx.replayed()
        if r["refused"] != c["refused"]:
            ctx.violation("replay:refused", "%s was %s" % (c["x"], "refused" if r["refused"] else "not refused"), c)
        recs.append(r)
    while len(recs) < ctx.n(900, 9000):
        x = rand(rng)
        if domain(x):
            recs.append(real(ctx, x, rng))
    for i, v in sorted(tlc.judge(ctx, "ObsOps", "OVerdict", recs).items()):
        for cl in v:
            why = recs[i].get("why") or next((u["why"] for u in recs[i]["up"] if not u["ok"]), None)
            ctx.violation("judge:" + cl, "%s: %s gave %s" % (cl, recs[i]["x"], why or (recs[i]["up"] if cl.startswith("update") else recs[i]["o"])), recs[i])
    ctx.sample(recs[0]["x"])
    ctx.assumptions = ["rows of an integration are consecutive", "at least one baseline is not zero and one sample is inside the grid", "the transformation between horizon and equatorial coordinates is astropy's"]


def memo(f):
    seen = {}

    def g(*a):
        if a not in seen:
            seen[a] = f(*a)
        return seen[a]

    return g
