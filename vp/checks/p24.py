"""P24 power spectrum cubes."""
import copy
import inspect
import logging
import os
import shutil
from pathlib import Path

import numpy as np

from .. import tlc
from ..core import call, rat
from ..grid import LOG
from .p21 import patched

NAMES = ["XX", "YY", "XY", "YX"]
DEG = 180 / np.pi


def whole(v):
    q = rat(float(v))
    return q[0] if q[1] == 1 else 1999999998


def toy(x, seen):
    """gridding as CubeOps.tla has it"""
    from PyFHD.gridding.visibility_grid import visibility_grid as real

    sig = inspect.signature(real)

    def grid(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        g = b.arguments
        p, obs, w = int(g["polarization"]), g["obs"], np.asarray(g["vis_weights"])
        if g["psf"] is not seen["psf"] or g["params"] is not seen["params"] or g["no_conjugate"] or g["model"] is None:
            raise ValueError("other inputs")
        fi = np.nonzero(obs["baseline_info"]["freq_use"])[0] if g["fi_use"] is None else np.asarray(g["fi_use"])
        bi = np.arange(w.shape[1]) if g["bi_use"] is None else np.asarray(g["bi_use"])
        pl = {k: np.zeros(16, complex) for k in ("image_uv", "model_return", "weights")}
        var, n = np.zeros(16), 0
        cnt = {}
        for c in fi.tolist():
            cnt[c] = 0
            for r in bi.tolist():
                if w[c, r] > 0:
                    k = (3 * c + 5 * r + 7 * p) % 16
                    pl["image_uv"][k] += g["visibility"][c, r] * w[c, r]
                    pl["model_return"][k] += g["model"][c, r] * w[c, r]
                    pl["weights"][k] += w[c, r]
                    var[k] += w[c, r] ** 2
                    n += 1
                    cnt[c] += 1
        if not n:
            return {}
        for c in cnt:
            obs["nf_vis"][c] = cnt[c]
        return dict({k: v.reshape(4, 4) for k, v in pl.items()}, variance=var.reshape(4, 4), uniform_filter=np.zeros((4, 4)), obs=obs, n_vis=n)

    return grid


def real(ctx, x, rng):
    from PyFHD.healpix.export import healpix_snapshot_cube_generate
    from PyFHD.io.pyfhd_io import load

    q = x["q"]
    kb = next(t for t in (q["kbin"], q["fov"], q["kpix"]) if t[1])
    kb = kb[0] / kb[1]
    out = os.path.join(ctx.scratch, "cubes")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    nt, nb, nf, npol = x["nt"], x["nb"], x["nf"], x["np"]
    off = np.arange(nt, dtype=np.int64) * nb
    ntile = len(x["tu"])
    freq = 1e8 + 1e5 * np.arange(nf)
    fov = DEG / kb
    cfg = dict(split_ps_export=x["split"], ps_kbinsize=q["kbin"][0] / q["kbin"][1] if q["kbin"][1] else None, ps_fov=DEG * q["fov"][1] / q["fov"][0] if q["fov"][1] else None,
               ps_kspan=rng.choice([None, 0]), ps_dimension=None, ps_degpix=None, ps_nfreq_avg=x["beamavg"] or None, n_avg=x["avg"], ps_beam_threshold=0.37, ps_tile_flag_list=["Tile%d" % (t + 10) for t in x["names"]],
               output_dir=Path(out), obs_id="77", rephase_weights=x["turn"] != [0, 0] or rng.random() < 0.5, image_filter="filter_uv_uniform")
    thr = rng.choice([0.37, 0, 0.5])
    cfg["ps_beam_threshold"] = thr
    how = q["dim"]
    if how == "kspan":
        cfg.update(ps_kspan=kb * 4.3, ps_dimension=rng.choice([None, 8]), ps_degpix=rng.choice([None, 1.0]))
    elif how == "dimension":
        cfg.update(ps_kspan=rng.choice([None, 0]), ps_dimension=4, ps_degpix=rng.choice([None, 1.0]))
    elif how == "degpix":
        cfg.update(ps_degpix=fov / 4.4)
    obs = dict(n_pol=npol, n_freq=nf, n_time=nt, n_tile=ntile, n_baselines=nb, freq_res=1e5, kpix=q["kpix"][0] / q["kpix"][1], degpix=fov / 4.6 if how == "obs" else 0.77, dimension=32, elements=32, obsx=16.0, obsy=16.0,
               min_baseline=0.0, max_baseline=1e9, pol_names=NAMES[:npol], nf_vis=np.full(nf, 5, np.int64), n_vis=3, residual=int(x["residual"]), phasera=1.0, phasedec=2.0, orig_phasera=1.0, orig_phasedec=2.0,
               astr=dict(naxis=np.array([32, 32]), cdelt=np.ones(2), crpix=np.ones(2)), healpix=dict(nside=0),
               baseline_info=dict(freq=freq, fbin_i=np.zeros(nf, np.int64), freq_use=np.array(x["fu"], np.int64), tile_use=np.array(x["tu"], np.int64), time_use=np.array(x["mu"], np.int64), bin_offset=off,
                                  tile_a=np.array(x["ta"] * nt, np.int64), tile_b=np.array(x["tb"] * nt, np.int64), tile_names=np.array(["Tile%d" % (t + 11) for t in range(ntile)])))
    if x["turn"] != [0, 0]:
        obs.update(orig_phasera=rng.choice([1.0, 9.0]), orig_phasedec=7.0)
    uu = np.array([50.0 if o else rng.choice([0.3, -0.3]) for o in x["out"]] * nt) * kb / 1e8
    params = dict(uu=uu, vv=np.array([rng.choice([0.2, -0.2]) for _ in range(nb)] * nt) * kb / 1e8, ww=np.zeros(nt * nb))
    psf = dict(dim=1, fbin_i=np.array([c // x["defavg"] for c in range(nf)], np.int64), mark=rng.random())
    carr = lambda a: np.array(a, float)[..., 0] + 1j * np.array(a, float)[..., 1]
    V, M, W = carr(x["vis"]), carr(x["mod"]), np.array(x["w"], float)
    mask = np.array([rng.random() for _ in range(16)]).reshape(4, 4)
    rec = dict(x=x, ok=False, nside=1, radius=False, dim=[0, 0], kpix=[0, 1], bins=[], beamargs=False, files=[], uvfiles=[], f=[])
    seen = dict(psf=psf, params=params)

    def cube(obs, psf, logger, freq_i_arr=None, pol_i_arr=None, n_freq_bin=None, square=True, beam_threshold=None):
        rec["beamargs"] = bool(psf is seen["psf"] and freq_i_arr is None and n_freq_bin == nf // x["avg"] and square and beam_threshold == thr)
        rec["bins"] = [int(v) for v in obs["baseline_info"]["fbin_i"]]
        rec["dim"] = [int(obs["dimension"]), int(obs["elements"])]
        rec["kpix"] = rat(obs["kpix"])
        return np.array(x["beam"], float).reshape(npol, -1, 4, 4), mask.copy()

    def maps(obs, m, radius, config, logger, nside=None, **k):
        rec["nside"] = whole(nside)
        rec["radius"] = bool(abs(radius * np.sqrt(2) - fov) < 1e-6 * fov and np.array_equal(m, mask) and obs["dimension"] == 4)
        obj = lambda v, dt: np.array([np.array(t, dt) for t in v] + [None], dtype=object)[:-1]
        cnv = dict(nside=nside, inds=np.arange(101, 101 + x["n"]), i_use=np.array([e["i"] for e in x["map"]], np.int64), ija=obj([e["p"] for e in x["map"]], np.int64), sa=obj([np.array(e["w"]) / 8 for e in x["map"]], float))
        return cnv, dict(obs, healpix=dict(nside=nside, n_pix=x["n"]))

    def position(ra, dec, astr, *a, **k):
        if (ra, dec) != (obs["orig_phasera"], obs["orig_phasedec"]):
            raise ValueError("another position")
        return 2.0 + x["turn"][0], 2.0 + x["turn"][1]

    with patched(beam_image_cube=cube, healpix_cnv_generate=maps, visibility_grid=toy(x, seen), radec_to_pixel=position):
        o = call(healpix_snapshot_cube_generate, obs, psf, dict(), params, V, M, W, cfg, LOG)
    if o[0] != "ok":
        return dict(rec, why=str(o)[:400])
    rec["ok"] = True
    hp = os.path.join(out, "healpix")
    rec["files"] = sorted(f for f in os.listdir(hp) if f.endswith(".h5"))
    uvd = os.path.join(hp, "uvf_grid")
    rec["uvfiles"] = sorted(os.listdir(uvd)) if os.path.isdir(uvd) else []
    k2 = 8 / kb**2
    try:
        for h in ("even", "odd") if x["split"] else ("",):
            row = []
            for p in range(npol):
                d = load(Path(hp, "77_%s_%s.h5" % ("hpx_" + h if h else "healpix_cube", NAMES[p])), LOG)
                key = [k for k in d if k in ("dirty_cube", "res_cube")]
                c = lambda k, s: [[whole(v * s) for v in r] for r in np.asarray(d[k])]
                u = {}
                for k, n in (("dirty", "dirty_uv_arr"), ("weights", "weights_uv"), ("variance", "variance_uv_arr"), ("model", "model_uv_arr")):
                    e = load(Path(uvd, "77_%s_%s_%s_gridded_uvf.h5" % (h, NAMES[p], n)), LOG)
                    u[k] = [[[whole(v.real), whole(v.imag)] for v in s.ravel()] for s in np.asarray(e[k + "_uv"], complex)]
                ob = d["obs"]
                row.append(dict(n=int(ob["n_vis"]), inds=[int(v) for v in np.atleast_1d(d["hpx_inds"])], avg=int(d["n_avg"]), key="+".join(key), beam=c("beam_squared_cube", 8), weights=c("weights_cube", k2), variance=c("variance_cube", k2),
                                model=c("model_cube", k2), data=c(key[0], k2), uv=u, noise=[rat(2 * float(v) ** 2, maxden=40000) for v in np.atleast_1d(ob["vis_noise"][p])]))
            rec["f"].append(row)
    except (KeyError, IndexError, FileNotFoundError, ValueError, TypeError) as e:
        want = rec["files"] and rec["uvfiles"]
        return dict(rec, ok=False, f=[], why=repr(e)) if want else dict(rec, f=[])
    return rec


def world(rng, **fix):
    npol, nf, nt, nb = rng.choice([1, 2, 2, 4]), rng.choice([1, 2, 3, 4, 5]), rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3])
    split = nt > 1 and rng.random() < 0.6
    avg = rng.choice([a for a in (1, 1, 2, 3, 4) if a <= nf])
    npol, nf, nt, nb, split, avg = [fix.get(k, v) for k, v in zip(("np", "nf", "nt", "nb", "split", "avg"), (npol, nf, nt, nb, split, avg))]
    ntile = rng.choice([2, 3, 4])
    pairs = [(i, j) for i in range(1, ntile + 1) for j in range(i, ntile + 1)]
    pr = [rng.choice(pairs) for _ in range(nb)]
    mask = lambda n, p: [0 if rng.random() < p else 1 for _ in range(n)]
    mu = mask(nt, rng.choice([0, 0.25]))
    if not any(mu):
        mu[-1] = 1
    n = rng.choice([1, 2, 3])
    cells = sorted(rng.sample(range(16), rng.randint(1, 5)))
    ks = [[1, 2], [1, 1], [2, 1], [3, 2]]
    dense = rng.random() < 0.5
    return dict(np=npol, nf=nf, nt=nt, nb=nb, ta=[a for a, _ in pr], tb=[b for _, b in pr], out=[rng.random() < 0.1 for _ in pr], names=sorted(rng.sample(range(1, ntile + 1), rng.choice([0, 0, 0, 1]))),
                tu=mask(ntile, 0 if dense else 0.15), fu=mask(nf, 0 if dense else 0.25), mu=mu, avg=avg, split=split, turn=rng.choice([[0, 0], [1, 0], [0, 1], [2, 3], [-1, 1]]), residual=rng.random() < 0.3,
                w=[[[1 if dense and rng.random() < 0.9 else rng.choice([1, 1, 2, 0, -1]) for _ in range(nt * nb)] for _ in range(nf)] for _ in range(npol)],
                vis=[[[[rng.randint(-4, 4), rng.randint(-4, 4)] for _ in range(nt * nb)] for _ in range(nf)] for _ in range(npol)],
                mod=[[[[rng.randint(-4, 4), rng.randint(-4, 4)] for _ in range(nt * nb)] for _ in range(nf)] for _ in range(npol)],
                beam=[[[rng.randint(0, 5) for _ in range(16)] for _ in range(nf // avg)] for _ in range(npol)], n=n, map=[dict(i=i, p=rng.sample(range(n), k), w=[rng.randint(1, 8) for _ in range(k)]) for i in cells for k in [rng.randint(1, n)]],
                beamavg=rng.choice([0, 1, 2]), defavg=rng.choice([1, nf]),
                q=dict(kbin=rng.choice([[0, 0]] + ks), fov=rng.choice([[0, 0]] + ks), kpix=rng.choice(ks), dim=rng.choice(["kspan", "dimension", "degpix", "obs"])))


def finish(x):
    x["im"] = [[[v[1] for v in c] for c in p] for p in x["vis"]]
    return x


def lit(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, dict):
        return "[%s]" % ", ".join("%s |-> %s" % (k, lit(t)) for k, t in v.items())
    if isinstance(v, list):
        return "<<%s>>" % ", ".join(lit(t) for t in v)
    return '"%s"' % v if isinstance(v, str) else str(v)


def run(ctx):
    rng = ctx.rng
    logging.getLogger().setLevel(logging.CRITICAL)
    # the model: every weight, channel mask, averaging and split of a small observation
    for np_, nt, nb in ctx.n([(2, 2, 1), (1, 3, 1)], [(2, 2, 1), (1, 3, 1), (1, 2, 2), (1, 4, 1)]):
        x0 = finish(world(rng, np=np_, nf=2, nt=nt, nb=nb, avg=1))
        x0.update(mu=[1] * nt, fu=[1, 1], names=[], tu=[1] * len(x0["tu"]), out=[False] * nb, beamavg=1)
        res = tlc.run(ctx, "Cube", constants=dict(World=lit(x0), Wts="{0, 1}"), invariants=["NeverTwice", "AllUsed", "OnlyUsable", "Counts", "Balanced", "AddUp", "Emit"])
        ctx.count("spec_behaviours", len(res.cases))
        for c in rng.sample(res.cases, min(len(res.cases), ctx.n(30, 400))):
            x = dict(copy.deepcopy(x0), w=c["w"], fu=list(c["fu"]), avg=c["avg"], split=c["split"])
            x["beam"] = [b[: 2 // x["avg"]] for b in x["beam"]]
            r = real(ctx, x, rng)
            ctx.replayed()
            if not r["ok"] or not r["f"]:
                ctx.violation("replay:returns", "the cubes of %s: %s" % (x, r.get("why") or r["files"]), r)
                continue
            for i, row in enumerate(c["c"]):
                for p, cu in enumerate(row):
                    for k in cu:
                        if r["f"][i][p][k] != cu[k]:
                            ctx.violation("replay:%s-cube" % k, "the %s cube of half %d, polarisation %d of %s is %s instead of %s" % (k, i, p, x, r["f"][i][p][k], cu[k]), dict(x=x, case=c, real=r))
    recs = [real(ctx, finish(world(rng)), rng) for _ in range(ctx.n(110, 1500))]
    for i, v in sorted(tlc.judge(ctx, "CubeOps", "KVerdict", recs).items()):
        for cl in v:
            ctx.violation("judge:" + cl, "%s: the cubes of %s %s" % (cl, recs[i]["x"], recs[i].get("why", "")), recs[i])
    ctx.sample(recs[0]["x"])
    ctx.assumptions = ["gridding, the map and the beams are given to the export (P13, P21)", "every integration has the same baselines in the same order", "the cubes' grid has 4 by 4 cells, so that images are exact"]
