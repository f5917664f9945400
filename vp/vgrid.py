"""Real gridding of integer layouts (VisGridOps.tla)."""
import copy
import io

import numpy as np

from . import grid
from .core import call, rat

LOG = grid.LOG


def kernels(rng, ng, res, psf, n=3):
    return [[[[[rng.randint(-n, n), rng.randint(-n, n)] for _ in range(psf * psf)] for _ in range(res + 1)] for _ in range(res + 1)] for _ in range(ng)]


def carr(a):
    a = np.array(a, float)
    return a[..., 0] + 1j * a[..., 1]


def obs_of(o, npol=1):
    b = grid.obs_of(o, npol)
    b["baseline_info"]["fbin_i"] = np.array(o["fb"], np.int64) - 1
    b["n_baselines"] = o["nbt"]
    b["nf_vis"] = np.full(len(o["f"]), -7, np.int64)
    b["n_vis"] = -7
    b["obsra"], b["obsdec"] = 30.0, 0.0
    return b


def psf_of(o, pol=0, npol=1, h5=False):
    """the kernels of another polarisation are spoilt, so that taking them shows"""
    K = carr(o["K"])
    P = np.full((npol,) + K.shape, 17 + 19j)
    P[pol] = K
    ids = np.array(o["ids"], np.int64)
    d = dict(dim=o["psf"], resolution=o["res"], beam_ptr=P, id=np.stack([ids if p == pol else ids[::-1] * 0 for p in range(npol)]))
    if o.get("bp"):
        N, bp, kp = 8, o["bp"], o["kpix"]
        l, m = bp["kl"] * o["U"] / (4 * kp), bp["km"] * o["U"] / (4 * kp)
        r, c = N // 2 + bp["ty"] * N // 4, N // 2 + bp["tx"] * N // 4
        im = np.zeros((npol, N, N), complex)
        im[pol, r, c] = N * N
        dec, ra = np.full((N, N), 11.0), np.full((N, N), 7.0)
        dec[r, c] = np.degrees(np.arcsin(m))
        ra[r, c] = 30 + np.degrees(np.arcsin(l / np.cos(np.arcsin(m))))
        d["image_info"] = dict(psf_image_dim=N, image_power_beam_arr=im, ra_arr=ra, dec_arr=dec)
        d["beam_mask_threshold"] = 100.0
        return d
    if not h5:
        return d
    import h5py

    f = h5py.File(io.BytesIO(), "w")
    # the sizes are numbers or arrays of one
    one = (lambda v: np.array([v])) if len(o["u"]) % 2 else (lambda v: v)
    f["dim"], f["resolution"] = one(o["psf"]), one(o["res"])
    f["beam_ptr"], f["id"] = d["beam_ptr"], d["id"]
    return f


def cfg_of(s):
    return dict(interpolate_kernel=s["interp"], mask_mirror_indices=s["half"], beam_per_baseline=s["bpb"], grid_spectral=s["gs"], grid_weights=s["gw"],
                grid_variance=s["gv"], grid_uniform=s["gu"], image_filter="filter_uv_uniform", beam_clip_floor=s.get("clip", False))


def ints(a, scale):
    a = np.asarray(a) * scale
    if np.iscomplexobj(a):
        return [[[iv(x.real), iv(x.imag)] for x in r] for r in a]
    return [[iv(x) for x in r] for r in a]


def iv(x):
    if not np.isfinite(x) or abs(x) > 1e9:
        return 999999999
    k = int(round(x))
    return k if abs(x - k) < 1e-4 * max(1, abs(x)) ** 0.25 else 999999998


def grid_once(o, s, pol=0, npol=1, h5=False, raw=False):
    from PyFHD.gridding.visibility_grid import visibility_grid

    obs, par, psf = obs_of(o, npol), grid.params_of(o), psf_of(o, pol, npol, h5)
    V, W = carr(o["vis"]), np.array(o["w"], float)
    M = carr(o["mod"]) if o["mod"] else None
    before = copy.deepcopy((V, W, M, par, {k: v for k, v in obs.items() if k != "nf_vis"}))
    arg = {}
    if s["fi"]:
        arg["fi_use"] = np.array(s["fi"]) - 1
    if s["bi"]:
        arg["bi_use"] = np.array(s["bi"]) - 1
    out = call(visibility_grid, V, W, obs, psf, par, pol, cfg_of(s), LOG, uniform_flag=s["uni"], no_conjugate=not s["conj"], model=M, **arg)
    if raw:
        return out
    rec = dict(o=o, s=s, ok=out[0] == "ok", none=False, kept=True, n=0, img=[], mod=[], wts=[], var=[], cnt=[], gus=1, nf=[], spec=[], specm=[], why=str(out)[:200] if out[0] != "ok" else "")
    if out[0] != "ok":
        return rec
    now = (V, W, M, par, {k: v for k, v in obs.items() if k != "nf_vis"})
    rec["kept"] = same(before, now)
    d = out[1]
    if not d:
        rec["none"] = True
        return rec
    n = int(d["n_vis"])
    rec["n"] = n
    h = 2 if s["conj"] else 1
    U2 = o["U"] ** 2
    g = 1
    if s["gu"]:
        g = rec["gus"] = 12 * int(np.sum(np.asarray(d["uniform_filter"]) > 0))
    rec["img"] = ints(np.asarray(d["image_uv"], complex), n * U2 * h * g)
    rec["wts"] = ints(np.asarray(d["weights"], complex), n * U2 * h * g)
    rec["var"] = ints(np.asarray(d["variance"]), n * U2 * U2 * h * h * g)
    rec["cnt"] = ints(np.asarray(d["uniform_filter"]), h)
    rec["mod"] = ints(np.asarray(d["model_return"], complex), n * U2 * h * g) if M is not None else []
    rec["nf"] = [int(x) for x in d["obs"]["nf_vis"]]
    if s["gs"]:
        q = lambda a: [[[rat(x.real, 100000), rat(x.imag, 100000)] for x in r] for r in np.asarray(a)]
        rec["spec"] = q(d["spectral_uv"])
        rec["specm"] = q(d["spectral_model_uv"]) if M is not None else []
    return rec


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
    return a == b or (a is None and b is None)


def layout(rng, nb=None, nf=None, small=False):
    o = grid.layout(rng, nb or rng.choice([1, 2, 3, 4, 6, 8]), nf or rng.choice([1, 2, 3, 4]))
    if small:
        o["dim"], o["el"] = rng.choice([(8, 8), (8, 8), (8, 10), (10, 8)])
    if rng.random() < 0.75:  # most samples on the grid, many of them on top of each other
        lim = max(1, (min(o["dim"], o["el"]) // 2 - o["psf"] // 2 - 1) * o["U"] // max(o["f"]))
        o["u"] = [rng.randint(-lim, lim) for _ in o["u"]]
        o["v"] = [rng.randint(-lim, lim) for _ in o["v"]]
        o["mn"], o["mx"] = 0, 10**4
        if rng.random() < 0.7:
            j = rng.randrange(len(o["u"]))
            for i in range(len(o["u"])):
                if rng.random() < 0.5:
                    k = rng.choice([1, 1, -1])
                    o["u"][i], o["v"][i] = k * o["u"][j], k * o["v"][j]
    crowd = rng.random() < 0.45
    if crowd:  # a crowd in a few cells, at several offsets and with several kernels
        o["f"] = [rng.choice([1, 1, 1, 2]) for _ in o["f"]]
        o["dim"], o["el"], o["psf"] = *rng.choice([(6, 6), (8, 6), (6, 8), (8, 8)]), 2
        o["U"] = rng.choice([2, 2, 4, 8])
        o["u"] = [rng.choice([0, 0, 1, 1, rng.randint(-1, 3)]) for _ in o["u"]]
        o["v"] = [-rng.choice([0, 0, 1, 1, rng.randint(-1, 3)]) for _ in o["v"]]
        o["mn"], o["mx"] = 0, 10**4
        o["w"] = [[rng.choice([1, 1, 1, 1, 1, 0]) for _ in r] for r in o["w"]]
        o["fu"] = [1 for _ in o["fu"]]
    nb, nf = len(o["u"]), len(o["f"])
    ng = rng.choice([1, 2, 3] if crowd else [1, 1, 2, 3])
    fb = sorted(rng.randint(1, ng) for _ in range(nf))
    o["fb"] = fb
    o["res"] = rng.choice([1, 2, 2, 3, 4]) if not crowd else rng.choice([2, 2, 3, 4])
    o["crowd"] = crowd
    o["K"] = kernels(rng, ng, o["res"], o["psf"])
    o["nbt"] = rng.choice([d for d in range(1, nb + 1) if nb % d == 0])
    n = o["nbt"] + rng.choice([0, 0, 2])
    o["ids"] = [[rng.randint(0, 2) for _ in range(n)] for _ in range(ng)]
    z = lambda: [rng.randint(-9, 9), rng.randint(-9, 9)]
    o["vis"] = [[z() for _ in range(nb)] for _ in range(nf)]
    o["mod"] = [[z() for _ in range(nb)] for _ in range(nf)] if rng.random() < 0.5 else []
    return o


def selection(rng, o):
    s = grid.selection(rng, o, all_ok=False)
    s["bpb"] = False
    if rng.random() < 0.15:
        o["U"] = min(o["U"], 4)
        o["kpix"], o["res"], o["K"] = 2.0, 2, []
        o["bp"] = dict(kl=rng.choice([-1, 0, 1]), km=rng.choice([-1, 0, 1]), tx=rng.choice([-1, 0, 1]), ty=rng.choice([-1, 0, 1]))
        o["K"] = kernels(rng, max(o["fb"]), 2, o["psf"])
        s.update(bpb=True, interp=False, conj=rng.random() < 0.6, uni=rng.random() < 0.5, gu=False, gs=False, gw=True, gv=True, clip=o["bp"]["tx"] == 0 == o["bp"]["ty"] and rng.random() < 0.5)
        return s
    s.update(conj=rng.random() < 0.6, uni=rng.random() < 0.5, gu=False, gs=False, gw=rng.random() < 0.85, gv=rng.random() < 0.85)
    if o["U"] > 4 and o["psf"] == 4:
        s["interp"] = False
    if o["crowd"] and rng.random() < 0.8:
        s["interp"] = False
    k = rng.random()
    if k < 0.12:
        s["gu"], s["conj"] = True, False
    elif k < 0.27 and len(o["f"]) > 1:
        o["U"] = 1
        s.update(gs=True, conj=False, interp=True)
    return s


def count_once(o, s):
    from PyFHD.gridding.gridding_utils import visibility_count

    obs, par, psf = obs_of(o), grid.params_of(o), psf_of(o)
    arg = {}
    if s["fi"]:
        arg["fi_use"] = np.array(s["fi"]) - 1
    if s["bi"]:
        arg["bi_use"] = np.array(s["bi"]) - 1
    out = call(visibility_count, obs, psf, par, np.array(o["w"], float), LOG, mask_mirror_indices=s["half"], no_conjugate=not s["conj"], fill_model_visibilities=s["all"], **arg)
    rec = dict(o=dict(o, K=[], vis=[], mod=[]), s=s, ok=out[0] == "ok", cnt=[], why=str(out)[:200] if out[0] != "ok" else "")
    if rec["ok"]:
        rec["cnt"] = ints(out[1], 2 if s["conj"] else 1)
    return rec


def split_once(o, s, avg, bi, scratch, pol, npol, fft):
    """vis_model_freq_split: planes of every slice, from what it saves and from what it returns"""
    import os

    from PyFHD.healpix.healpix_utils import vis_model_freq_split
    from PyFHD.io.pyfhd_io import load

    obs, par, psf = obs_of(o, npol), grid.params_of(o), psf_of(o, pol, npol)
    names = ["XX", "YY", "XY", "YX"][:npol]
    obs.update(degpix=1.0, pol_names=names, phasera=0, orig_phasera=0, phasedec=0, orig_phasedec=0)
    V = np.full((npol, len(o["f"]), len(o["u"])), 31 - 7j)
    M = np.full(V.shape, 5 + 3j)
    W = np.array([o["w2"] if p == 1 - pol else o["w"] for p in range(npol)], float)
    V[pol], M[pol] = carr(o["vis"]), carr(o["mod"])
    cfg = dict(cfg_of(s), n_avg=avg, rephase_weights=o.get("rephase", False), output_dir=scratch, obs_id="1", )
    arg = {}
    if bi:
        arg["bi_use"] = np.array(bi) - 1
    out = call(vis_model_freq_split, obs, psf, par, W, M, V, pol, cfg, LOG, fft=fft, save_uvf=True, uvf_name="even", **arg)
    used = bi or [b + 1 for b in range(len(o["u"])) if any(max(o["w"][c][b], o["w2"][c][b] if npol > 1 and pol < 2 else 0) > 0 for c in range(len(o["f"])))]
    rec = dict(o=o, s=s, avg=avg, bi=used, ok=out[0] == "ok", sl=[], n=0, why=str(out)[:200] if out[0] != "ok" else "")
    if out[0] != "ok":
        return rec
    d = {}
    for k, n in (("dirty_uv", "dirty_uv_arr"), ("weights_uv", "weights_uv"), ("variance_uv", "variance_uv_arr"), ("model_uv", "model_uv_arr")):
        f = os.path.join(scratch, "healpix", "uvf_grid", "1_even_%s_%s_gridded_uvf.h5" % (names[pol], n))
        d[k] = load(f, LOG)[k] if os.path.exists(f) else np.zeros((0,))
    if not fft:
        r = out[1]
        d2 = dict(dirty_uv=r["residual_arr"], weights_uv=r["weights_arr"], variance_uv=r["variance_arr"], model_uv=r["model_arr"])
        if not all(np.array_equal(d[k], d2[k]) for k in d):
            d["dirty_uv"] = d["dirty_uv"] * 0 + 12345
    h, U2 = (2 if s["conj"] else 1), o["U"] ** 2
    for j in range(len(d["dirty_uv"])):
        g = lambda k, q: ints(np.asarray(d[k][j], complex), q)
        rec["sl"].append(dict(img=g("dirty_uv", U2 * h), wts=g("weights_uv", U2 * h), mod=g("model_uv", U2 * h), var=g("variance_uv", U2 * U2 * h * h)))
    rec["n"] = int(out[1]["obs"]["n_vis"])
    return rec


KEYS = ("img", "mod", "wts", "var", "cnt")


def parts_of(rng, n):
    """a partition of 1..n into ordered parts"""
    k = rng.randint(2, max(2, min(4, n)))
    lab = [rng.randrange(k) for _ in range(n)]
    return [p for p in ([i + 1 for i in range(n) if lab[i] == j] for j in range(k)) if p]


def planes(r, o, s):
    """exact integer planes of a record of grid_once"""
    z = [[[0, 0]] * o["dim"] for _ in range(o["el"])]
    c = lambda rows: [[x if isinstance(x, list) else [x, 0] for x in row] for row in rows] or z
    return dict({k: c(r[k]) if not r["none"] else z for k in KEYS}, n=r["n"])


def floats(rng, o, n, per=False):
    """replace the integer data by n-digit random values (kernels stay), for runs that are compared with each other"""
    z = lambda: [round(rng.uniform(-9, 9), n), round(rng.uniform(-9, 9), n)]
    o["vis"] = [[z() for _ in r] for r in o["vis"]]
    if o["mod"]:
        o["mod"] = [[z() for _ in r] for r in o["mod"]]
    return o
