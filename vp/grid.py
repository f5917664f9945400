"""Real grid locations and gridding from integer layouts."""
import logging

import numpy as np

from .core import call

LOG = logging.getLogger("vp")
LOG.addHandler(logging.NullHandler())
LOG.propagate = False


def obs_of(o, npol=1, ntime=1):
    """o: layout of GridOps.tla; kpix is a power of two so that every product is exact"""
    kp = o.get("kpix", 0.5)
    f = np.array(o["f"], float)
    nb = len(o["u"])
    return {
        "dimension": o["dim"], "elements": o["el"], "kpix": kp, "n_freq": len(f), "n_pol": npol, "n_time": ntime,
        "n_tile": o.get("n_tile", 4), "n_baselines": o.get("n_baselines", nb), "n_vis": 0, "nf_vis": np.zeros(len(f), np.int64),
        "min_baseline": o["mn"] * kp / o["U"], "max_baseline": o["mx"] * kp / o["U"],
        "baseline_info": {
            "freq": f, "freq_use": np.array(o["fu"], np.int64), "fbin_i": np.array(o.get("fbin", [0] * len(f)), np.int64),
            "tile_a": np.array(o.get("ta", [1] * nb), np.int64), "tile_b": np.array(o.get("tb", [2] * nb), np.int64),
            "tile_use": np.ones(o.get("n_tile", 4), np.int64),
        },
    }


def params_of(o):
    kp = o.get("kpix", 0.5)
    return {"uu": np.array(o["u"], float) * kp / o["U"], "vv": np.array(o["v"], float) * kp / o["U"], "ww": np.zeros(len(o["u"]))}


def psf_of(o, **kw):
    return dict(dim=o["psf"], resolution=o["res"], **kw)


def locations(o, s):
    """outcome of the real baseline_grid_locations as a record of GridOps.tla (None: argument arrays were changed)"""
    from PyFHD.gridding.gridding_utils import baseline_grid_locations

    obs, par, psf = obs_of(o), params_of(o), psf_of(o)
    w = np.array(o["w"], float)
    lazy = None
    if s.get("lazy"):
        import h5py

        lazy = psf = h5py.File("psf", "w", driver="core", backing_store=False)
        lazy["dim"], lazy["resolution"] = o["psf"], [float(o["res"])] if s["lazy"] > 1 else o["res"]
    arg = dict(fill_model_visibilities=s["all"], interp_flag=s["interp"], mask_mirror_indices=s["half"])
    if s["fi"]:
        arg["fi_use"] = np.array(s["fi"]) - 1
    if s["bi"]:
        arg["bi_use"] = np.array(s["bi"]) - 1
    out = call(baseline_grid_locations, obs, psf, par, w, LOG, **arg)
    if lazy is not None:
        lazy.close()
    rec = dict(o=o, s=s, ok=out[0] == "ok", n=0, bi=[], xmin=[], ymin=[], xoff=[], yoff=[], frac=[], lists=[], counts=[], nbin=0, why=str(out)[:200] if out[0] != "ok" else "")
    if out[0] != "ok":
        return rec
    d = out[1]
    ints = lambda a: [int(x) if float(x) == int(x) else 99999 for x in np.asarray(a).ravel()]
    rec["n"] = int(np.size(d["xmin"]))
    for k, n in (("xmin", "xmin"), ("ymin", "ymin"), ("xoff", "x_offset"), ("yoff", "y_offset")):
        rec[k] = ints(d[n])
    if s["interp"]:
        U2 = o["U"] ** 2
        q = [np.asarray(d[n]).ravel() * U2 for n in ("dx0dy0_arr", "dx0dy1_arr", "dx1dy0_arr", "dx1dy1_arr")]
        rec["frac"] = [[int(round(x)) if abs(x - round(x)) < 1e-6 else 99999 for x in t] for t in zip(*q)]
    if "bi_use" in d:
        rec["bi"] = [int(x) + 1 for x in np.asarray(d["bi_use"]).ravel()]
    nb = int(d["n_bin_use"])
    rec["nbin"] = nb
    for j in range(nb):
        b = int(d["bin_i"][j])
        rec["lists"].append([b, [int(x) for x in d["ri"][d["ri"][b]:d["ri"][b + 1]]]])
        rec["counts"].append(int(d["bin_n"][b]))
    return rec


def layout(rng, nb=None, nf=None, big=False):
    U = rng.choice([1, 2, 4, 8])
    nf = nf or rng.choice([1, 1, 2, 3, 4])
    nb = nb or rng.choice([1, 2, 3, 5, 8])
    dim, el = rng.choice([(8, 8), (8, 8), (12, 12), (8, 12), (14, 8), (16, 16)])
    f = list(range(1, nf + 1)) if nf > 5 else sorted(rng.sample([1, 2, 3, 4, 5], nf)) if rng.random() < 0.7 else [rng.choice([1, 2, 3]) for _ in range(nf)]
    reach = max(dim, el) * U // (2 * max(f)) + 2
    u = [rng.randint(-reach, reach) for _ in range(nb)]
    v = [rng.choice([rng.randint(-reach, reach), rng.randint(-reach, 0), 0]) for _ in range(nb)]
    if nb > 2 and rng.random() < 0.6:  # coincident and mirrored baselines
        i, j = rng.sample(range(nb), 2)
        s = rng.choice([1, -1])
        u[j], v[j] = s * u[i], s * v[i]
    mn, mx = rng.choice([(0, 10**4), (0, 10**4), (0, 10**4), (5, 10**4), (0, 25), (3, 40), (10, 15)])
    fu = [1 if rng.random() < 0.85 else 0 for _ in range(nf)]
    w = [[rng.choice([1, 1, 1, 1, 0, -1]) for _ in range(nb)] for _ in range(nf)]
    return dict(dim=dim, el=el, psf=rng.choice([2, 2, 4]), res=rng.choice([1, 2, 4, 3, 10]), U=U, f=f, u=u, v=v, mn=mn, mx=mx, w=w, fu=fu, kpix=rng.choice([0.5, 1.0, 2.0, 0.25]))


def selection(rng, o, all_ok=True):
    nf, nb = len(o["f"]), len(o["u"])
    s = dict(all=all_ok and rng.random() < 0.15, half=rng.random() < 0.2, interp=rng.random() < 0.5, fi=[], bi=[], lazy=rng.choice([0, 0, 0, 0, 1, 2]))
    if not s["all"]:
        if rng.random() < 0.5:
            s["fi"] = sorted(rng.sample(range(1, nf + 1), rng.randint(1, nf)))
        if rng.random() < 0.5:
            s["bi"] = rng.sample(range(1, nb + 1), rng.randint(1, nb))
            if rng.random() < 0.7:
                s["bi"].sort()
    return s
