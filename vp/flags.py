"""Real flagging steps from the observations of FlagOps.tla."""
import copy

import numpy as np

from . import grid
from .core import call

NAMES = ["Tile011", "Tile012", "Tile013", "Tile014", "T015", "T16", "LBA1", "LBA2", "HexE1"]


def names(n):
    return np.array([NAMES[i] if i < len(NAMES) else "X%d" % i for i in range(n)])


def build(o, st, ncol=4):
    """observation, parameters, kernel and weights of a state; o.tm must be sorted"""
    obs = grid.obs_of(o, npol=o["np"], ntime=len(st["mu"]))
    b = obs["baseline_info"]
    tm = np.array(o["tm"])
    b["bin_offset"] = np.array([int(np.argmax(tm >= t + 1)) if (tm >= t + 1).any() else len(tm) for t in range(len(st["mu"]))], np.int64)
    b["time_use"] = np.array(st["mu"], np.int64)
    b["tile_use"] = np.array(st["tu"], np.int64)
    b["freq_use"] = np.array(st["fu"], np.int64)
    b["tile_names"] = names(len(st["tu"]))
    obs["n_tile"] = len(st["tu"])
    obs["n_baselines"] = max(1, len(tm) // max(1, len(st["mu"])))
    obs["n_time_flag"] = obs["n_tile_flag"] = obs["n_freq_flag"] = -7
    return obs, grid.params_of(o), grid.psf_of(o), np.array(st["w"], float)


def state(obs, w):
    b = obs["baseline_info"]
    num = lambda x: int(x) if x == int(x) else 99999
    ints = lambda a: [num(float(x)) for x in np.asarray(a, float).ravel()]
    return dict(w=[[[num(x) for x in r] for r in c] for c in np.asarray(w, float)], tu=ints(b["tile_use"]), fu=ints(b["freq_use"]), mu=ints(b["time_use"]))


def n(obs, k):
    try:
        return int(obs[k])
    except Exception:
        return -9


def limit(k, gap, q):
    """a frequency limit in MHz that keeps channel k: the channel's own frequency where that is exact in both units, or half a channel further"""
    exact = k / 1e6 * 1e6 == k and k * 1e-6 == k / 1e6
    return (k / 1e6 if exact and q.get("at", True) else (k + gap) * 1e-6) if k else None


def step(o, st, name, q=None, data=None, **kw):
    """one real step; record of FlagOps.tla"""
    from PyFHD.flagging.flagging import vis_flag, vis_flag_basic, vis_flag_tiles
    from PyFHD.pyfhd_tools.pyfhd_utils import vis_weights_update

    obs, par, psf, w = build(o, st)
    before = copy.deepcopy(data)
    if name == "names":
        tn = obs["baseline_info"]["tile_names"]
        req = [str(tn[t - 1]) for t in q["tiles"]] + ["nobody", " "]
        out = call(vis_flag_tiles, obs, w, req, grid.LOG)
        if out[0] == "ok":
            out = ("ok", (out[1], obs))
    elif name == "basic":
        tn = obs["baseline_info"]["tile_names"]
        cfg = dict(flag_freq_start=limit(q["lo"], -0.5, q), flag_freq_end=limit(q["hi"], 0.5, q),
                   flag_tiles=[str(tn[t - 1]) + " " * (t % 2) for t in q["tiles"]], flag_frequencies=q["edges"], instrument="mwa")
        vis = np.array(q["data"], float) * (0.5 + 0.25j)
        out = call(vis_flag_basic, w, vis, obs, cfg, grid.LOG)
    elif name == "update":
        keep = copy.deepcopy(par)
        out = call(vis_weights_update, w, obs, psf, par)
        if out[0] == "ok" and any((keep[k] != par[k]).any() for k in keep):
            out = ("raise", "the baseline coordinates were changed", "")
    elif name == "outlier":
        out = call(vis_flag, data, w, obs, par, grid.LOG)
        if out[0] == "ok" and (before != data).any():
            out = ("raise", "the visibilities were changed", "")
    elif name == "gains":
        from PyFHD.calibration.calibration_utils import vis_calibration_flag

        keep = copy.deepcopy(data)
        out = call(vis_calibration_flag, obs, data, dict(cal_amp_degree_fit=2, cal_phase_degree_fit=1, flag_calibration_frequencies=kw["withf"]), grid.LOG)
        if out[0] == "ok":
            out = ("ok", (w, out[1])) if (keep["gain"] == data["gain"]).all() else ("raise", "the gains were changed", "")
    rec = dict(o=o, a=st, step=name, ok=out[0] == "ok", q=q or {}, nt=0, nf=0, nm=0, nv=0, b=st, **kw)
    if out[0] != "ok":
        rec["why"] = str(out)[:300]
        return rec
    w2, obs2 = out[1]
    rec["b"] = state(obs2, w2)
    rec.update(nt=n(obs2, "n_tile_flag"), nf=n(obs2, "n_freq_flag"), nm=n(obs2, "n_time_flag"), nv=n(obs2, "n_vis"))
    return rec


def rows(ntile, ntime, autos=False):
    ta, tb, tm = [], [], []
    for t in range(ntime):
        for i in range(1, ntile + 1):
            for j in range(i if autos else i + 1, ntile + 1):
                ta.append(i), tb.append(j), tm.append(t + 1)
    return ta, tb, tm


def observation(rng, nf=None, ntile=None, ntime=None):
    nf = nf or rng.choice([1, 2, 3, 4])
    ntile = ntile or rng.choice([2, 3, 4])
    ntime = ntime or rng.choice([1, 2, 3])
    autos = rng.random() < 0.4
    ta, tb, tm = rows(ntile, ntime, autos)
    if rng.random() < 0.25:  # an integration lacks a row
        i = rng.randrange(len(tm))
        if tm.count(tm[i]) > 1:
            del ta[i], tb[i], tm[i]
    if rng.random() < 0.15:  # a tile without baselines
        t = rng.randint(1, ntile)
        keep = [i for i in range(len(ta)) if t not in (ta[i], tb[i])]
        if {tm[i] for i in keep} == set(tm):
            ta, tb, tm = [[v[i] for i in keep] for v in (ta, tb, tm)]
    o = grid.layout(rng, nb=len(ta), nf=nf)
    o["f"] = sorted(set(o["f"])) if len(set(o["f"])) == nf else list(range(1, nf + 1))
    if rng.random() < 0.5:  # most of it on the grid
        r = o["dim"] * o["U"] // (4 * max(o["f"]))
        o["u"] = [rng.randint(-r, r) for _ in ta]
        o["v"] = [rng.randint(-r, r) for _ in ta]
    o.update(ta=ta, tb=tb, tm=tm, np=rng.choice([1, 2, 2, 4]))
    return o


def start(rng, o, ntile):
    nt = max(o["tm"])
    st = dict(w=[[[rng.choice([1, 1, 1, 1, 1, 2, 0, -1]) for _ in o["u"]] for _ in o["f"]] for _ in range(o["np"])],
              tu=[rng.choice([1, 1, 1, 1, 0]) for _ in range(ntile)], fu=[rng.choice([1, 1, 1, 0]) for _ in o["f"]], mu=[rng.choice([1, 1, 1, 0]) for _ in range(nt)])
    for _ in range(rng.choice([0, 1, 2])):  # whole units flagged in one or all polarisations
        ps = rng.choice([[rng.randrange(o["np"])], list(range(o["np"]))])
        what = rng.random()
        for p in ps:
            if what < 0.4:
                c = rng.randrange(len(o["f"])) if p == ps[0] else c
                st["w"][p][c] = [rng.choice([0, -1]) for _ in o["u"]]
            elif what < 0.8:
                t = rng.randint(1, ntile) if p == ps[0] else t
                for c in range(len(o["f"])):
                    st["w"][p][c] = [0 if t in (o["ta"][i], o["tb"][i]) else x for i, x in enumerate(st["w"][p][c])]
    gone = [t for t in range(1, ntile + 1) if t not in o["ta"] and t not in o["tb"]]
    if gone and rng.random() < 0.7:  # only a tile without baselines is flagged
        st["tu"] = [0 if t in gone else 1 for t in range(1, ntile + 1)]
        st["w"] = [[[1] * len(r) for r in c] for c in st["w"]]
    return st


def update_record(rng):
    o = observation(rng)
    ntile = max(o["tb"])
    st = start(rng, o, ntile)
    if rng.random() < 0.3:  # hardly any tile flagged
        st["tu"] = [1] * ntile
        st["tu"][rng.randrange(ntile)] = 0
    return step(o, st, "update")
