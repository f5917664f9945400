"""P21 the HEALPix projection."""
import logging
import os
from contextlib import contextmanager
from pathlib import Path

import h5py
import healpy
import numpy as np

from .. import tlc
from ..core import call, rat
from ..grid import LOG
from . import p18

NS = 4


@contextmanager
def patched(**new):
    """Replace names wherever the HEALPix code looks them up."""
    from PyFHD.beam_setup import beam_utils
    from PyFHD.healpix import export, healpix_utils
    from PyFHD.pyfhd_tools import unit_conv

    old = []
    for m in (healpix_utils, export, unit_conv, beam_utils):
        for k, v in new.items():
            if hasattr(m, k):
                old.append((m, k, getattr(m, k)))
                setattr(m, k, v)
    try:
        yield
    finally:
        for m, k, v in old:
            setattr(m, k, v)


def centre(ns, i):
    return healpy.pix2ang(ns, i, lonlat=True)


def which(ns, ra, dec):
    ra, dec = np.atleast_1d(np.asarray(ra, float)), np.atleast_1d(np.asarray(dec, float))
    i = healpy.ang2pix(ns, ra, dec, lonlat=True)
    a, b = centre(ns, i)
    d = (a - ra + 180) % 360 - 180
    if (np.abs(d) * np.cos(np.radians(b)) > 1e-5).any() or (np.abs(b - dec) > 1e-5).any():
        raise ValueError("positions that are not those of pixels")
    return i


def w64(v):
    q = rat(float(v) * 64)
    return q[0] if q[1] == 1 else 1999999998


def near_ids(ns, ra, dec, radius):
    v = healpy.ang2vec(ra, dec, lonlat=True)
    d = np.degrees(np.arccos(np.clip(np.array(healpy.pix2vec(ns, np.arange(12 * ns * ns))).T @ v, -1, 1)))
    if (np.abs(d - radius) < 1e-3).any():
        return None
    return set(np.nonzero(d < radius)[0].tolist())


def generate(ctx, rng, x, ids=True):
    """ids: give the pixels the numbers of real ones."""
    from PyFHD.healpix import healpix_utils as H

    x = dict(x, pix=[dict(p) for p in x["pix"]])
    ns = x["want"]
    n = len(x["pix"])
    while True:
        ra, dec, radius = rng.uniform(0, 360), rng.uniform(-60, 60), rng.uniform(35, 80)
        near = near_ids(ns, ra, dec, radius)
        if near is None:
            continue
        if not ids:
            break
        pool = sorted(rng.sample(range(12 * ns * ns), min(12 * ns * ns, 60 * n)))
        got, last = [], -1
        for p in x["pix"]:
            c = [i for i in pool if i > last and (i in near) == p["near"]]
            if not c:
                break
            got.append(rng.choice(c[: max(1, len(c) // max(1, n))]))
            last = got[-1]
        if len(got) == n:
            if x["restrict"]:
                rng.shuffle(got)
            for p, i in zip(x["pix"], got):
                p["id"] = i
            break
    table = {p["id"]: p for p in x["pix"]}
    seen = []

    def to_pixel(ra, dec, astr, *a, **k):
        i = which(ns, ra, dec)
        seen.append(len(i))
        far = lambda: rng.choice([-40.0, np.nan, 1000.0])
        return (np.array([table[j]["X"] / 8.0 if j in table else far() for j in i.tolist()]), np.array([table[j]["Y"] / 8.0 if j in table else -3.0 for j in i.tolist()]))

    def to_altaz(ra, dec, *a, **k):
        i = which(ns, ra, dec)
        alt = np.array([(rng.choice([50.0, 0.4, 89.9]) if table[j]["up"] else rng.choice([-20.0, 0.0, -0.4])) if j in table else 10.0 for j in i.tolist()])
        return alt, np.zeros(len(i))

    d = x["dim"]
    mask = np.array(x["mask"], float).reshape(d, d)
    img = np.array(x["img"], float).reshape(d, d)
    health = dict(nside=0, n_pix=0, ind_list=None, n_zero=-1)
    obs = dict(obsra=ra, obsdec=dec, dimension=d, elements=d, astr=dict(cdelt=np.array(x["cdelt"]) / 100.0 * np.array([rng.choice([1, -1]), 1])), instrument="mwa", jd0=2456528.25, freq_center=150e6, healpix=health)
    orig = dict(health)
    cfg = dict(restrict_healpix_inds=x["restrict"], healpix_inds=None)
    if x["restrict"]:
        f = os.path.join(ctx.scratch, "inds.h5")
        from PyFHD.io.pyfhd_io import save

        inds = np.array([p["id"] for p in x["pix"]], rng.choice([np.int64, np.int32]))
        if os.path.exists(f):
            os.unlink(f)
        if x["filenside"]:
            save(Path(f), dict(hpx_inds=inds, nside=np.int64(x["filenside"])), "inds")
        else:
            with h5py.File(f, "w") as h:
                h["hpx_inds"] = inds
        cfg["healpix_inds"] = Path(f)
    was = mask.copy()
    rec = dict(x=x, ok=False, inds=[], cnv=[], map=[], const=[], nside=0, npix=0, nzero=0, list=[], kept=False)

    def go():
        return H.healpix_cnv_generate(obs, mask, radius, cfg, LOG, **(dict(nside=float(x["nside"]) if rng.random() < 0.5 else x["nside"]) if x["nside"] else {}))

    with patched(radec_to_pixel=to_pixel, radec_to_altaz=to_altaz):
        out = call(go)
        if out[0] != "ok":
            return dict(rec, why=str(out))
        try:
            cnv, o = out[1]
            m, c = H.healpix_cnv_apply(img, cnv), H.healpix_cnv_apply(np.full((d, d), 3.0), cnv)
            il = o["healpix"]["ind_list"]
            rec.update(ok=True, inds=[int(i) for i in cnv["inds"]], nside=int(cnv["nside"]) if cnv["nside"] == o["healpix"]["nside"] else -1, npix=int(o["healpix"]["n_pix"]), nzero=int(o["healpix"]["n_zero"]),
                       list=[-1] if il is None else [int(i) for i in il], map=[w64(v) for v in m], const=[w64(v) for v in c],
                       cnv=[dict(i=int(i), p=[int(t) for t in np.atleast_1d(p)], w=[w64(t) for t in np.atleast_1d(w)]) for i, p, w in zip(cnv["i_use"], cnv["ija"], cnv["sa"])],
                       kept=bool(np.array_equal(mask, was) and health == orig))
        except Exception as e:
            return dict(rec, why=repr(e))
    return rec


def apply(rng, x):
    from PyFHD.healpix.healpix_utils import healpix_cnv_apply

    obj = lambda v, dt: np.array([np.array(t, dt) for t in v] + [None], dtype=object)[:-1]
    img = np.array(x["img"], float)
    img = img.reshape(x["shape"])
    cnv = dict(inds=np.arange(x["n"]), i_use=np.array([e["i"] for e in x["cnv"]], np.int64), ija=obj([e["p"] for e in x["cnv"]], np.int64), sa=obj([e["w"] for e in x["cnv"]], float))
    was = img.copy()
    out = call(healpix_cnv_apply, img, cnv)
    if out[0] != "ok":
        return dict(x=x, ok=False, map=[], kept=False, why=str(out))
    v = np.asarray(out[1])
    return dict(x=x, ok=True, map=[rat(t)[0] if rat(t)[1] == 1 else 1999999998 for t in v.ravel()], kept=bool(np.array_equal(was, img)))


def phase(rng, x):
    from PyFHD.healpix.healpix_utils import phase_shift_uv_image

    w, h = x["w"], x["h"]
    obs = dict(phasera=10.0, phasedec=-20.0, orig_phasera=10.0 if x["same"] or x["one"] == "dec" else 11.0, orig_phasedec=-20.0 if x["same"] or x["one"] == "ra" else -21.0, dimension=w, elements=h, astr={})

    def to_pixel(ra, dec, astr, *a, **k):
        if (ra, dec) != (obs["orig_phasera"], obs["orig_phasedec"]):
            raise ValueError("another position")
        return w / 2 + x["tx"] * w / 64.0, h / 2 + x["ty"] * h / 64.0

    with patched(radec_to_pixel=to_pixel):
        out = call(phase_shift_uv_image, obs)
    if out[0] != "ok" or np.shape(out[1]) != (h, w):
        return dict(x=x, ok=False, turn=[], why=str(out)[:300])

    def turn(v):
        if abs(abs(v) - 1) > 1e-9:
            return -1
        q = rat(np.angle(v) / (2 * np.pi) * 64)
        return q[0] % 64 if q[1] == 1 else -1

    return dict(x=x, ok=True, turn=[[turn(v) for v in r] for r in np.asarray(out[1])])


def field(rng, x):
    from PyFHD.healpix import healpix_utils as H

    got = []

    def load(p, *a, **k):
        got.append(Path(str(p)).name)
        return dict(nside=NS, hpx_inds=np.array([40, 41]))

    obs = dict(obsra=float(x["ra"]), obsdec=float(x["dec"]), dimension=4, elements=4, astr=dict(cdelt=np.array([1.0, 1.0])), instrument="mwa", jd0=2456528.25, freq_center=x["mhz"] * 1e6, healpix=dict(nside=0, n_pix=0, ind_list=None, n_zero=-1))
    with patched(load=load, radec_to_pixel=lambda ra, dec, a: (np.full(len(ra), 1.5), np.full(len(ra), 1.5)), radec_to_altaz=lambda ra, *a, **k: (np.ones(len(ra)), np.ones(len(ra)))):
        out = call(H.healpix_cnv_generate, obs, np.ones((4, 4)), 10.0, dict(restrict_healpix_inds=True, healpix_inds=None), LOG, nside=NS)
    return dict(x=x, name=got[0] if out[0] == "ok" and got else str(out))


def beams(rng, x):
    from PyFHD.healpix.healpix_utils import beam_image_cube

    d, npol = x["dim"], len(x["beams"])
    freq = np.array([100e6 + 1e6 * i for i in range(x["nf"])])
    obs = dict(n_pol=npol, n_freq=x["nf"], dimension=d, elements=d, obsx=rng.choice([x["cx"], float(x["cx"])]), obsy=rng.choice([x["cy"], float(x["cy"])]), baseline_info=dict(fbin_i=np.array(x["fbin"], np.int64), freq=freq))

    def beam(psf, o, pol_i, freq_i=None, abs=False, square=False):
        if square != x["square"]:
            raise ValueError("square")
        return np.array(x["beams"][pol_i][x["fbin"][int(freq_i)]], float).reshape(d, d)

    kw = dict(square=x["square"])
    if x["thr"] is not None:
        kw["beam_threshold"] = x["thr"]
    if x["nb"]:
        kw["n_freq_bin"] = x["nb"]
    elif x["hz"]:
        kw["freq_i_arr"] = freq[x["want"]]
    else:
        kw["freq_i_arr"] = np.array(x["want"], np.int64)
    with patched(beam_image=beam):
        out = call(beam_image_cube, obs, {}, LOG, **kw)
    x = dict(x, thr=str(x["thr"]))
    try:
        if out[0] != "ok":
            raise ValueError(str(out))
        a, m = out[1]
        return dict(x=x, ok=True, arr=[[[w64(v / 64) for v in f.ravel()] for f in p] for p in a], mask=[w64(v / 64) for v in m.ravel()])
    except Exception as e:
        return dict(x=x, ok=False, arr=[], mask=[], why=repr(e))


def world(rng):
    d = rng.choice([3, 4, 4, 6, 8])
    n = rng.choice([1, 2, 3, 5, 9, 14])
    re = rng.random() < 0.35
    whole = rng.random() < 0.3

    def pos():
        v = rng.randint(0, 8 * (d - 1)) if re or rng.random() < 0.8 else rng.randint(-12, 8 * d + 4)
        return v // 8 * 8 if whole or rng.random() < 0.15 else v

    kind = rng.choice(["ones", "some", "few"])
    mask = [1 if kind == "ones" or rng.random() < (0.9 if kind == "some" else 0.5) else 0 for _ in range(d * d)]
    cd = rng.choice([[1400, 1400], [900, 1700], [2000, 1000], [700, 900], [450, 450], [3000, 3000]])
    given, filens = rng.choice([0, 2, 4, 8]), rng.choice([0, 2, 4]) if re else 0
    own = min(2**k for k in range(9) if cd[0] * cd[1] >= 412529612 // (12 * 4**k))
    want = filens or given or own
    if want > 16:
        return None
    return dict(dim=d, restrict=re, mask=mask, img=[rng.randint(-9, 9) for _ in range(d * d)], cdelt=cd, nside=given, filenside=filens, want=want,
                pix=[dict(id=0, X=pos(), Y=pos(), near=re or rng.random() < 0.8, up=rng.random() < 0.85) for _ in range(n)])


def chosen(x):
    def lit(p):
        c = lambda v: {v // 8, -(-v // 8)}
        return all(x["mask"][j * x["dim"] + i] for i in c(p["X"]) for j in c(p["Y"]))

    lim = 8 * (x["dim"] - 1)
    return [p for p in x["pix"] if p["up"] and (x["restrict"] or (p["near"] and 0 < p["X"] < lim and 0 < p["Y"] < lim and lit(p)))]


def run(ctx):
    rng = ctx.rng
    logging.getLogger().setLevel(logging.CRITICAL)
    with p18.Sites():
        seq = lambda v: "<<%s>>" % ", ".join(map(str, v))
        d = 3
        masks = "{%s}" % ", ".join(seq(m) for m in ([1] * 9, [1, 1, 1, 1, 1, 1, 1, 1, 0], [0, 1, 1, 1, 1, 1, 1, 1, 1]))
        poss = "{%s}" % ", ".join(seq(p) for p in ctx.n([(8, 8), (3, 10), (13, 8), (8, 15), (-3, 4), (16, 8), (9, 1)], [(8, 8), (3, 10), (13, 8), (8, 15), (-3, 4), (16, 8), (9, 1), (0, 0), (15, 15), (1, 14), (10, 3), (20, 8)]))
        res = tlc.run(ctx, "Healpix", constants=dict(Dim=str(d), Poss=poss, MaxPix="2", Masks=masks, Img=seq(rng.randint(-9, 9) for _ in range(9))),
                      invariants=["Same", "Bilinear", "Unity", "Positive", "Within", "Masked", "Emit"])
        ctx.count("spec_behaviours", len(res.cases))
        for c in rng.sample(res.cases, min(len(res.cases), ctx.n(500, 5000))):
            x = dict(c["x"], want=NS)
            r = generate(ctx, rng, x)
            ctx.replayed()
            if not r["ok"]:
                ctx.violation("replay:returns", "projecting %s: %s" % (x, r["why"]), r)
            elif r["inds"] != [r["x"]["pix"][i - 1]["id"] for i in c["ids"]]:
                ctx.violation("replay:selected", "of %s the pixels %s are selected" % (r["x"], r["inds"]), r)
            elif r["map"] != list(c["map"]):
                ctx.violation("replay:projection", "projecting %s gave %s / 64 instead of %s / 64" % (r["x"], r["map"], c["map"]), r)
        ctx.sample(res.cases[0])
        recs = []
        while len(recs) < ctx.n(350, 3000):
            x = world(rng)
            if x and chosen(x):
                recs.append(generate(ctx, rng, x))
        for i, v in sorted(tlc.judge(ctx, "HealpixOps", "HVerdict", recs).items()):
            for cl in v:
                ctx.violation("judge:" + cl, "%s: projecting %s" % (cl, recs[i]), recs[i])
        ctx.sample(recs[0]["x"])
        frecs = []
        while len(frecs) < ctx.n(40, 400):
            ra, mhz = rng.randint(0, 359), rng.randint(100, 250)
            if min(abs(ra - 30), abs(ra - 210)) > 8:
                frecs.append(field(rng, dict(ra=ra, dec=rng.randint(-60, 20), mhz=mhz)))
        for i, v in sorted(tlc.judge(ctx, "HealpixOps", "FVerdict", frecs).items()):
            ctx.violation("judge:field", "the pixels of %s come from %s" % (frecs[i]["x"], frecs[i]["name"]), frecs[i])
    arecs = []
    for _ in range(ctx.n(250, 2500)):
        n, shape = rng.choice([1, 2, 3, 6]), rng.choice([(2, 2), (3, 3), (2, 3), (1, 4)])
        m = shape[0] * shape[1]
        e = []
        for i in sorted(rng.sample(range(m), rng.randint(0, m))):
            k = rng.randint(1, 5)
            e.append(dict(i=i, p=[rng.randrange(n) for _ in range(k)], w=[rng.randint(-3, 6) for _ in range(k)]))
        arecs.append(apply(rng, dict(n=n, shape=list(shape), cnv=e, img=[rng.randint(-9, 9) for _ in range(m)])))
    for i, v in sorted(tlc.judge(ctx, "HealpixOps", "AVerdict", arecs).items()):
        for cl in v:
            ctx.violation("judge:apply:" + cl, "%s: applying %s" % (cl, arecs[i]), arecs[i])
    precs = []
    for _ in range(ctx.n(60, 600)):
        w, h = rng.choice([2, 4, 6, 8]), rng.choice([2, 4, 6, 8])
        same = rng.random() < 0.15
        precs.append(phase(rng, dict(w=w, h=w if same else h, tx=rng.randint(-70, 70), ty=rng.randint(-70, 70), same=same, one=rng.choice(["ra", "dec", "both"]))))
    for i, v in sorted(tlc.judge(ctx, "HealpixOps", "PVerdict", precs).items()):
        for cl in v:
            ctx.violation("judge:phase:" + cl, "%s: the phases of %s are %s" % (cl, precs[i]["x"], precs[i].get("why") or precs[i]["turn"]), precs[i])
    # the beams
    im = lambda d, hi, dark: [0 if rng.random() < dark else rng.randint(1, hi) for _ in range(d * d)]
    res = tlc.run(ctx, "BeamCube", constants=dict(NF="6", NBs="{1, 2, 3, 4, 6}", Bins="{<<0, 0, 0, 1, 1, 1>>, <<0, 0, 0, 0, 0, 0>>, <<0, 1, 1, 1, 1, 1>>}", Images="{%s}" % ", ".join(seq(im(4, 5, 0.2)) for _ in range(ctx.n(4, 8))), Lows="{1, 3}"),
                  invariants=["Full", "Channels", "Bright", "Emit"], properties=["Shrinks"])
    ctx.count("spec_behaviours", len(res.cases))
    for c in res.cases if len(res.cases) < 1500 else rng.sample(res.cases, 1500):
        r = beams(rng, dict(c["x"], square=False, thr=c["x"]["low"], hz=False))
        ctx.replayed()
        if not r["ok"] or r["mask"] != c["mask"]:
            ctx.violation("replay:beam-mask", "the beams %s see %s instead of %s" % (c["x"], r.get("why") or r["mask"], c["mask"]), c)
    brecs = []
    for _ in range(ctx.n(250, 2500)):
        nf, d = rng.choice([1, 2, 4, 7, 12]), rng.choice([3, 4, 6])
        nbin = rng.choice([1, 2, 3])
        fb = sorted(rng.randrange(nbin) for _ in range(nf))
        square = rng.random() < 0.6
        thr = rng.choice([None, 1, 2, 0, 0.5])
        low = 1 if thr is None else 0 if thr == 0 else 1 if thr == 0.5 else thr ** (2 if square else 1)
        nb = rng.choice([0, 1, 2, 3, nf, nf // 2 or 1])
        want = sorted(rng.sample(range(nf), rng.randint(1, nf)))
        if not nb and rng.random() < 0.2:
            want = sorted(rng.choice(range(nf)) for _ in range(nf))
        dark = rng.choice([0, 0.1, 0.4])
        brecs.append(beams(rng, dict(nf=nf, nb=min(nb, nf), want=[] if nb else want, hz=rng.random() < 0.4, fbin=fb, dim=d, cx=d // 2, cy=rng.choice([d // 2, 1]), low=low, thr=thr, square=square,
                                     beams=[[im(d, 9, dark) for _ in range(nbin)] for _ in range(rng.choice([1, 2]))])))
    for i, v in sorted(tlc.judge(ctx, "BeamCubeOps", "CVerdict", brecs).items()):
        for cl in v:
            ctx.violation("judge:beam:" + cl, "%s: the beams of %s" % (cl, brecs[i]), brecs[i])
    ctx.sample(brecs[0]["x"])
    ctx.assumptions = ["images are square", "pixels given in a file fall in the image", "at least one pixel is selected", "positions in the image and elevations are given to the code (the sky geometry of astropy is not modelled)",
                       "beams have their channels in ascending bins"]
