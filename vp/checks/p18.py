"""P18 reading an observation."""
import logging
import os

import numpy as np
from astropy.io import fits

from .. import fitsio, tlc
from ..core import call
from ..grid import LOG

BASE = 2456528.0
STORED = dict(obsra=10, obsdec=-11, lon=116, lat=-26, alt=378)


class Sites:
    """Stands in for the table of sites, which is not available without a network."""

    def __enter__(self):
        import astropy.coordinates as ac

        self.ac, self.old = ac, ac.EarthLocation.__dict__["of_site"]

        def of_site(cls, name, **kw):
            if name.lower() not in ("mwa", "murchison widefield array"):
                raise ac.errors.UnknownSiteException(name, "x")
            import astropy.units as u

            return cls.from_geodetic(100 * u.deg, -30 * u.deg, 400 * u.m)

        ac.EarthLocation.of_site = classmethod(of_site)
        return self

    def __exit__(self, *a):
        self.ac.EarthLocation.of_site = self.old


def write(path, x, order=None, scaled=False):
    rows, n = x["rows"], len(x["rows"])
    col = lambda k: [r[k] for r in rows]
    pars = {}
    for nm, k in (("UU", "u"), ("VV", "v"), ("WW", "w")):
        pars[nm] = [("%-8s" % nm, [v * 2 for v in col(k)], 0.0625, 0.0)] if scaled else [(nm, [v / 8.0 for v in col(k)], 1.0, 0.0)]
    pars["DATE"] = [("DATE", [t / 64.0 for t in col("t")], 1.0, BASE)]
    if x["dates"] == 2:
        pars["DATE"].append(("DATE", [t / 64.0 for t in col("d")], 1.0, 0.0))
    if x["enc"] == "pair":
        pars["ANT"] = [("ANTENNA1", col("a"), 1.0, 0.0), ("ANTENNA2", col("b"), 1.0, 0.0)]
    else:
        c = [(65536 + 2048 * r["a"] + r["b"]) if x["enc"] == "2048" or (x["enc"] == "mixed" and max(r["a"], r["b"]) > 255) else 256 * r["a"] + r["b"] for r in rows]
        pars["ANT"] = [("BASELINE", c, 1.0, 0.0)]
    order = order or ["UU", "VV", "WW", "DATE", "ANT"]
    w = np.arange(n * x["nf"] * x["np"] * 3, dtype=float) - x["shift"]
    shp = (n,) + (1,) * x.get("extra", 2) + (x["nf"], x["np"], 3)
    cards = [("CTYPE2", "COMPLEX"), ("CTYPE3", "STOKES"), ("CTYPE4", "FREQ"), ("CRVAL4", x["fref"] * 1e3), ("CDELT4", x["fres"] * 1e3), ("CRPIX4", x["crpix2"] / 2.0),
             (["DATE-OBS", "DATEOBS"][x["shift"] % 2], "2013-08-23T00:00:00")]
    cards += [(k.upper(), float(STORED[k])) for k in x["has"]] + [("RA", 20.0), ("DEC", -21.0)]
    m = x["tiles"]
    fitsio.groups(path, [p for k in order for p in pars[k]], w.reshape(shp), cards,
                  [fits.Column("ANNAME", "8A", array=["T%d" % i for i in range(m)]), fits.Column("NOSTA", "J", array=list(range(1, m + 1)))], [("ARRAYX", 1.0)])


def num(v, k=1):
    v = float(v) * k
    return int(round(v)) if abs(v) < 1e9 and abs(v - round(v)) < 1e-7 * max(1.0, abs(v) / 100) else 1999999999


def real(ctx, x, order=None, scaled=False, model=False):
    from PyFHD.data_setup import uvfits as U
    from astropy.time import Time

    path = os.path.join(ctx.scratch, "obs.uvfits")
    write(path, x, order, scaled)
    cfg = dict(input_path=ctx.scratch, obs_id="obs", instrument=x["instrument"], n_pol=x["cfgpol"], model_file_path=path)
    if model:
        cfg["obs_id"] = "other"

    def go():
        hd, pd, ah, ad = U.extract_header(cfg, LOG, model_uvfits=model)
        p = U.create_params(hd, pd, LOG)
        v, w = U.extract_visibilities(hd, pd, cfg, LOG)
        return hd, p, v, w, ah, ad

    rec = dict(x=x, ok=False, ant=[], uvw=[], time=[], vis=[], wgt=[], meta={}, freq=[])
    out = call(go)
    if out[0] != "ok":
        return dict(rec, why=str(out))
    try:
        hd, p, v, w, ah, ad = out[1]
        if v.dtype != np.complex128 or w.dtype != np.float64 or v.ndim != 3 or w.ndim != 3:
            return dict(rec, why="types %s %s shapes %s %s" % (v.dtype, w.dtype, v.shape, w.shape))
        col = lambda k, s=1, z=0: [num(float(t) - z, s) for t in np.asarray(p[k]).ravel()]
        rec.update(
            ok=True, ant=[list(t) for t in zip(col("antenna1"), col("antenna2"))], uvw=[list(t) for t in zip(col("uu", 8), col("vv", 8), col("ww", 8))],
            time=col("time", 64, BASE), vis=[[[[num(t.real), num(t.imag)] for t in f] for f in q] for q in v], wgt=[[[num(t) for t in f] for f in q] for q in w],
            freq=[num(f, 1e-3) for f in hd["frequency_array"]],
            meta=dict({k: num(hd[k]) for k in ("n_freq", "n_pol", "n_baselines", "n_tile", "obsra", "obsdec", "lon", "lat", "alt")},
                      jd0=num(hd["jd0"] - BASE, 64), dateobs=num(Time(hd["dateobs"], format="fits").jd - BASE, 64)))
    except Exception as e:
        return dict(rec, ok=False, why=repr(e))
    return rec


HK = dict(coordinate_frame="FRAME", gst0="GSTIA0", earth_degpd="DEGPDY", refdate="RDATE", time_system="TIMESYS", dut1="UT1UTC", diff_utc="DATUTC", nleap_sec="IAUTC", pol_type="POLTYPE", n_pol_cal_params="NOPCAL")
HV = dict(coordinate_frame="ITRF2", gst0=77, earth_degpd=361, refdate="2013-08-23", dut1=3, diff_utc=4, nleap_sec=35, pol_type="LIN")
CK = dict(antenna_names="ANNAME", antenna_numbers="NOSTA", antenna_coords="STABXYZ", mount_type="MNTSTA", axis_offset="STAXOF", pola="POLTYA", pola_orientation="POLAA", pola_cal_params="POLCALA",
          polb="POLTYB", polb_orientation="POLAB", polb_cal_params="POLCALB", diameters="DIAMETER", beam_fwhm="BEAMFWHM")


def text(v):
    if v is None:
        return "absent"
    if isinstance(v, str):
        return v.strip()
    a = np.asarray(v)
    if a.ndim:
        return ",".join(text(t) for t in a.ravel().tolist())
    v = a.item()
    if isinstance(v, bytes):
        return v.decode().strip()
    if isinstance(v, float) and v == int(v):
        v = int(v)
    return str(v)


def layout(ctx, x, rng):
    from PyFHD.data_setup.uvfits import create_layout
    from PyFHD.io.pyfhd_io import load

    n, miss = x["n"], set(x["missing"])
    cards = []
    if "array_center" not in miss:
        cards += [("ARRAYX", 11.0), ("ARRAYY", 12.0), ("ARRAYZ", 13.0)]
    else:
        cards += [c for c in (("ARRAYX", 11.0), ("ARRAYY", 12.0), ("ARRAYZ", 13.0)) if rng.random() < 0.4][:2]
    for k, w in HK.items():
        if k not in miss:
            if k == "time_system":
                w = rng.choice(["TIMESYS", "TIMSYS"])
            cards.append((w, x["ts"] if k == "time_system" else x["ncal"] if k == "n_pol_cal_params" else HV[k]))
    num_ = lambda base: [base + (0 if x["uniform"] else i + 1) for i in range(n)]
    vals = dict(antenna_names=("8A", ["T%d" % (i + 11) for i in range(n)]), antenna_numbers=("J", [2 * i + 3 for i in range(n)]),
                antenna_coords=("3D", np.arange(1, 3 * n + 1).reshape(n, 3) * 5.0), mount_type=("J", num_(1)), axis_offset=("E", num_(2)),
                pola=("1A", ["R"] * n), polb=("1A", ["L"] * n), pola_orientation=("E", num_(45)), polb_orientation=("E", num_(135)),
                pola_cal_params=("E", [31 + i for i in range(n)]), polb_cal_params=("E", [61 + i for i in range(n)]), diameters=("E", [5 + i for i in range(n)]), beam_fwhm=("E", [21 + i for i in range(n)]))
    cols = [fits.Column(CK[k], vals[k][0], array=vals[k][1]) for k in CK if k not in miss]
    rng.shuffle(cols)
    if not cols:
        cols = [fits.Column("ORBPARM", "D", array=[0.0] * n)]
    t = fits.BinTableHDU.from_columns(cols)
    for k, v in cards:
        t.header[k] = v
    f = os.path.join(ctx.scratch, "layout.h5")
    if os.path.exists(f):
        os.unlink(f)
    out = call(create_layout, t.header, t.data, dict(output_dir=ctx.scratch), LOG)
    if out[0] != "ok":
        return dict(x=x, ok=False, out={}, saved=False, why=str(out))
    keys = set(HK) | set(CK) | {"array_center", "n_antenna"}
    rec = dict(x=x, ok=True, saved=False)
    try:
        rec["out"] = {k: text(out[1].get(k)) for k in keys}
    except Exception as e:
        return dict(x=x, ok=False, out={}, saved=False, why=repr(e))
    back = call(load, f, LOG)
    rec["saved"] = back[0] == "ok" and isinstance(back[1], dict) and all(text(back[1].get(k)) == rec["out"][k] for k in keys)
    return rec


def run(ctx):
    rng = ctx.rng
    logging.getLogger().setLevel(logging.CRITICAL)
    with Sites():
        meta = lambda: dict(fref=rng.randint(100, 200) * 1000, fres=rng.choice([40, 80, 160]), crpix2=rng.choice([2, 2, 4, 6, 3, 5, 1]), tiles=rng.choice([1, 3, 5]),
                            has=[k for k in STORED if rng.random() < 0.7], instrument=rng.choice(["mwa", "mwa", "elsewhere"]))
        res = tlc.run(ctx, "Ingest", constants=dict(Ants=ctx.n("{1, 2, 255, 1100}", "{1, 2, 3, 4, 255, 256, 2047}"), Times=ctx.n("{3}", "{0, 5}"), MaxRows="2", Encs=ctx.n('{"pair", "256", "2048"}', '{"pair", "256", "2048", "mixed"}'),
                                                    NFs="{1, 2}", NPs="{1, 2}"),
                      invariants=["Codes", "Antennas", "Samples", "Complete", "Once", "Emit"])
        ctx.count("spec_behaviours", len(res.cases))
        recs = []
        for c in rng.sample(res.cases, min(len(res.cases), ctx.n(250, 3000))):
            recs.append(real(ctx, dict(c["x"], **meta())))
        for _ in range(ctx.n(250, 3000)):
            enc = rng.choice(["pair", "256", "256", "2048", "mixed"])
            top = {"pair": 300, "256": 255, "2048": 2047, "mixed": 600}[enc]
            ants = sorted(rng.sample(range(1, rng.choice([3, 8, 128, top, top]) + 1), rng.choice([2, 3])))
            if enc == "mixed":
                ants = sorted(set(ants + [rng.randint(1, 9), rng.randint(250, 600)]))
            pairs = [(a, b) for a in ants for b in ants if a < b or (a == b and rng.random() < 0.6)]
            rows = [dict(a=a, b=b, t=t, d=rng.choice([0, 1, 2]), **{k: rng.choice([rng.randint(-9, 9), rng.randint(-3000000, 3000000)]) for k in "uvw"}) for t in range(rng.choice([1, 2, 3])) for a, b in pairs]
            if rng.random() < 0.4:
                rng.shuffle(rows)
            rows = rows[: rng.choice([1, 2, 5, 12])]
            npol = rng.choice([1, 2, 4])
            x = dict(meta(), enc=enc, rows=rows, nf=rng.choice([1, 2, 3, 5]), np=npol, cfgpol=rng.choice([0, npol, min(2, npol), 1]), shift=rng.randint(0, 20), dates=rng.choice([1, 2]), extra=rng.choice([2, 2, 3]))
            order = ["UU", "VV", "WW", "DATE", "ANT"]
            if rng.random() < 0.6:
                rng.shuffle(order)
            recs.append(real(ctx, x, order, rng.random() < 0.3, rng.random() < 0.3))
        for i, v in sorted(tlc.judge(ctx, "IngestOps", "IVerdict", recs).items()):
            for cl in v:
                ctx.violation("judge:" + cl, "%s: reading %s gave %s" % (cl, recs[i]["x"], recs[i].get("why") or {k: recs[i][k] for k in recs[i] if k != "x"}), recs[i])
        ctx.sample(recs[0]["x"])
        # the layout
        res = tlc.run(ctx, "Layout", constants=dict(MaxMissing=ctx.n("1", "3"), Ns=ctx.n("{1, 3}", "{1, 2, 4}")), invariants=["Covered", "Total", "Local", "Emit"])
        ctx.count("spec_behaviours", len(res.cases))
        lrecs = []
        for c in rng.sample(res.cases, min(len(res.cases), ctx.n(450, 3000))):
            r = layout(ctx, c["x"], rng)
            ctx.replayed()
            if not r["ok"]:
                ctx.violation("replay:layout:returns", "the layout without %s: %s" % (c["x"]["missing"], r["why"]), c)
                continue
            for k in c["e"]:
                if r["out"][k] != c["e"][k]:
                    ctx.violation("replay:layout:" + k, "the layout without %s has %s = %r instead of %r" % (c["x"]["missing"], k, r["out"][k], c["e"][k]), c)
            if not r["saved"]:
                ctx.violation("replay:layout:saved", "the layout without %s is not what layout.h5 holds" % (c["x"]["missing"],), c)
        keys = sorted(set(HK) | set(CK) | {"array_center"})
        for _ in range(ctx.n(150, 1500)):
            x = dict(missing=[k for k in keys if rng.random() < rng.choice([0.1, 0.5, 0.95])], n=rng.choice([1, 2, 3, 5]), ts=rng.choice(["UTC", "IAT"]), uniform=rng.random() < 0.5, ncal=rng.choice([0, 1, 2, 3]))
            lrecs.append(layout(ctx, x, rng))
        for i, v in sorted(tlc.judge(ctx, "LayoutOps", "LVerdict", lrecs).items()):
            for cl in v:
                ctx.violation("judge:layout:" + cl, "%s: the layout of %s is %s" % (cl, lrecs[i]["x"], lrecs[i].get("why") or lrecs[i]["out"]), lrecs[i])
    ctx.assumptions = ["files are random groups with one spectral window", "baselines are coded as 256 a + b, or 65536 + 2048 a + b for more than 255 antennas",
                       "the table of sites is replaced: it needs a network"]
