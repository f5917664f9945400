"""P28 calibration plots and image colours (Plots.tla): the figures are inspected when they are saved."""
import math
import os
import re
from concurrent.futures import ProcessPoolExecutor
from pathlib import Path
from unittest import mock

import numpy as np

from .. import tlc
from ..core import call, rat

# Gaussian integers of whole modulus
PY = [(a * k, b * k) for a, b in ((1, 0), (0, 1), (-1, 0), (0, -1), (3, 4), (4, 3), (-3, 4), (-4, 3), (-3, -4), (-4, -3), (3, -4), (4, -3)) for k in (1, 2)]
BAD = 1999999999
KINDS = ["cal_amp", "cal_phase", "cal_residual_amp", "cal_residual_phase", "cal_raw_amp", "cal_raw_phase"]


def whole(v, tol=1e-7):
    return int(round(v)) if math.isfinite(v) and abs(v - round(v)) < tol else BAD


def layout(rng, n, np_, nf, plain=False):
    pick = lambda: [[[list(rng.choice(PY)) for _ in range(n)] for _f in range(nf)] for _p in range(np_)]
    gain, raw = pick(), pick()
    big = rng.choice([1, 2, 3])  # raw gains of another size than the solution

    if nf > 2:  # slowly turning phases, so that the raw phase goes round
        for p in range(np_):
            for t in range(n):
                if rng.random() < 0.5:
                    s, d = rng.randrange(4), rng.choice([1, -1])
                    for f in range(nf):
                        raw[p][f][t] = list([(4, 3), (-3, 4), (-4, -3), (3, -4)][(s + d * f) % 4])
    raw = [[[[big * a, big * b] for a, b in f] for f in p] for p in raw]
    res = [[[[raw[p][f][t][0] - gain[p][f][t][0], raw[p][f][t][1] - gain[p][f][t][1]] for t in range(n)] for f in range(nf)] for p in range(np_)]
    fu = [rng.random() < 0.75 for _ in range(nf)]
    fu[rng.randrange(nf)] = True
    names = ["T%d" % (t + 11) for t in range(n)]
    rng.shuffle(names)
    return dict(n=n, np=np_, freq=sorted(rng.sample(range(80, 200), nf)), fu=fu, tu=[rng.random() < 0.8 for _ in range(n)], gain=gain, res=res, names=names)


def cals(args):
    x, scratch = args
    import matplotlib
    import matplotlib.figure
    from matplotlib.colors import to_rgba

    from PyFHD.plotting.calibration import plot_cals

    out = Path(scratch, "run_%d_%d" % (os.getpid(), x["n"]))
    figs = []

    def saved(fig, path, *a, **k):
        m = re.fullmatch(r"obs7_(%s)(?:_page(\d+))?\.png" % "|".join(KINDS), Path(str(path)).name)
        kind = KINDS.index(m.group(1)) + 1 if m else 0
        page = int(m.group(2)) + 1 if m and m.group(2) else 1
        if Path(str(path)).parent != out / "plots" / "calibration" or (m and bool(m.group(2)) != (x["n"] > 128)):
            kind = 0
        panels, inside = [], True
        for ax in fig.axes:
            lines = []
            for ln in ax.lines if ax.axison else []:
                y = np.asarray(ln.get_ydata(), dtype=float)
                lo, hi = sorted(ax.get_ylim())
                inside = inside and bool(np.all((y >= lo - 1e-9) & (y <= hi + 1e-9)))
                if kind in (1, 3, 5):
                    pts, steps = [[whole(v), 0, 1] for v in y], []
                else:
                    pts = [[whole(625 * math.cos(v), 1e-6), whole(625 * math.sin(v), 1e-6), 625] for v in y]
                    steps = [int(math.floor((b - a) / math.pi)) for a, b in zip(y[:-1], y[1:])]
                c = to_rgba(ln.get_color())
                lines.append(dict(colour="blue" if c == to_rgba("b") else "red" if c == to_rgba("r") else "other", xs=[whole(v) for v in np.asarray(ln.get_xdata(), dtype=float)], pts=pts, steps=steps))
            panels.append(dict(title=ax.get_title(), on=bool(ax.axison), lines=lines))
        figs.append(dict(kind=kind, page=page, panels=panels, inside=inside))

    z = lambda a: np.array([[[complex(*v) for v in f] for f in p] for p in a])
    cal = dict(gain=z(x["gain"]), gain_residual=z(x["res"]), n_pol=x["np"])
    obs = dict(n_tile=x["n"], n_pol=x["np"], pol_names=["XX", "YY"][: x["np"]],
               baseline_info=dict(freq_use=np.array(x["fu"], int), freq=np.array(x["freq"]) * 1e6, tile_use=np.array(x["tu"], int), tile_names=np.array(x["names"])))
    keep = (cal["gain"].copy(), cal["gain_residual"].copy())
    with mock.patch.object(matplotlib.figure.Figure, "savefig", saved):
        r = call(plot_cals, obs, cal, dict(obs_id="obs7", output_dir=out), timeout=300)
    rec = dict(kind="cals", x=x, ok=r[0] == "ok", kept=bool(np.array_equal(keep[0], cal["gain"]) and np.array_equal(keep[1], cal["gain_residual"])), figs=figs)
    if r[0] != "ok":
        rec["why"] = str(r)
    import matplotlib.pyplot as plt

    plt.close("all")
    return rec


def image(x, arr, scratch, **kw):
    """colours, ticks and file of an image"""
    import contextlib
    import io

    import matplotlib
    import matplotlib.figure
    import matplotlib.pyplot as plt

    from PyFHD.plotting.image import quick_image

    got = {}

    def saved(fig, path, *a, **k):
        im = [i for ax in fig.axes for i in ax.images][0]
        cb = im.colorbar
        got.update(out=np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan), clim=[int(v) for v in im.get_clim()], ticks=[float(t) for t in cb.get_ticks()],
                   labels=[t.get_text() for t in cb.ax.get_yticklabels()], file=os.path.basename(str(path)))

    keep = arr.copy()
    with mock.patch.object(matplotlib.figure.Figure, "savefig", saved), contextlib.redirect_stdout(io.StringIO()):
        r = call(quick_image, arr, **kw)
    plt.close("all")
    rec = dict(kind=x["kind"], x=x, ok=r[0] == "ok" and bool(got), kept=bool(np.array_equal(keep, arr)), wantfile=x["file"])
    if not rec["ok"]:
        return dict(rec, why=str(r))

    def num(s):
        try:
            return rat(float(s.replace("\u2212", "-")), 100)
        except ValueError:
            return [0, 0]

    flat = got["out"].ravel()
    def power(s):
        try:
            v = float(s.replace("\u2212", "-"))
            e = round(float(np.log10(v)))
            return int(e) if abs(v / 10.0**e - 1) < 0.06 else 1999
        except (ValueError, OverflowError):
            return 1999

    return dict(rec, expo=[power(s) for s in got["labels"]], out=[rat(v, 20000, 1e-8) for v in flat], clim=got["clim"], ticks=[rat(t, 8) for t in got["ticks"]], labels=[num(s) for s in got["labels"]], file=got["file"])


FILES = [("img", {}, "img.png"), ("img.png", {}, "img.png"), ("a.pdf", {}, "a.pdf"), ("b.eps", {}, "b.eps"), ("img", dict(pdf=True), "img.pdf"), ("v1.2", dict(png=True), "v1.2.png"), ("c.png", dict(png=True), "c.png"), ("img", dict(png=True, pdf=True), "img.png"),
         ("d.PDF", {}, "d.pdf"), ("E.PNG", dict(png=True), "E.png"), ("fits.7", {}, "fits.7.png")]


def linear(rng, scratch, x=None, vals=None):
    shape = rng.choice([(2, 3), (3, 2), (1, 4), (4, 4)])
    k = shape[0] * shape[1]
    if x is None:
        lo, hi = rng.choice([(0, 40), (-20, 20), (10, 50), (0, 4), (-7, 90), (3, 200), (-40, 0), (0, 255)])
        x = dict(lo=lo, hi=hi, missing=rng.random() < 0.4, mval=-99)
        vals = [rng.randint(lo - 5, hi + 5) for _ in range(k)]
        given = rng.random() < 0.6
        if not given:
            vals = [min(max(v, lo), hi) for v in vals]
            vals[0], vals[1] = lo, hi
            rng.shuffle(vals)
        if x["missing"]:
            ok = [i for i in range(k) if given or vals[i] not in (lo, hi)]
            x["missing"] = bool(ok)
            for i in ok[:2]:
                vals[i] = x["mval"]
    else:
        given, shape = True, (1, len(vals))
    mv = {"missing_value": x["mval"]} if x["missing"] or rng.random() < 0.3 else {}
    f, kw, want = rng.choice(FILES)
    x = dict(x, kind="linear", vals=vals, file=want, named=(x["hi"] - x["lo"]) % 4 == 0 and max(abs(x["lo"]), abs(x["hi"])) < 100)
    dt = rng.choice([float, float, int, complex])
    arr = np.array(vals, dtype=dt).reshape(shape)
    if dt is complex:
        arr = arr + 3j
    return image(x, arr, scratch, savefile=os.path.join(scratch, f), data_range=[x["lo"], x["hi"]] if given else None, **mv, **kw)


def log(rng, scratch, prof=None):
    """images of powers of ten on the logarithmic and the symmetric scale"""
    prof = prof or rng.choice(["log", "log", "sym"])
    lo, hi = rng.choice([(0, 2), (-1, 3), (1, 4), (-2, 0), (0, 4), (-3, -1)])
    k = rng.choice([4, 6])
    sign = lambda: rng.choice([0, 0, 2]) if prof == "sym" else 0
    vals = [[sign(), rng.randint(lo, hi)] for _ in range(k)]
    given = rng.random() < 0.5
    vals[0], vals[1] = [sign() if given or prof == "log" else 2, lo], [0, hi]
    least = prof == "sym" and rng.random() < 0.5
    if given:
        vals += [[0, lo - 1 if prof == "log" or least else lo], [0, hi + 1]]
    elif least:
        vals += [[0, lo - 1], [2, lo - 2]]
    missing = rng.random() < 0.3
    rest = [1, 3] if missing else [1, 2]
    for t in rest:
        if rng.random() < 0.6 and not (prof == "sym" and t == 2):
            vals[rng.randrange(2, k)] = [t, 0]
    missing = any(v[0] == 3 for v in vals)
    # all values positive: the symmetric scale is the logarithmic one
    bottom = -(10.0**hi)
    if prof == "sym" and not given and not any(v[0] in (1, 2) for v in vals):
        vals[rng.randrange(2, k)] = [2, hi]
    if prof == "sym" and not least:
        if not any(v[0] in (0, 2) and v[1] == lo for v in vals):
            vals.append([0, lo])
            vals.append([0, lo])
    rng.shuffle(vals)
    if len(vals) % 2:
        vals.append([0, hi])
    num = [10.0**e if t == 0 else 0.0 if t == 1 else -77.0 if t == 3 else -(10.0**e) if prof == "sym" else -3.0 for t, e in vals]
    f, kw, want = rng.choice(FILES)
    x = dict(kind=prof, vals=vals, lo=lo, hi=hi, zeros=any(v[0] == 1 for v in vals), file=want, missing=missing, mval=-77)
    kw = dict(kw, missing_value=-77.0) if missing or rng.random() < 0.2 else kw
    arr = np.array(num).reshape(2, -1)
    if prof == "log":
        if rng.random() < 0.3 and given:
            # wholly positive limits: the symmetric profile falls back to this one
            kw = dict(kw, color_profile="sym_log")
        return image(x, arr, scratch, savefile=os.path.join(scratch, f), log=True, data_range=[10.0**lo, 10.0**hi] if given else None, **kw)
    if least:
        kw = dict(kw, data_min_abs=10.0**lo)
    return image(x, arr, scratch, savefile=os.path.join(scratch, f), log=True, color_profile="sym_log", data_range=[bottom, 10.0**hi] if given else None, **kw)


def absolute(rng, scratch):
    lo, hi = rng.choice([(0, 40), (10, 50), (0, 4), (3, 200), (0, 255)])
    vals = [rng.choice([1, -1]) * rng.randint(max(0, lo - 3), hi + 5) for _ in range(rng.choice([4, 6]))]
    missing = rng.random() < 0.4
    if missing:
        vals[rng.randrange(len(vals))] = -777
    f, kw, want = rng.choice(FILES)
    x = dict(kind="abs", vals=vals, lo=lo, hi=hi, zeros=False, file=want, missing=missing, mval=-777)
    kw = dict(kw, missing_value=-777) if missing else kw
    return image(x, np.array(vals, dtype=rng.choice([int, float])).reshape(2, -1), scratch, savefile=os.path.join(scratch, f), log=True, color_profile="abs", data_range=[lo, hi], **kw)


def run(ctx):
    import warnings

    warnings.filterwarnings("ignore")
    np.seterr(all="ignore")
    rng = ctx.rng
    # the slow part in parallel: whole pages of panels
    sizes = [rng.choice([1, 3, 17, 100]), 128, rng.choice([129, 131, 200])] + ([] if not ctx.thorough else [256, 257, 259, 300, 2])
    if not ctx.thorough and rng.random() < 0.5:
        sizes[2] = 257
    jobs = [(layout(rng, n, rng.choice([1, 2]) if i else 2, rng.choice([4, 5]) if n < 200 else 3), ctx.scratch) for i, n in enumerate(sizes)]
    with ProcessPoolExecutor(min(8, len(jobs))) as ex:
        fut = [ex.submit(cals, j) for j in jobs]
        res = tlc.run(ctx, "Plots", constants=dict(MaxTiles=400, Lows="{-3, 0, 2}", Highs="{1, 3, 4}", Values="-5..6"),
                      invariants=["OwnPanel", "Fits", "InTable", "Ordered", "Distinct", "Emit"], workers=4)
        recs = []
        for c in res.cases if ctx.thorough else rng.sample(res.cases, 250):
            r = linear(rng, ctx.scratch, dict(c["x"]), list(c["vals"]) + ([c["x"]["mval"]] if c["x"]["missing"] else []))
            ctx.replayed()
            if r["ok"] and [list(q) for q in r["out"]][:2] != [rat(q[0] / q[1], 20000, 1e-8) for q in c["colours"]]:
                ctx.violation("replay:colours", "values %s of %s are coloured %s, the model says %s" % (c["vals"], c["x"], r["out"], c["colours"]), c)
            recs.append(r)
        ctx.count("spec_behaviours", len(res.cases))
        recs += [linear(rng, ctx.scratch) for _ in range(ctx.n(150, 1000))]
        recs += [log(rng, ctx.scratch) for _ in range(ctx.n(160, 900))]
        recs += [absolute(rng, ctx.scratch) for _ in range(ctx.n(40, 300))]
        recs += [f.result() for f in fut]
    bad = tlc.judge(ctx, "PlotsOps", "PlotVerdict", recs)
    for i, v in bad.items():
        for c in v:
            ctx.violation("judge:%s:%s" % (recs[i]["kind"], c), "%s fails for %s" % (c, str({k: w for k, w in recs[i].items() if k != "figs"})[:800]), dict(recs[i], figs=[]))
    ctx.sample(recs[0])
    ctx.count("judged_records", len(recs))
    ctx.count("pages_of_panels", sum(len(r["figs"]) for r in recs if r["kind"] == "cals"))
    ctx.assumptions += ["figures are inspected when they are saved and not rendered", "gains of plotted tiles are defined; images are not constant; absolute images have limits of their own"]
