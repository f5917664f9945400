"""P20 aligning model visibilities with the data, and reading them."""
import logging
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np

from .. import idlsav, tlc
from ..core import call
from ..grid import LOG
from . import p18

JD = 2456528.25
DT = [np.float64, np.float32, np.int64, np.int32, np.int16]


def days(t):
    return JD + t / 8640000.0


def params(rows, dt):
    return dict(antenna1=np.array([r[0] for r in rows], dt), antenna2=np.array([r[1] for r in rows], dt), time=np.array([days(r[2]) for r in rows], np.float64),
                uu=np.zeros(len(rows)), vv=np.zeros(len(rows)), ww=np.zeros(len(rows)))


def coded(npol, nf, n):
    """Every sample tells its own position."""
    p, f, r = np.meshgrid(np.arange(npol), np.arange(nf), np.arange(n), indexing="ij")
    return ((p + 1) * 64 + f + 1.0) + 1j * (r + 1.0)


def decode(out, npol, nf, n, rows):
    out = np.asarray(out)
    if out.shape != (npol, nf, rows):
        return None
    src = []
    for r in range(rows):
        s = set(out[:, :, r].imag.ravel().tolist())
        if len(s) != 1 or not np.isfinite(out[:, :, r]).all():
            src.append(-1)
            continue
        m = int(round(s.pop()))
        want = coded(npol, nf, m)[:, :, -1] if m else np.zeros((npol, nf))
        src.append(m if m <= n and np.array_equal(out[:, :, r], want) else -1)
    return src


def config(rng):
    return dict(input_path=rng.choice([Path("in"), "in"]), obs_id="obs", model_file_path=rng.choice([Path("model"), "model"]), model_file_type=rng.choice(["sav", "uvfits"]), instrument="mwa")


def align(x, rng, npol=None, nf=None, arr=None, pm=None):
    from PyFHD.source_modeling.vis_model_transfer import flag_model_visibilities

    npol, nf = npol or rng.choice([1, 2, 2, 4]), nf or rng.choice([1, 2, 3])
    pd = params(x["d"], rng.choice(DT))
    pm = params(x["m"], rng.choice(DT)) if pm is None else pm
    arr = coded(npol, nf, len(x["m"])) if arr is None else arr
    names = rng.choice([list, np.array])(x["names"])
    obs = dict(n_pol=npol, n_freq=nf, time_res=x["res"] / 100.0, n_tile=len(x["names"]), baseline_info=dict(tile_names=names))
    was = [arr.copy(), {k: v.copy() for k, v in pd.items()}, {k: v.copy() for k, v in pm.items()}]
    out = call(flag_model_visibilities, arr, pd, pm, obs, config(rng), LOG)
    rec = dict(x=x, how=out[0], src=[], kept=bool(np.array_equal(was[0], arr) and all(np.array_equal(was[1][k], pd[k]) for k in pd) and all(np.array_equal(was[2][k], pm[k]) for k in pm)))
    if out[0] != "ok":
        rec["why"] = str(out)
        return rec
    src = decode(out[1], npol, nf, len(x["m"]), len(x["d"]))
    return dict(rec, src=src) if src is not None else dict(rec, why="shape %s" % (np.asarray(out[1]).shape,))


def world(rng):
    """A random array, data and model."""
    nt = rng.choice([3, 5, 8, 130, 300])
    names = rng.sample(range(11, 2 * nt + 400), nt) if rng.random() < 0.7 else list(range(1, nt + 1))
    T = sorted(rng.sample(range(1, nt + 1), rng.choice([2, 3, min(5, nt)])))
    D = sorted(rng.sample(T, rng.choice([len(T), max(1, len(T) - 1)])))
    M = T if rng.random() < 0.75 else sorted(rng.sample(T, len(T) - 1) + rng.sample(range(1, nt + 1), 1))
    M = sorted(set(M))
    step = rng.choice([50, 100, 200, 800])
    n = rng.choice([1, 2, 3, 4])
    dt = [k * step for k in range(n)]
    off = rng.choice([0, 0, rng.randint(-step // 2 + 3, step // 2 - 3), rng.choice([-1, 1]) * rng.randint(0, step)])
    mt = [t + off for t in dt] if rng.random() < 0.7 else [off + k * step for k in range(-1, n + rng.choice([0, 1]))]
    if rng.random() < 0.2:
        mt = [t + rng.choice([-2, 0, 3]) for t in mt]
    if rng.random() < 0.1:
        dt = [t + rng.choice([-2, 0, 3]) for t in dt]
    if rng.random() < 0.35:
        dt = sorted(rng.sample(range(0, 1200, rng.choice([5, 20, 50])), rng.choice([1, 2, 3])))
        mt = [t + rng.randint(-90, 90) for t in dt] + rng.sample(range(-100, 1300), rng.choice([0, 1, 2]))
    mt, dt = sorted(set(mt)), sorted(set(dt))

    def rows(S, ts, f, miss):
        au = rng.choice(["none", "all", "all", "some"])
        out = []
        blk = [(a, b) for a in S for b in S if a < b or (a == b and (au == "all" or (au == "some" and rng.random() < 0.5)))]
        o = rng.choice(["fwd", "fwd", "rev", "last", "shuffle"])
        if o == "rev":
            blk.reverse()
        elif o == "last":
            blk.sort(key=lambda p: p[0] == p[1])
        elif o == "shuffle":
            rng.shuffle(blk)
        for t in ts:
            out += [[f(a), f(b), t] for a, b in blk]
        if rng.random() < miss:
            out = [r for r in out if rng.random() < 0.85]
        if rng.random() < 0.1:
            rng.shuffle(out)
        return out

    named = names[0] > 0 and rng.random() < 0.4
    d = rows(D, dt, (lambda a: names[a - 1]) if named else (lambda a: a), 0.25)
    m = rows(M, mt, lambda a: a, 0.2)
    if not d or not m:
        return None
    # names no greater than the number of tiles cannot be told from indices
    if named and max(max(r[:2]) for r in d) <= nt:
        return None
    return dict(d=d, m=m, names=names, res=rng.choice([step, step, 200]))


def load(ctx, rng):
    """Model files: visibilities and rows come back as they are in the file(s)."""
    from PyFHD.source_modeling import vis_model_transfer as V

    if rng.random() < 0.5:
        ants = sorted(rng.sample(range(1, rng.choice([3, 8, 128]) + 1), rng.choice([2, 3])))
        rows = [dict(a=a, b=b, t=t, d=0, u=rng.randint(-9, 9), v=rng.randint(-9, 9), w=rng.randint(-9, 9)) for t in range(rng.choice([1, 2])) for a in ants for b in ants if a <= b]
        npol, nf = rng.choice([1, 2, 4]), rng.choice([1, 2, 3])
        x = dict(enc=rng.choice(["pair", "256"]), rows=rows, nf=nf, np=npol, cfgpol=rng.choice([0, min(2, npol), npol]), shift=rng.randint(0, 9), dates=1, extra=2, fref=150000, fres=80, crpix2=2, tiles=len(ants), has=list(p18.STORED), instrument="mwa")
        path = os.path.join(ctx.scratch, "model.uvfits")
        p18.write(path, x)
        want = rng.choice(["ok", "ok", "exit"])
        cfg = dict(model_file_type="uvfits", model_file_path=rng.choice([path, Path(path)]), obs_id="other", input_path="nowhere", instrument="mwa", n_pol=x["cfgpol"])
        out = call(V.vis_model_transfer, cfg, dict(n_freq=nf + rng.choice([-1, 1]) * (want == "exit"), n_pol=x["cfgpol"] or npol), LOG)
        n = len(rows)
        w = (np.arange(n * nf * npol * 3, dtype=float) - x["shift"]).reshape(n, nf, npol, 3)[:, :, : x["cfgpol"] or npol]
        vis = (w[..., 0] + 1j * w[..., 1]).transpose(2, 1, 0)
        ok = lambda p: [(int(a), int(b)) for a, b in zip(p["antenna1"], p["antenna2"])] == [(r["a"], r["b"]) for r in rows] and np.allclose(p["uu"], [r["u"] / 8.0 for r in rows])
        x = dict(kind="uvfits", nf=nf, npol=npol, cfgpol=x["cfgpol"], rows=n)
    else:
        npol, nf, n = rng.choice([1, 2, 4]), rng.choice([1, 2, 3]), rng.choice([1, 2, 5])
        pn = ["XX", "YY", "XY", "YX"]
        dt = rng.choice([np.complex64, np.complex128])
        vis = coded(npol, nf, n) * (1 if dt == np.complex64 else 1 / 3.0)
        miss, missing = rng.random() < 0.3, rng.randrange(-1, npol)
        pack = rng.choice(["plain", "pointer", "rec"])
        folder = tempfile.mkdtemp(dir=ctx.scratch)
        num = lambda ty, v: dict(k="num", ty=ty, d=list(np.shape(v)), v=[(complex(z).real, complex(z).imag) for z in np.ravel(v)])
        for i in range(npol):
            a = num("complex" if dt == np.complex64 else "dcomplex", vis[i].T)
            a = a if pack == "plain" else dict(k="ptr", v=a) if pack == "pointer" else dict(k="ptrs", d=[1], v=[a])
            idlsav.save(os.path.join(folder, "obs_vis_model_%s.sav" % pn[i]), [("obs", num("long", [1])), ("vis_model_ptr", a)] if rng.random() < 0.3 else [("vis_model_ptr", a)], rng.random() < 0.3)
        t = np.arange(n, dtype=float)
        cells = [num("double", t * 2), num(rng.choice(["int", "long", "float"]), np.arange(n) + 1), num(rng.choice(["int", "long", "float"]), np.arange(n) + 2), num("double", t)]
        if rng.random() < 0.3:
            cells = [dict(k="ptr", v=c) for c in cells]
        idlsav.save(os.path.join(folder, "obs_params.sav"), [("params", dict(k="rec", f=["uu", "antenna1", "antenna2", "time"], v=[cells]))])
        if miss:
            os.remove(os.path.join(folder, "obs_vis_model_%s.sav" % pn[missing] if missing >= 0 else "obs_params.sav"))
        want = "exit" if miss else "ok"
        x = dict(kind="sav", nf=nf, npol=npol, rows=n, pack=pack, missing=int(missing) if miss else -9)
        out = call(V.vis_model_transfer, dict(model_file_type="sav", model_file_path=rng.choice([folder, Path(folder)]), obs_id="obs"), dict(n_pol=npol, n_freq=nf, pol_names=np.array(pn + ["I", "Q", "U", "V"])), LOG)
        shutil.rmtree(folder)
        flat = lambda v: np.atleast_1d(np.asarray(v))
        ok = lambda p: np.array_equal(flat(p["antenna1"]), np.arange(n) + 1) and np.array_equal(flat(p["antenna2"]), np.arange(n) + 2) and np.array_equal(flat(p["time"]), t)
    rec = dict(x=x, how=out[0], want=want, samples=False, rows=False)
    if out[0] != "ok":
        return dict(rec, why=str(out))
    try:
        a, p = out[1]
        rec.update(samples=bool(np.array_equal(np.asarray(a), vis)), rows=bool(ok(p)))
    except Exception as e:
        rec["why"] = repr(e)
    return rec


def run(ctx):
    rng = ctx.rng
    logging.getLogger().setLevel(logging.CRITICAL)
    # bounds: the time sets cover equal, early, late, coarser, finer and disjoint steps
    res = tlc.run(ctx, "Model", constants=dict(
        NTile=ctx.n("3", "3"), DTimes=ctx.n("{<<0>>, <<0, 200>>}", "{<<0>>, <<0, 200>>, <<0, 200, 400>>, <<0, 50>>}"),
        MTimes=ctx.n("{<<0, 200>>, <<-60, 140>>, <<70, 270>>}", "{<<0, 200, 400>>, <<-60, 140, 340>>, <<70, 270>>, <<-130, 70, 270>>, <<0, 800>>, <<0, 50, 100>>}"), Ress=ctx.n("{200}", "{50, 200}"), MaxDrop=ctx.n("1", "2")),
        invariants=["Refusal", "Outcome", "SamePair", "SameStep", "Nothing", "Once", "Emit"])
    ctx.count("spec_behaviours", len(res.cases))
    for c in rng.sample(res.cases, min(len(res.cases), ctx.n(4000, 40000))):
        r = align(c["x"], rng)
        ctx.replayed()
        if c["refused"]:
            if r["how"] != "exit":
                ctx.violation("replay:refused", "aligning %s is not refused: %s" % (c["x"], r), c)
        elif r["how"] != "ok":
            ctx.violation("replay:returns", "aligning %s: %s" % (c["x"], r["why"]), c)
        elif r["src"] != list(c["src"]):
            ctx.violation("replay:source", "aligning %s took the model rows %s instead of %s" % (c["x"], r["src"], c["src"]), c)
        if not r["kept"]:
            ctx.violation("replay:inputs-kept", "aligning %s changed its inputs" % c["x"], c)
    ctx.sample(res.cases[len(res.cases) // 2])
    recs = [align(x, rng) for x in (world(rng) for _ in range(ctx.n(1500, 12000))) if x]
    for i, v in sorted(tlc.judge(ctx, "ModelOps", "MVerdict", recs).items()):
        for cl in v:
            ctx.violation("judge:" + cl, "%s: aligning %s" % (cl, recs[i]), recs[i])
    ctx.sample(recs[0])
    with p18.Sites():
        lrecs = [load(ctx, rng) for _ in range(ctx.n(120, 1000))]
    for i, v in sorted(tlc.judge(ctx, "ModelOps", "LoadVerdict", lrecs).items()):
        for cl in v:
            ctx.violation("judge:load:" + cl, "%s: loading %s" % (cl, lrecs[i]), lrecs[i])
    ctx.assumptions = ["the model numbers tiles by index and orders the two tiles of a pair as the data does", "times exactly between two model times, and offsets within 0.02 s of a limit, are not judged",
                       "sav files are replaced by what readsav returns for them"]
