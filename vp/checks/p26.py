"""P26 beam images."""
import copy
import os
from pathlib import Path

import numpy as np

from .. import idlsav, tlc
from ..core import call
from ..grid import LOG

LN = np.sqrt(2 * np.log(2))


def ints(a, scale):
    """whole numbers out of an image, by rows"""
    v = np.asarray(a, float).ravel() * scale
    r = np.round(v)
    bad = ~np.isfinite(v) | (np.abs(v - r) > 1e-6 * np.maximum(1.0, np.abs(v))) | (np.abs(v) > 2e9)
    return [1999999998 if b else int(t) for t, b in zip(r, bad)]


def psf_of(x, rng):
    np_, nb = x["np"], max(x["bins"])
    d = dict(dim=x["psfdim"], fnorm=np.array(x["norm"], float) / 2, pix_horizon=float(x["hor"]), resolution=2,
             id=np.array([[[g for g in x["ids"]]] * nb] * np_, np.int64))
    if x["gauss"]:
        res = x["dim"] / x["hor"]
        par = []
        for p in x["lob"]:
            row = []
            for b in p:
                v = []
                for l in b:
                    # where the lobe is on the grid the parameters were fitted on
                    at = lambda c: (c / 2 - x["dim"] / 2) / res + 1.3 * x["hor"] / 2
                    sg = lambda k: 1 / (LN * np.sqrt(k)) / res
                    v += [l["a"] / 8, at(l["cx"]), sg(l["kx"]), at(l["cy"]), sg(l["ky"])]
                row.append(v)
            par.append(row)
        d["beam_gaussian_params"] = np.array(par)
    k = np.array(x["ker"], float)
    k = k[..., 0] + 1j * k[..., 1]
    ptr = np.full((np_, nb, 3, 3, x["psfdim"] ** 2), 777 + 77j)
    ptr += np.array([rng.random() for _ in range(9)]).reshape(3, 3)[None, None, :, :, None]
    ptr[:, :, 0, 0, :] = k
    d["beam_ptr"] = ptr
    return d


def real(ctx, x, rng):
    from PyFHD.beam_setup.beam import create_psf
    from PyFHD.beam_setup.beam_utils import beam_image
    from PyFHD.io.pyfhd_io import save

    psf = psf_of(x, rng)
    obs = dict(dimension=rng.choice([int, float])(x["dim"]) if False else x["dim"], elements=x["dim"], kpix=rng.choice([0.5, 1.0, 0.3]), n_pol=x["np"], n_freq=x["nf"],
               baseline_info=dict(fbin_i=np.array(x["bins"], np.int64) - 1, freq_use=np.array(x["use"], np.int64)))
    kw = dict(square=x["square"], abs=x["abs"])
    if x["fi"]:
        kw["freq_i"] = rng.choice([int, np.int64])(x["fi"] - 1)
    before = copy.deepcopy((psf, obs))
    rec = dict(x=x, ok=False, image=[], wide=[], real=False, kept=False, again=False, lazy=False)
    o = call(beam_image, psf, obs, x["pol"] - 1, **kw)
    if o[0] != "ok":
        return dict(rec, why=str(o)[:300])
    eq = lambda a, b: all((eq(a[k], b[k]) if isinstance(a[k], dict) else np.array_equal(a[k], b[k])) for k in b) and set(a) == set(b)
    rec["kept"] = eq(psf, before[0]) and eq(obs, before[1])
    chans = [x["fi"] - 1] if x["fi"] else [c for c in range(x["nf"]) if x["use"][c]]
    norm = sum(x["norm"][x["bins"][c] - 1] for c in chans) / 2
    scale = norm * ((2**22 if x["square"] else 2**11) if x["gauss"] else 1)
    im = np.asarray(o[1])
    rec.update(ok=True, real=not np.iscomplexobj(im))
    if im.shape == (x["dim"], x["dim"]):
        rec["image"] = ints(im.real, scale)
    if not x["gauss"]:
        # a bigger grid shows the same image on finer pixels
        for a in (2, 4):
            w = call(beam_image, psf, dict(obs, dimension=4 * a, elements=4 * a), x["pol"] - 1, **kw)
            ok = w[0] == "ok" and np.shape(w[1]) == (4 * a, 4 * a)
            rec["wide"].append(ints(np.asarray(w[1])[::a, ::a].real, scale) if ok else [])
    same = lambda r: r[0] == "ok" and np.shape(r[1]) == im.shape and np.array_equal(r[1], im)
    rec["again"] = bool(same(call(beam_image, psf, obs, x["pol"] - 1, **kw)))
    if x["file"]:
        # the same from the file of a run before, read at once or when needed
        p = Path(ctx.scratch, "psf.h5")
        if p.exists():
            os.remove(p)
        save(p, psf, "psf", logger=LOG)
        got = []
        for lazy in (True, False):
            r = call(create_psf, dict(beam_file_path=p, lazy_load_beam=lazy), LOG)
            if r[0] != "ok":
                got.append(r)
                continue
            got.append(call(beam_image, r[1], obs, x["pol"] - 1, **kw))
            if lazy:
                r[1].close()
        rec["lazy"] = bool(all(same(g) for g in got))
        if not rec["lazy"]:
            rec["why"] = str([g[:3] if g[0] != "ok" else "ok" for g in got])[:300]
    else:
        rec["lazy"] = True
    return rec


def world(rng):
    gauss = rng.random() < 0.5
    dim = rng.choice([2, 3, 4]) if gauss else 4
    npol, nf = rng.choice([1, 2, 2, 4]), rng.randint(1, 5)
    nb = rng.randint(1, min(nf, 3))
    bins = sorted([1 + i % nb for i in range(nf)]) if rng.random() < 0.7 else [rng.randint(1, nb) for _ in range(nf)]
    use = [1 if rng.random() < 0.75 else 0 for _ in range(nf)]
    if not any(use):
        use[rng.randrange(nf)] = 1
    fi = rng.choice([0, 0, rng.randint(1, nf)])
    square = rng.random() < 0.5
    absv = square and rng.random() < 0.4
    nb = max(bins)
    pyth = [[0, 0], [3, 4], [-4, 3], [0, 5], [-2, 0], [1, 0], [0, -1], [6, -8]]
    num = (lambda: rng.choice(pyth)) if absv else (lambda: [rng.randint(-5, 5), rng.randint(-5, 5)])

    def axis():
        c = rng.randint(0, 2 * dim - 2)
        if rng.random() < 0.6:
            c = 2 * (dim // 2)
        far = max(abs(2 * i - c) for i in range(dim))
        ks = [k for k in (1, 2, 3, 4) if k * far * far // 4 <= 4 and (c % 2 == 0 or k % 4 == 0)]
        return (c, rng.choice(ks)) if ks else None

    def lobe():
        while True:
            a, b = axis(), axis()
            if a and b:
                return dict(a=rng.choice([1, 2, 4, 8, -2]), cx=a[0], kx=a[1], cy=b[0], ky=b[1])

    return dict(np=npol, nf=nf, bins=bins, use=use, fi=fi, square=square, abs=absv, pol=rng.randint(1, npol), norm=[rng.choice([2, 2, 1, 3, 4]) for _ in range(nb)], ids=[rng.choice([0, 0, 0, 1, 2]) for _ in range(rng.randint(1, 4))] if rng.random() < 0.4 else [0] * rng.randint(1, 3),
                gauss=gauss, dim=dim, psfdim=2, hor=rng.choice([10, 20, 5, 2, 40]), ker=[[[num() for _ in range(4)] for _ in range(nb)] for _ in range(npol)],
                lob=[[[lobe() for _ in range(n)] for _ in range(nb)] for n in [rng.randint(1, 3)] * npol] if gauss else [], file=rng.random() < 0.3)


def sav(ctx, rng):
    import PyFHD.beam_setup.beam as B

    nb, nf, npol, res, d = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3), rng.choice([2, 4])
    num = lambda: [rng.randint(-9, 9), rng.randint(-9, 9)]
    x = dict(nb=nb, nf=nf, np=npol, dim=d, fnorm=[rng.randint(1, 9) for _ in range(nf)], ptr=[[[[[[num() for _ in range(d * d)] for _ in range(res)] for _ in range(res)] for _ in range(npol)] for _ in range(nf)] for _ in range(nb)],
             id=[[[rng.randint(0, 5) for _ in range(npol)] for _ in range(nf)] for _ in range(nb)])

    flat = lambda v, n: v if n == 0 else [t for w in v for t in flat(w, n - 1)]
    num = lambda ty, d, v: dict(k="num", ty=ty, d=d, v=[t if isinstance(t, list) else [t, 0] for t in v])
    kernel = lambda v: dict(k="ptrs", d=[res, res], v=[num("complex", [d * d], w) for w in flat(v, 1)])
    ptr = dict(k="ptrs", d=[nb, nf, npol], v=[kernel(v) for v in flat(x["ptr"], 2)])
    cells = dict(dim=num("float", [], [d]), resolution=num("int", [], [res - 1]), fnorm=num("double", [nf], x["fnorm"]), id=num("long", [nb, nf, npol], flat(x["id"], 2)),
                 beam_ptr=dict(k="ptr", v=ptr) if rng.random() < 0.3 else ptr, pix_horizon=num("float", [], [3]), pol=dict(k="txt", d=[2], v=["XX", "YY"]))
    keys = list(cells)
    if rng.random() < 0.5:
        rng.shuffle(keys)
    path = Path(ctx.scratch, "beam%d.sav" % rng.randrange(10**9))
    idlsav.save(path, [("psf", dict(k="rec", f=keys, v=[[cells[k] for k in keys]]))], rng.random() < 0.3)
    o = call(B.create_psf, dict(beam_file_path=path, lazy_load_beam=True), LOG)
    os.remove(path)
    rec = dict(x=x, ok=False, got={}, file={}, lazy={})

    def show(p):
        one = lambda v: int(np.ravel(np.asarray(v[()] if hasattr(v, "shape") else v))[0])
        kk = np.asarray(p["beam_ptr"][:], complex)
        return dict(dim=one(p["dim"]), fnorm=[int(v) for v in p["fnorm"][:]], id=np.asarray(p["id"][:]).astype(int).tolist(), ker=np.stack([kk.real, kk.imag], -1).astype(int).tolist())

    try:
        if o[0] != "ok":
            return dict(rec, why=str(o)[:300])
        rec["got"] = show(o[1])
        h5 = path.with_suffix(".h5")
        for k, lz in (("file", False), ("lazy", True)):
            q = call(B.create_psf, dict(beam_file_path=h5, lazy_load_beam=lz), LOG)
            if q[0] != "ok":
                return dict(rec, why=str(q)[:300])
            rec[k] = show(q[1])
            if lz:
                q[1].close()
        rec["ok"] = True
    except (ValueError, TypeError, KeyError, IndexError) as e:
        rec["why"] = repr(e)
    finally:
        if path.with_suffix(".h5").exists():
            os.remove(path.with_suffix(".h5"))
    return rec


def run(ctx):
    rng = ctx.rng
    ks = "{<<<<1, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, <<<<2, 1>>, <<-1, 0>>, <<0, 1>>, <<0, -3>>>>, <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 2>>>>, <<<<1, -1>>, <<3, 1>>, <<-2, 0>>, <<1, 1>>>>}"
    for nf in ctx.n([2, 3], [2, 3, 4]):
        res = tlc.run(ctx, "Beam", constants=dict(Kernels=ks, Nf=str(nf)), invariants=["Collected", "Positive", "Only", "Energy", "Peak", "Emit"])
        ctx.count("spec_behaviours", len(res.cases))
        for c in rng.sample(res.cases, min(len(res.cases), ctx.n(250, 4000))):
            x = dict(np=1, nf=nf, bins=list(c["bins"]), use=list(c["use"]), fi=c["fi"], square=c["square"], abs=False, pol=1, norm=[2, 3], ids=[0], gauss=False, dim=4, psfdim=2, hor=10, ker=[[[list(v) for v in k] for k in c["ker"]]], lob=[], file=False)
            x["norm"] = x["norm"][: max(x["bins"])]
            x["ker"][0] = x["ker"][0][: max(x["bins"])]
            r = real(ctx, x, rng)
            ctx.replayed()
            if r["image"] != list(c["im"]):
                ctx.violation("replay:image", "the beam of %s is %s instead of %s" % (x, r["image"] or r.get("why"), c["im"]), dict(x=x, case=c, real=r))
    recs = [real(ctx, world(rng), rng) for _ in range(ctx.n(800, 12000))]
    for i, v in sorted(tlc.judge(ctx, "BeamOps", "BmVerdict", recs).items()):
        for cl in v:
            ctx.violation("judge:" + cl, "%s: the beam of %s %s" % (cl, recs[i]["x"], recs[i].get("why", "")), recs[i])
    savs = [sav(ctx, rng) for _ in range(ctx.n(60, 600))]
    for i, v in sorted(tlc.judge(ctx, "BeamOps", "SvVerdict", savs).items()):
        for cl in v:
            ctx.violation("judge:" + cl, "%s: the beam read from %s %s" % (cl, str(savs[i]["x"])[:300], savs[i].get("why", "")), savs[i])
    ctx.sample(recs[0]["x"])
    ctx.assumptions = ["kernels of 2 by 2 cells on a 4 by 4 plane, and Gaussians that fall by powers of two, so that images are exact", "square images with an even number of cells for kernels", "one kernel per channel for all baselines (as the beam is read)"]
