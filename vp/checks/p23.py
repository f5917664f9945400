"""P23 guarded inverse, mirror, cross-polarisation reformatting and splitting, index grids."""
import numpy as np

from .. import tlc
from ..core import call, rat

SPECIAL = {1: float("nan"), 2: float("inf"), 3: float("-inf")}


def toarr(m, cplx=True):
    a = np.array([[complex(*z) for z in row] for row in m])
    return a if cplx else a.real.copy()


def gi(z):
    z = complex(z)
    r, i = round(z.real) if np.isfinite(z.real) else 0, round(z.imag) if np.isfinite(z.imag) else 0
    if abs(z - complex(r, i)) > 1e-9 or not np.isfinite(z):
        return [1999999999, 0]
    return [int(r), int(i)]


def frommat(a):
    a = np.asarray(a)
    return [[gi(z) for z in row] for row in a] if a.ndim == 2 else []


def inverse_rec(rng):
    from PyFHD.pyfhd_tools.pyfhd_utils import weight_invert

    cplx = rng.random() < 0.4
    integer = not cplx and rng.random() < 0.2
    n = rng.choice([1, 1, 2, 3, 4, 6, 12])
    vals = []
    for _ in range(n):
        tag = 0 if integer or rng.random() < 0.75 else rng.choice([1, 2, 3])
        vals.append([rng.choice([0, 0, 1, -1, 2, 3, -4, 5, 12]) if tag == 0 else 0, rng.choice([0, 1, -2, 3]) if cplx and tag == 0 else 0, tag])
    if rng.random() < 0.1:
        vals = [[0, 0, 0]] * n
    thr = [] if rng.random() < 0.4 else rng.choice([[1, 1], [2, 1], [1, 2], [3, 1], [-2, 1], [0, 1], [1, 1000]])
    use_abs = rng.random() < 0.4
    arr = np.array([complex(v[0], v[1]) if v[2] == 0 else complex(SPECIAL[v[2]], 0 if rng.random() < 0.5 else 1) for v in vals])
    if not cplx:
        arr = arr.real.astype(np.int64) if integer else arr.real.astype(rng.choice([np.float64, np.float64, np.float32]))
    elif rng.random() < 0.2:
        arr = arr.astype(np.complex64)
    shape = arr.shape
    if n in (4, 6, 12) and rng.random() < 0.5:
        shape = (2, n // 2) if rng.random() < 0.5 or n == 4 else (n // 3, 3)
        arr = arr.reshape(shape)
    asscalar = n == 1 and rng.random() < 0.6
    inp = arr[0] if asscalar else arr
    if asscalar and rng.random() < 0.5:
        inp = inp.item()
    keep = arr.copy()
    kw = {}
    if thr:
        kw["threshold"] = thr[0] / thr[1]
    if use_abs or rng.random() < 0.3:
        kw["use_abs"] = use_abs
    out = call(weight_invert, inp, **kw)
    rec = dict(kind="inverse", vals=vals, thr=thr, mag=bool(use_abs or cplx), kept=bool(np.array_equal(arr, keep, equal_nan=True)),
               ok=out[0] == "ok", out=[], scalar=False, shape_ok=False, why="%s %s" % (arr.dtype, str(out)[:300]))
    if out[0] == "ok":
        tol = 1e-6 if arr.dtype in (np.float32, np.complex64) else 1e-12
        r = np.asarray(out[1])
        rec["scalar"] = r.ndim == 0
        rec["shape_ok"] = r.ndim == 0 or r.shape == shape
        rec["out"] = [[rat(complex(z).real, tol=tol), rat(complex(z).imag, tol=tol)] for z in r.ravel()]
    return rec


def plane(rng, E, D, even=False, cplx=True):
    k = 2 if even else 1
    return [[[k * rng.randint(-6, 6), k * rng.randint(-6, 6) if cplx else 0] for _ in range(D)] for _ in range(E)]


def run(ctx):
    from PyFHD.gridding.gridding_utils import conjugate_mirror, crosspol_reformat
    from PyFHD.pyfhd_tools.pyfhd_utils import crosspol_split_real_imaginary, deriv_coefficients, meshgrid

    vals = "{<<0, 4>>, <<8, -4>>}"
    res = tlc.run(ctx, "Algebra",
                  constants=dict(Shapes="{<<1, 1>>, <<1, 3>>, <<2, 2>>}" if not ctx.thorough else "{<<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<1, 4>>, <<2, 1>>}",
                                 Vals=vals if not ctx.thorough else "{<<0, 4>>, <<8, -4>>, <<-8, 0>>}" if False else vals, Depth=str(ctx.n(2, 3))),
                  invariants=["MirrorInvolution", "ReformatHermitian", "ParallelHandsKept", "Emit"], properties=["SplitLossless"])
    rng = ctx.rng
    for c in res.cases:
        p = np.array([toarr(m) for m in c["p0"]])
        bad = None
        for op in c["ops"]:
            if op == "reformat":
                o = call(crosspol_reformat, p)
            elif op == "split":
                o = call(crosspol_split_real_imaginary, p, None)
                if o[0] == "ok":
                    o = ("ok", o[1][0])
            else:
                k = int(op[-1]) - 1
                o = call(conjugate_mirror, p[k])
                if o[0] == "ok":
                    q = p.copy()
                    q[k] = o[1]
                    o = ("ok", q)
            if o[0] != "ok":
                bad = o
                break
            p = o[1]
        ctx.replayed()
        if bad is not None or [frommat(m) for m in p] != c["p"]:
            ctx.violation("replay:%s" % c["ops"][-1], "operations %s on %s gave %s, model %s" % (c["ops"], c["p0"], bad or [frommat(m) for m in p], c["p"]), c)
    ctx.count("spec_behaviours", len(res.cases))
    ctx.sample(res.cases[0])
    recs = [inverse_rec(rng) for _ in range(ctx.n(1500, 12000))]
    for _ in range(ctx.n(500, 4000)):
        E, D = rng.choice([1, 2, 3, 4, 5]), rng.choice([1, 2, 3, 4, 5])
        t = rng.random()
        if t < 0.35:
            cplx = rng.random() < 0.7
            m = plane(rng, E, D, cplx=cplx)
            a = toarr(m, cplx)
            keep = a.copy()
            o = call(conjugate_mirror, a)
            o2 = call(conjugate_mirror, o[1]) if o[0] == "ok" else o
            ok = o[0] == "ok" and o2[0] == "ok"
            recs.append(dict(kind="mirror", m=m, cplx=cplx, ok=ok, kept=bool(np.array_equal(a, keep)), out=frommat(o[1]) if ok else [], out2=frommat(o2[1]) if ok else [], why=str(o)[:200]))
        elif t < 0.6:
            p = [plane(rng, E, D, even=True) for _ in range(4)]
            o = call(crosspol_reformat, np.array([toarr(m) for m in p]))
            ok = o[0] == "ok"
            recs.append(dict(kind="reformat", p=p, ok=ok, kept=True, out=[frommat(m) for m in o[1]] if ok else [], why=str(o)[:200]))
        elif t < 0.8:
            p = [plane(rng, E, D) for _ in range(4)]
            names = [] if rng.random() < 0.3 else ["XX", "YY", rng.choice(["XY", "I", "Q-like"]), "YX"]
            o = call(crosspol_split_real_imaginary, np.array([toarr(m) for m in p]), list(names) if names else None)
            ok = o[0] == "ok"
            recs.append(dict(kind="split", p=p, names=names, ok=ok, kept=True, out=[frommat(m) for m in o[1][0]] if ok else [],
                             outnames=list(o[1][1]) if ok and o[1][1] is not None else [], why=str(o)[:200]))
        elif t < 0.95:
            ax = rng.choice([1, 2])
            kw = dict(return_integer=True) if rng.random() < 0.5 else {}
            square = rng.random() < 0.4
            o = call(meshgrid, D, ax, **kw) if square else call(meshgrid, D, E, ax, **kw)
            ok = o[0] == "ok" and np.ndim(o[1]) == 2
            recs.append(dict(kind="grid", dim=D, el=D if square else E, axis=ax, ok=ok, kept=True,
                             out=[[int(x) if x == int(x) else 9999 for x in row] for row in o[1]] if ok else [], why=str(o)[:200]))
        else:
            n = rng.choice([0, 1, 2, 3, 4, 5, 6])
            o = call(deriv_coefficients, n)
            ok = o[0] == "ok"
            recs.append(dict(kind="deriv", n=n, ok=ok, kept=True, out=[int(x) for x in np.atleast_1d(o[1])] if ok else [], why=str(o)[:200]))
    bad = tlc.judge(ctx, "AlgebraOps", "AlgVerdict", recs)
    for i, v in bad.items():
        for c in v:
            ctx.violation("judge:%s:%s" % (recs[i]["kind"], c), "%s fails for %s" % (c, recs[i]), recs[i])
    ctx.count("judged_records", len(recs))
