"""P09 rebin."""
import numpy as np

from .. import tlc
from ..core import call, rat


def real(req, flat=False, cplx=False, shape_as_list=False):
    from PyFHD.pyfhd_tools.pyfhd_utils import rebin

    a = np.array(req["a"], dtype=np.int64 if req["integer"] else np.float64)
    if cplx:
        a = a + 1j * (2 * a)
    if flat and a.shape[0] == 1:
        a = a[0]
    keep = a.copy()
    shape = list(req["shape"]) if shape_as_list else tuple(req["shape"])
    out = call(rebin, a, shape, **({"sample": True} if req["sample"] else {}))
    kept = bool(np.array_equal(a, keep))
    if out[0] == "raise" and out[1] == "ValueError":
        return dict(out="refused", res=[], isint=True, kept=kept, why=str(out))
    if out[0] != "ok":
        return dict(out="error", res=[], isint=True, kept=kept, why=str(out))
    r = np.asarray(out[1])
    isint = bool(np.issubdtype(r.dtype, np.integer))
    if r.ndim == 1:
        r = r.reshape(1, -1)
    if r.ndim != 2:
        return dict(out="ok", res=[], isint=isint, kept=kept)
    if cplx:
        if not np.allclose(r.imag, 2 * r.real, rtol=1e-12, atol=1e-12):
            return dict(out="error", res=[], isint=isint, kept=kept, why="complex parts treated differently")
        r = r.real
    return dict(out="ok", res=[[rat(x) for x in row] for row in r], isint=isint, kept=kept)


def run(ctx):
    res = tlc.run(
        ctx, "Rebin",
        constants=dict(Rows="{1, 2}" if not ctx.thorough else "{1, 2, 3}", Cols="{1, 2}" if not ctx.thorough else "{1, 2, 3}",
                       NewRows="{1, 2, 3, 4, 6}", NewCols="{1, 2, 4, 6}", Vals="{-2, 0, 3}" if not ctx.thorough else "{-3, 4}"),
        invariants=["Agrees", "Shape", "Corners", "SampleInverse", "Bounded", "Emit"], heap="8g",
    )
    for c in res.cases:
        if ctx.rng.random() > ctx.n(0.7, 0.5):
            continue
        got = real(c["req"], flat=ctx.rng.random() < 0.5)
        ctx.replayed()
        if c["refused"]:
            if got["out"] != "refused":
                ctx.violation("replay:refusal", "%s should be refused, got %s" % (c["req"], got), c)
        elif got["out"] != "ok" or got["res"] != c["res"]:
            ctx.violation("replay:values", "%s gave %s, model %s" % (c["req"], got, c["res"]), c)
    ctx.count("spec_behaviours", len(res.cases))
    ctx.sample(res.cases[100])
    recs = []
    rng = ctx.rng
    for _ in range(ctx.n(900, 8000)):
        R, C = rng.choice([1, 1, 2, 3, 4, 6]), rng.choice([1, 2, 3, 4, 5, 6, 8])

        def newsize(n):
            k = rng.choice([1, 2, 3, 4, 5, 6])
            t = rng.random()
            if t < 0.45:
                return n * k
            if t < 0.85:
                return rng.choice([d for d in range(1, n + 1) if n % d == 0])
            return rng.randint(1, 9)

        shape = [newsize(R), newsize(C)]
        if shape[0] * shape[1] > 160:
            continue
        a = [[rng.randint(-20, 20) for _c in range(C)] for _r in range(R)]
        req = dict(a=a, shape=shape, sample=rng.random() < 0.3, integer=rng.random() < 0.5)
        g = real(req, flat=rng.random() < 0.5, cplx=(not req["integer"]) and rng.random() < 0.3, shape_as_list=rng.random() < 0.2)
        recs.append(dict(req=req, **g))
    bad = tlc.judge(ctx, "RebinOps", "BVerdict", recs)
    for i, v in bad.items():
        for c in v:
            ctx.violation("judge:" + c, "%s fails for %s" % (c, recs[i]), recs[i])
    ctx.count("judged_records", len(recs))
    ctx.assumptions.append("factors up to 6 and integers up to 20: the interpolation step of the code is exact there")
