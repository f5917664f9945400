"""P07 array_match / idl_argunique."""
import numpy as np

from .. import tlc
from ..core import call


def real_match(req, dtype=np.int64):
    from PyFHD.pyfhd_tools.pyfhd_utils import array_match

    args = [np.array(req["a1"], dtype=dtype), np.array(req["v"], dtype=dtype)]
    if req["two"]:
        args.append(np.array(req["a2"], dtype=dtype))
    keep = [a.copy() for a in args]
    out = call(array_match, *args)
    if out[0] != "ok":
        return dict(ok=False, nomatch=False, res=[], why=str(out))
    if any(not np.array_equal(a, b) for a, b in zip(keep, args)):
        return dict(ok=False, nomatch=False, res=[], why="arguments modified")
    r = out[1]
    if np.isscalar(r) or np.ndim(r) == 0:
        return dict(ok=True, nomatch=bool(r == -1), res=[])
    r = np.asarray(r)
    return dict(ok=True, nomatch=False, res=[int(x) for x in r.ravel()])


def real_uniq(req):
    from PyFHD.pyfhd_tools.pyfhd_utils import idl_argunique

    a = np.array(req["a1"]) * req.get("scale", 1)
    out = call(idl_argunique, a)
    if out[0] != "ok":
        return dict(ok=False, nomatch=False, res=[], why=str(out))
    return dict(ok=True, nomatch=False, res=[int(x) for x in out[1]])


def run(ctx):
    res = tlc.run(ctx, "Match", constants=dict(MaxLen=ctx.n(2, 3), Vals="{1, 2, 4}" if not ctx.thorough else "{0, 1, 3}", MaxV=2, VVals="{0, 1, 2, 4, 6}"),
                  invariants=["Exact", "SetLike", "Emit"])
    for c in res.cases:
        got = real_match(c["req"])
        ctx.replayed()
        if not got["ok"]:
            ctx.violation("replay:returns", "matching %s did not return: %s" % (c["req"], got["why"]), c)
        elif got["res"] != c["hits"] or got["nomatch"] != (c["hits"] == []):
            ctx.violation("replay:match", "matching %s returned %s, model %s" % (c["req"], got, c["hits"]), c)
    ctx.sample(res.cases[7])
    ctx.count("spec_behaviours", len(res.cases))
    recs = []
    rng = ctx.rng
    for _ in range(ctx.n(1500, 12000)):
        n = rng.choice([1, 1, 2, 4, 8, 16, 30])
        base = rng.choice([-20, -3, 0, 0, 1, 1, 7, 100])
        span = rng.choice([0, 1, 3, 8, 25])
        g = lambda b=base, s=span: b + rng.randint(0, s)
        a1 = [g() for _ in range(n)]
        if rng.random() < 0.3:
            a1.sort()
        two = rng.random() < 0.5
        b2 = rng.choice([base, base, base + 1, base - 4, base + span])
        a2 = [g(b2) for _ in range(n)] if two else []
        if two and rng.random() < 0.3:
            a2 = [a1[rng.randrange(n)] for _ in range(n)]
        v = [rng.choice([g(), g(), base - 1, base + span + 1, g(base - 5, span + 12)]) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
        if rng.random() < 0.3:
            v = v + v
        req = dict(a1=a1, two=two, a2=a2, v=v)
        recs.append(dict(kind="match", req=req, **real_match(req, rng.choice([np.int64, np.int64, np.int32]))))
        if rng.random() < 0.3:
            s = sorted(a1)
            req = dict(a1=s, two=False, a2=[], v=[], scale=rng.choice([1, 1, 0.25]))
            recs.append(dict(kind="uniq", req=req, **real_uniq(req)))
    for n in range(1, 5):
        import itertools
        for s in itertools.combinations_with_replacement([-1, 0, 2], n):
            req = dict(a1=list(s), two=False, a2=[], v=[], scale=1)
            recs.append(dict(kind="uniq", req=req, **real_uniq(req)))
    for r in recs:
        r["req"].pop("scale", None)
    bad = tlc.judge(ctx, "MatchOps", "MVerdict", recs)
    for i, v in bad.items():
        for c in v:
            ctx.violation("judge:%s:%s" % (recs[i]["kind"], c), "%s fails for %s" % (c, recs[i]), recs[i])
    ctx.count("judged_records", len(recs))
    ctx.sample(recs[3])
