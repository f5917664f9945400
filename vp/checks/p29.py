"""P29 values of IDL save files as dictionaries."""
import logging
import os

import numpy as np

from .. import idlsav, tlc
from ..core import call
from ..grid import LOG


def number(v):
    v = complex(v)
    if v != v:
        return dict(k="nan")
    f = lambda t: int(t) if t == int(t) and abs(t) < 1e9 else 1999999999
    return dict(k="leaf", x=[f(v.real), f(v.imag)])


def out(v, arr=False):
    """What Python got, as a value of the specification."""
    if v is None:
        return dict(k="nan")
    if isinstance(v, np.recarray) or isinstance(v, np.record):
        return dict(k="record")
    if isinstance(v, dict):
        return dict(k="dict", f=[str(n) for n in v], v=[out(t) for t in v.values()])
    if isinstance(v, str):
        return dict(k="text", x=v.strip())
    if isinstance(v, bytes):
        return dict(k="bytes")
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.item()
    if isinstance(v, (list, tuple, np.ndarray)):
        a = isinstance(v, np.ndarray) and v.dtype.kind in "iufc"
        return dict(k="list", arr=bool(a), v=[out(t) for t in v])
    try:
        return number(v)
    except Exception:
        return dict(k="other")




def real(ctx, x, rng, how=None):
    from PyFHD.io.pyfhd_io import convert_sav_to_dict, recarray_to_dict
    from scipy.io import readsav

    how = how or rng.choice(["whole", "whole", "packed", "struct"])
    p = os.path.join(ctx.scratch, "f.sav")
    tmp = os.path.join(ctx.scratch, "tmp_sav")
    fields = list(zip(x["f"], x["v"][0]))
    if how == "struct":
        # as one structure of the file, not as variables of their own
        idlsav.save(p, [("all", x)], rng.random() < 0.5)
        o = call(lambda: recarray_to_dict(readsav(p).all))
    else:
        idlsav.save(p, fields, how == "packed")
        o = call(lambda: recarray_to_dict(convert_sav_to_dict(p, LOG, tmp)))
    rec = dict(x=x, way=how, how=o[0], out=out(o[1]) if o[0] == "ok" else dict(k="nan"))
    if o[0] != "ok":
        rec["why"] = str(o)[:300]
    return rec


N = lambda ty, d, v: dict(k="num", ty=ty, d=d, v=v)


def tree(rng, depth, held=False):
    """A random value; held: one that a pointer leads to."""
    c = rng.random()
    if depth == 0 or c < 0.3:
        d = rng.choice([[], [1], [2], [3], [5], [2, 3], [1, 2], [2, 1], [2, 2, 2]])
        n = idlsav.size(d)
        if rng.random() < 0.25:
            return dict(k="txt", d=d, v=[rng.choice(["", "a", "XX", "Tile011", "two words"]) for _ in range(n)])
        ty = rng.choice(list(idlsav.TC))
        lo = 0 if ty in ("byte", "uint", "ulong") else -9
        return N(ty, d, [[rng.randint(lo, 99), rng.randint(-9, 9) if "complex" in ty else 0] for _ in range(n)])
    if c < 0.6:
        d = rng.choice([[1], [2], [3], [2, 2], [2, 3], [3, 2]])
        n = idlsav.size(d)
        one = tree(rng, depth - 1, True)
        s = rng.random()
        if s < 0.4:
            v = [again(rng, one) for _ in range(n)]
        elif s < 0.6:
            v = [again(rng, one) for _ in range(n)]
            v[rng.randrange(n)] = rng.choice([dict(k="nul"), tree(rng, depth - 1, True)])
        else:
            v = [tree(rng, rng.randint(0, depth - 1), True) if rng.random() < 0.8 else dict(k="nul") for _ in range(n)]
        return dict(k="ptrs", d=d, v=v)
    if c < 0.7:
        v = tree(rng, depth - 1, True)
        return dict(k="ptr", v=v)
    m, n = rng.choice([1, 2, 3]), rng.choice([1, 1, 2, 3])
    cells = [tree(rng, depth - 1) if rng.random() < 0.9 else dict(k="nul") for _ in range(m)]
    rows = [[again(rng, c, rng.random() < 0.3) for c in cells] for _ in range(n)]
    return dict(k="rec", f=["f%d" % i for i in rng.sample(range(9), m)], v=rows)


def again(rng, x, null=False):
    """The same form with other numbers."""
    if x["k"] == "num":
        lo = 0 if x["ty"] in ("byte", "uint", "ulong") else -9
        return dict(x, v=[[rng.randint(lo, 99), rng.randint(-9, 9) if "complex" in x["ty"] else 0] for _ in x["v"]])
    if x["k"] == "txt":
        return dict(x, v=[rng.choice(["", "b", "YY"]) for _ in x["v"]])
    if x["k"] in ("ptr", "nul") and null:
        return dict(k="nul")
    if x["k"] == "ptr":
        return dict(x, v=again(rng, x["v"]))
    if x["k"] == "ptrs":
        return dict(x, v=[again(rng, t) for t in x["v"]])
    if x["k"] == "rec":
        return dict(x, v=[[again(rng, t) for t in r] for r in x["v"]])
    return x


def run(ctx):
    rng = ctx.rng
    logging.getLogger().setLevel(logging.CRITICAL)
    q = '{"f", "f2", "f3", "i2", "c2", "t", "t2", "nul", "s"}'
    res = tlc.run(ctx, "Struct", constants=dict(Pairs=ctx.n(q, 'Range(Forms)'), Quads=ctx.n('{"f2", "f3", "nul", "s"}', '{"f", "f2", "f3", "i2", "c2", "t2", "nul", "s"}')),
                  invariants=["Preserved", "Confluent", "Always", "Finishes", "Reflexive", "Emit"])
    ctx.count("spec_behaviours", len(res.cases))
    recs = []
    for c in res.cases:
        recs.append(real(ctx, c["x"], rng))
        ctx.replayed()
    for _ in range(ctx.n(700, 6000)):
        m = rng.choice([1, 2, 3])
        x = dict(k="rec", f=["v%d" % i for i in rng.sample(range(9), m)], v=[[tree(rng, rng.choice([1, 2, 2, 3])) for _ in range(m)]])
        recs.append(real(ctx, x, rng))
    for i, v in sorted(tlc.judge(ctx, "StructOps", "TVerdict", recs).items()):
        for cl in v:
            ctx.violation("judge:" + cl, "%s: %s became %s" % (cl, recs[i]["x"], recs[i].get("why") or recs[i]["out"]), recs[i])
    ctx.sample(recs[0]["x"])
