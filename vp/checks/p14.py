"""P14 gridding of related inputs."""
import copy
import os

import numpy as np

from .. import tlc, vgrid


def exact(rng, **kw):
    o = vgrid.layout(rng, **kw)
    s = vgrid.selection(rng, o)
    s["gu"] = s["gs"] = False
    if not s["bpb"]:
        s["gw"] = s["gv"] = True
    s["uni"] = True
    return o, s


def one(o, s, **kw):
    r = vgrid.grid_once(o, s, **kw)
    return r, (vgrid.planes(r, o, s) if r["ok"] else None)


def group(o, s, parts):
    """planes of the parts next to those of the whole"""
    w, wp = one(o, s)
    ps = [one(o, t) for t in parts]
    ok = w["ok"] and all(p[0]["ok"] for p in ps)
    return dict(kind="parts", r=dict(ok=ok, tol=0, whole=wp if ok else {}, parts=[p[1] for p in ps] if ok else [], why=[x["why"] for x in [w] + [p[0] for p in ps] if x["why"]], o=o, s=s))


def permuted(o, s, perm):
    q = copy.deepcopy(o)
    for k in ("u", "v"):
        q[k] = [o[k][i] for i in perm]
    for k in ("w", "vis", "mod"):
        q[k] = [[r[i] for i in perm] for r in o[k]]
    t = dict(s)
    if s["bi"]:
        t["bi"] = [perm.index(b - 1) + 1 for b in s["bi"]]
    return q, t


def big(rng, seed):
    """a larger observation with arbitrary values, for the relations only"""
    o = vgrid.layout(rng, nb=rng.choice([12, 24]), nf=rng.choice([3, 6]))
    o["dim"] = o["el"] = rng.choice([16, 24])
    o["fu"] = [1] * len(o["f"])
    return o


def run(ctx):
    rng = ctx.rng
    # the model: parts put in any order make the whole (VisGrid: Sums), the completed planes are Hermitian
    c = dict(Dim=6, El=6, Psf=2, Res=2, Un=2, Fs="<<1, 2>>", Fbs="<<1, 2>>", Us="<<1, -1>>", Vs="<<-1, 1>>", Vals="{<<2, -1>>, <<0, 3>>}", Interp="TRUE", Conj="TRUE", KSeed=1)
    res = tlc.run(ctx, "VisGrid", constants=c, invariants=["Sums", "Hermitian", "Mass", "Flagged"])
    recs = []
    k = ctx.n(1, 12)
    for i in range(160 * k):
        o, s = exact(rng) if i % 8 else (lambda q: (q, dict(vgrid.selection(rng, q), gu=False, gs=False, uni=True, gw=True, gv=True)))(big(rng, i))
        nf, nb = len(o["f"]), len(o["u"])
        fi = s["fi"] or [c + 1 for c in range(nf) if o["fu"][c]]
        if not fi:
            continue
        base = dict(s, fi=fi, bi=s["bi"] or list(range(1, nb + 1)))
        if i % 2:
            parts = [dict(base, fi=[base["fi"][j - 1] for j in p]) for p in vgrid.parts_of(rng, len(base["fi"]))]
        else:
            parts = [dict(base, bi=[base["bi"][j - 1] for j in p]) for p in vgrid.parts_of(rng, len(base["bi"]))]
        recs.append(group(o, base, parts))
    for i in range(80 * k):
        # linear in the visibilities, and the model treated like the data
        o, s = exact(rng)
        a, b, z, w = copy.deepcopy(o), copy.deepcopy(o), rng.randint(-3, 3), rng.randint(-3, 3)
        rnd = lambda: [[[rng.randint(-9, 9), rng.randint(-9, 9)] for _ in o["u"]] for _ in o["f"]]
        a["vis"], b["vis"], c = rnd(), rnd(), copy.deepcopy(o)
        a["mod"], b["mod"] = [], []
        c["vis"] = [[[z * p[0] + w * q[0], z * p[1] + w * q[1]] for p, q in zip(r1, r2)] for r1, r2 in zip(a["vis"], b["vis"])]
        c["mod"] = c["vis"]
        out = [one(x, s) for x in (a, b, c)]
        ok = all(x[0]["ok"] for x in out)
        why = [x[0]["why"] for x in out if x[0]["why"]]
        recs.append(dict(kind="linear", r=dict(ok=ok, tol=0, z=z, w=w, a=out[0][1]["img"] if ok else [], b=out[1][1]["img"] if ok else [], c=out[2][1]["img"] if ok else [], why=why, o=o, s=s)))
        if ok:
            p = out[2][1]
            recs.append(dict(kind="same", r=dict(ok=True, tol=0, a=dict(p=p["img"], n=0), b=dict(p=p["mod"], n=0), o=o, s=s, why="model against data")))
    for i in range(60 * k):
        # order of the baselines, how the beam is stored, grouping numbers: none of them matters
        o, s = exact(rng)
        s = dict(s, fi=s["fi"], bi=s["bi"] or list(range(1, len(o["u"]) + 1)))
        x = one(o, s)
        how = rng.choice(["order", "store", "groups", "selection", "flags"])
        if how == "order":
            perm = list(range(len(o["u"])))
            rng.shuffle(perm)
            y = one(*permuted(o, s, perm))
        elif how == "store":
            y = one(o, s, h5=not s["bpb"])
        elif how == "groups":
            q = copy.deepcopy(o)
            q["ids"] = [[rng.randint(0, 9) for _ in r] for r in o["ids"]]
            y = one(q, s)
        elif how == "selection":
            t = dict(s, bi=rng.sample(s["bi"], len(s["bi"])))
            y = one(o, t)
        else:  # what is under a flag does not matter
            q = copy.deepcopy(o)
            for c in range(len(q["f"])):
                for b in range(len(q["u"])):
                    if q["w"][c][b] <= 0:
                        q["vis"][c][b] = [777, -55]
                        q["w"][c][b] = -q["w"][c][b] - 1
            y = one(q, s)
        ok = x[0]["ok"] and y[0]["ok"]
        recs.append(dict(kind="same", r=dict(ok=ok, tol=0, a=x[1] if ok else {}, b=y[1] if ok else {}, o=o, s=s, why=how + str(x[0]["why"]) + str(y[0]["why"]))))
        if ok and s["conj"]:
            pl = rng.choice(["img", "wts", "var", "cnt"])
            recs.append(dict(kind="herm", r=dict(a=x[1][pl], tol=0, o=o, s=s, why=pl)))
    for i in range(70 * k):
        o = vgrid.layout(rng)
        o["el"] = o["dim"]
        s = vgrid.selection(rng, o)
        # one kernel per channel group, the split uses the even or odd rows or those with data
        s.update(conj=True, uni=False, gu=False, gs=False, gw=True, gv=True)
        bi, s["fi"], s["bi"] = s["bi"], [], []
        if not o["mod"]:
            o["mod"] = [[[rng.randint(-9, 9), rng.randint(-9, 9)] for _ in o["u"]] for _ in o["f"]]
        pol, npol = rng.choice([(0, 1), (0, 2), (1, 2), (0, 4), (2, 4)])
        o["w2"] = [[rng.choice([1, 1, 0]) if rng.random() < 0.3 else x for x in r] for r in o["w"]]
        # baselines without any data in the other polarisation
        gone = set(rng.sample(range(len(o["u"])), min(rng.choice([0, 1, 2]), len(o["u"]))))
        o["w2"] = [[0 if b in gone else x for b, x in enumerate(r)] for r in o["w2"]]
        if npol == 4 and pol == 2:
            o["w2"] = o["w"]
        o["rephase"] = rng.random() < 0.3
        d = os.path.join(ctx.scratch, "split")
        os.makedirs(d, exist_ok=True)
        recs.append(dict(kind="split", r=vgrid.split_once(o, s, rng.choice([1, 1, 2, 3]), bi, d, pol, npol, rng.random() < 0.5)))
    for i, v in sorted(tlc.judge(ctx, "VisGridOps", "AllVerdict", recs).items()):
        for cl in v:
            r = recs[i]["r"]
            ctx.violation("judge:%s:%s" % (recs[i]["kind"], cl), "%s %s: %s" % (cl, r.get("why"), {k: x for k, x in r.items() if k in ("o", "s")}), recs[i])
    ctx.sample({k: recs[0]["r"]["o"][k] for k in ("f", "u", "v", "w")})
    for kind in ("parts", "linear", "same", "herm", "split"):
        ctx.count(kind, sum(r["kind"] == kind for r in recs))
    ctx.assumptions = ["planes are compared after multiplication with the number of samples they are normalised by"]
