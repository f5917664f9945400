"""P03 the HDF5 store."""
import logging
import os
from pathlib import Path

import h5py
import numpy as np

from .. import tlc
from ..core import call, rat

CL = {"bool": np.bool_, "int": np.int64, "float": np.float64, "complex": np.complex128}


def num(c, z):
    re, im = z
    f = lambda q: (float("nan") if q == [0, 0] else float("inf") if q == [1, 0] else float("-inf") if q == [-1, 0] else q[0] / q[1])
    if c == "complex":
        return complex(f(re), f(im))
    return bool(f(re)) if c == "bool" else int(f(re)) if c == "int" else f(re)


def build(x, narrow=None):
    """Python value of a model value."""
    t = x["t"]
    if t == "none":
        return None
    if t == "num":
        return num(x["c"], x["n"][0])
    if t == "str":
        return x["s"]
    if t == "path":
        return Path(x["s"])
    if t == "arr":
        a = np.array([num(x["c"], z) for z in x["n"]], dtype=CL[x["c"]]).reshape(x["shape"])
        if narrow and narrow.random() < 0.3:
            a = a.astype({"bool": np.bool_, "int": np.int32, "float": np.float32, "complex": np.complex64}[x["c"]])
        if narrow and a.ndim == 2 and narrow.random() < 0.3:
            a = np.asfortranarray(a)
        return a
    if t == "sarr":
        return np.array(x["s"], dtype="U9").reshape(x["shape"])
    if t == "objn":
        a = np.empty(len(x["n"]), dtype=object)
        for i, z in enumerate(x["n"]):
            a[i] = None if z == [] else num(x["c"], z)
        return a.reshape(x["shape"])
    if t == "objs":
        a = np.empty(len(x["s"]), dtype=object)
        for i, z in enumerate(x["s"]):
            a[i] = None if z == "<none>" else z
        return a.reshape(x["shape"])
    if t == "list":
        return [None if z == [] else num(x["c"], z) for z in x["n"]]
    if t == "slist":
        return [None if z == "<none>" else z for z in x["s"]]
    if t == "rag":
        if x.get("aslist"):
            return [np.array([num(x["c"], z) for z in r], dtype=CL[x["c"]]) for r in x["rows"]]
        a = np.empty(len(x["rows"]), dtype=object)
        for i, r in enumerate(x["rows"]):
            a[i] = np.array([None if z == [] else num(x["c"], z) for z in r], dtype=object if [] in r else CL[x["c"]])
        return a
    if t == "dict":
        return {k: build(v, narrow) for k, v in zip(x["k"], x["v"])}
    raise ValueError(t)


def cls(dt):
    return {"b": "bool", "i": "int", "u": "int", "f": "float", "c": "complex"}.get(np.dtype(dt).kind, "other:" + str(dt))


def enc(z):
    z = complex(z)
    return [rat(z.real), rat(z.imag)]


def observe(v):
    """Model value of something loaded."""
    if v is None:
        return {"t": "none"}
    if isinstance(v, dict):
        ks = sorted(v)
        return {"t": "dict", "k": ks, "v": [observe(v[k]) for k in ks]}
    if isinstance(v, str):
        return {"t": "str", "s": str(v)}
    if isinstance(v, np.ndarray):
        if v.dtype == object and v.ndim == 1 and len(v) and all(isinstance(r, np.ndarray) for r in v):
            return {"t": "rag", "c": cls(v[0].dtype), "rows": [[enc(z) for z in r] for r in v]}
        if v.dtype.kind == "U" or (v.dtype == object and all(isinstance(z, str) for z in v.ravel())):
            return {"t": "sarr", "shape": list(v.shape), "s": [str(z) for z in v.ravel()]}
        if v.dtype.kind in "biufc":
            return {"t": "arr", "c": cls(v.dtype), "shape": list(v.shape), "n": [enc(z) for z in v.ravel()]}
        return {"t": "other:" + str(v.dtype)}
    if isinstance(v, (bool, int, float, complex, np.number, np.bool_)):
        return {"t": "num", "c": cls(np.asarray(v).dtype), "n": [enc(v)]}
    return {"t": "other:" + type(v).__name__}


def observe_lazy(g):
    ks = sorted(g.keys())
    vs = []
    for k in ks:
        if isinstance(g[k], h5py.Group):
            vs.append(observe_lazy(g[k]))
        elif g.attrs[k]:
            vs.append({"t": "none"})
        else:
            v = g[k][()]
            if isinstance(v, bytes):
                v = v.decode()
            elif isinstance(v, np.ndarray) and v.dtype.kind == "S":
                v = np.array([z.decode() for z in v.ravel()], dtype="U").reshape(v.shape)
            vs.append(observe(v))
    return {"t": "dict", "k": ks, "v": vs}


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (isinstance(a, (float, complex)) and a != a and b != b)


def vlen(x, out):
    if x["t"] == "dict":
        for k, v in zip(x["k"], x["v"]):
            if v["t"] == "rag":
                out[k] = h5py.vlen_dtype(CL[v["c"]])
            vlen(v, out)
    return out


def execute(steps, d, rng):
    """Run a history on the real store; fills in what was observed."""
    from PyFHD.io.pyfhd_io import load, save

    log = logging.getLogger("p03")
    log.disabled = True
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    done = []
    for s in steps:
        path = Path(d, s["f"] + ".h5")
        r = {"op": s["op"], "f": s["f"]}
        if s["op"] == "save":
            seed = rng.random()
            import random as _r

            v, keep = build(s["x"], _r.Random(seed)), build(s["x"], _r.Random(seed))
            vl = vlen(s["x"], {})
            kw = {}
            if vl:
                kw["variable_lengths"] = vl
            elif s["x"]["t"] == "dict" and rng.random() < 0.3:
                kw["to_chunk"] = {k: dict(shape=tuple(w["shape"]), chunk=True) for k, w in zip(s["x"]["k"], s["x"]["v"]) if w["t"] == "arr" and w["shape"] and 0 not in w["shape"] and (names(s["x"], False) + names(s["x"], True)).count(k) == 1}
            o = call(save, path, v, s["name"], log if rng.random() < 0.5 else None, **kw)
            r.update(x=s["x"], name=s["name"], ok=o[0] == "ok", kept=same(v, keep), why=str(o)[:300])
        elif s["op"] == "load":
            o = call(load, path, log if rng.random() < 0.5 else None)
            r.update(ok=o[0] == "ok", got=observe(o[1]) if o[0] == "ok" else {"t": "none"}, why="" if o[0] == "ok" else str(o)[:300])
        else:
            o = call(load, path, None, True)
            if o[0] == "ok" and isinstance(o[1], h5py.File):
                g = observe_lazy(o[1])
                o[1].close()
                r.update(ok=True, got=g, why="")
            else:
                r.update(ok=False, got={"t": "none"}, why=str(o)[:300])
        done.append(r)
        if not r["ok"]:
            break
    return done


def rnum(rng, c):
    k = lambda: [rng.choice([0, 1, -1, 2, 7, 100]), 1] if c in ("bool", "int") else rng.choice([[0, 1], [1, 2], [-3, 4], [5, 1], [0, 0], [1, 0]])
    if c == "bool":
        return [[rng.choice([0, 1]), 1], [0, 1]]
    if c == "complex":
        a, b = k(), k()
        return [a, b]
    return [k(), [0, 1]]


TEXT = ["", "a", "XX", "two words", "it's", "ends ", "12", "None", "a\"b", "naïve"]


def rvalue(rng, depth):
    c = rng.choice(["bool", "int", "float", "complex"])
    t = rng.choice(["none", "num", "str", "path", "arr", "arr", "arr", "sarr", "objn", "objs", "list", "slist", "rag", "dict", "dict"])
    if t == "dict" and depth <= 0:
        t = "num"
    shape = rng.choice([[1], [2], [3], [2, 2], [1, 3], [2, 1, 2], [0], [2, 0], []])
    n = int(np.prod(shape)) if shape else 1
    if t == "none":
        return {"t": t}
    if t == "num":
        return {"t": t, "c": c, "n": [rnum(rng, c)]}
    if t == "str":
        return {"t": t, "s": rng.choice(TEXT)}
    if t == "path":
        return {"t": t, "s": rng.choice(["/tmp/x.h5", "a/b c", "."])}
    if t == "arr":
        return {"t": t, "c": c, "shape": shape, "n": [rnum(rng, c) for _ in range(n)]}
    if t == "sarr":
        shape = shape or [1]
        n = int(np.prod(shape))
        return {"t": t, "shape": shape, "s": [rng.choice(TEXT[:-1]) for _ in range(n)]}
    if t in ("objn", "objs"):
        shape = rng.choice([[2], [3], [2, 2]])
        n = int(np.prod(shape))
        if t == "objn":
            c = rng.choice(["float", "complex", "int"])
            if c == "int":
                v = [[[rng.randint(-5, 5), 1], [0, 1]] if rng.random() < 0.6 else [] for _ in range(n)]
            else:
                v = [rnum(rng, c) if rng.random() < 0.6 else [] for _ in range(n)]
                v = [[] if z and z[0] == [0, 0] else z for z in v]
                if c == "complex" and all(z == [] for z in v):
                    c = "float"
            return {"t": t, "c": c, "shape": shape, "n": v}
        v = [rng.choice(TEXT[:-1]) if rng.random() < 0.6 else "<none>" for _ in range(n)]
        v[0] = "s"
        return {"t": t, "shape": shape, "s": v}
    if t == "list":
        k = rng.choice([0, 1, 2, 4])
        c = rng.choice(["int", "float", "complex", "bool"]) if k else "float"
        v = [rnum(rng, c) for _ in range(k)]
        if k > 1 and c in ("float",) and rng.random() < 0.5:
            v[0] = []
        return {"t": t, "c": c, "n": v}
    if t == "slist":
        k = rng.choice([1, 2, 3])
        v = [rng.choice(TEXT[:-1]) for _ in range(k)]
        if k > 1 and rng.random() < 0.4:
            v[1] = "<none>"
        return {"t": t, "s": v}
    if t == "rag":
        c = rng.choice(["int", "float"])
        rows = [[rnum(rng, c) for _ in range(k)] for k in rng.choice([[1, 2], [3, 1], [2, 1, 4], [0, 2]])]
        aslist = rng.random() < 0.4
        if c == "float" and not aslist and rng.random() < 0.4:
            rows = [[[] if rng.random() < 0.4 else z for z in r] for r in rows]
        return {"t": t, "c": c, "rows": rows, "aslist": aslist}
    return rtree(rng, depth - 1)


def rtree(rng, depth):
    ks = sorted(rng.sample(["a", "b", "gain", "n_pol", "Z", "x y", "_u", "k9"], rng.choice([0, 1, 1, 2, 3, 4])))
    return {"t": "dict", "k": ks, "v": [rvalue(rng, depth) for _ in ks]}


def uniq_vlen(x, seen):
    """variable_lengths is keyed by name for the whole tree: names of ragged values must not be reused."""
    if x["t"] != "dict":
        return True
    return all(uniq_vlen(v, seen) for v in x["v"])


def names(x, rag):
    out = []
    if x["t"] == "dict":
        for k, v in zip(x["k"], x["v"]):
            if (v["t"] == "rag") == rag:
                out.append(k)
            out += names(v, rag)
    return out


def run(ctx):
    rng = ctx.rng
    d = os.path.join(ctx.scratch, "store")
    os.makedirs(d)
    res = tlc.run(ctx, "Store", constants=dict(Files='{"f", "g"}', Depth=str(ctx.n(4, 5)), Pick="1..9" if not ctx.thorough else "{1, 3, 5, 6, 7, 8}"),
                  invariants=["HistoryIsDisk", "LoadsRepeat", "Stable", "Emit"])
    cases = res.cases
    if len(cases) > ctx.n(700, 8000):
        cases = rng.sample(cases, ctx.n(700, 8000))
    recs = []
    for c in cases:
        got = execute(c["h"], d, rng)
        ctx.replayed()
        for s, g in zip(c["h"], got):
            if not g["ok"] or (s["op"] == "save" and not g["kept"]) or (s["op"] != "save" and g["got"] != s["got"]):
                ctx.violation("replay:%s" % s["op"], "history %s: step %s observed %s" % (c["h"], s, g), c)
                break
    ctx.count("spec_behaviours", len(cases))
    ctx.sample(cases[0])
    for _ in range(ctx.n(700, 6000)):
        steps, saved = [], set()
        for _k in range(rng.randint(2, 6)):
            f = rng.choice(["f", "g"])
            if f not in saved or rng.random() < 0.35:
                while True:
                    x = rtree(rng, 2) if rng.random() < 0.85 else rvalue(rng, 0)
                    if x["t"] == "dict" or (x["t"] in ("arr", "sarr", "objn", "objs") and x["shape"]):
                        if not (set(names(x, True)) & set(names(x, False))) and len(names(x, True)) == len(set(names(x, True))):
                            break
                steps.append({"op": "save", "f": f, "x": x, "name": rng.choice(["data", "visibilities"])})
                saved.add(f)
                if rng.random() < 0.8:
                    steps.append({"op": "load", "f": f})
            else:
                steps.append({"op": rng.choice(["load", "load", "lazy"]), "f": f})
        recs.append({"h": execute(steps, d, rng)})
    bad = tlc.judge(ctx, "StoreOps", "StVerdict", recs)
    for i, v in bad.items():
        for c in v:
            ctx.violation("judge:" + c, "%s fails for %s" % (c, recs[i]), recs[i])
    ctx.count("judged_records", len(recs))
    ctx.assumptions.append("keys are text without '/'; integers fit 64 bits; a single array in a file is read as that array (documented)")
