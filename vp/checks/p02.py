"""P02 stages in dependency order, once, exactly when configured; files match."""
from .. import pipe, tlc

FLAGS = ["sv", "sw", "so", "sp", "sc", "ck", "dp", "fb", "cal", "fm", "fv", "cs", "rg", "ex", "hp", "bpb", "beam1", "psfh5"]
FRESH = dict(ob=False, cb=False, gb=False)


def tla(c):
    q = lambda v: '"%s"' % v if isinstance(v, str) else str(v).upper() if isinstance(v, bool) else str(v)
    return "[" + ", ".join("%s |-> %s" % (k, q(v)) for k, v in sorted(c.items())) + "]"


def rcfg(rng, on=0.6, **kw):
    c = {f: rng.random() < on for f in FLAGS}
    c.update(id=rng.choice(["OBS", "1061316296"]), desc=rng.choice(["", "", "my_run"]), filt=rng.choice(["uniform", "hanning", "natural"]), npol=rng.choice([1, 2, 2, 4, 4]))
    c["cs"] = rng.random() < 0.15
    c.update(kw)
    c["sv"] = c["sv"] or c["hp"]  # settled by the set-up
    c["sp"] = c["sp"]
    return c


def cover(rng, n):
    """seeded configurations in which every pair of switches takes all four values"""
    need = {(a, b, x, y) for i, a in enumerate(FLAGS) for b in FLAGS[i + 1:] for x in (0, 1) for y in (0, 1)} - {("sv", "hp", 0, 1)}
    out = []
    while len(out) < n or need and len(out) < 3 * n:
        c = rcfg(rng, rng.choice([0.3, 0.5, 0.7, 0.9]))
        if need and len(out) >= n:
            a, b, x, y = rng.choice(sorted(need))
            c[a], c[b] = bool(x), bool(y)
            c["sv"] = c["sv"] or c["hp"]
        need -= {(a, b, int(c[a]), int(c[b])) for i, a in enumerate(FLAGS) for b in FLAGS[i + 1:]}
        out.append(c)
    return out, len(need)


def report(ctx, recs, verdicts):
    for i, v in sorted(verdicts.items()):
        r = recs[i]
        on = [k for k, x in sorted(r["cfg"].items()) if x is True]
        for cl in v:
            ctx.violation("pipeline:%s" % cl.split("/")[0].replace("OBS", ""), "%s: configuration %s npol=%s; runs %s" % (
                cl, on, r["cfg"]["npol"], [(x["ob"], x["cb"], x["gb"], x["fault"], x["out"], x["why"], [e["s"] for e in x["ev"]]) for x in r["runs"]]), dict(cfg=r["cfg"], clauses=v))


def run(ctx):
    rng = ctx.rng
    cfgs, missing = cover(rng, ctx.n(260, 2500))
    ctx.extra["uncovered_pairs"] = missing
    uniq = {tla(c): c for c in cfgs}
    res = tlc.run(ctx, "Pipeline", spec="PSpec", constants=dict(Cfgs="{%s}" % ",\n".join(uniq), MaxRuns="1"),
                  invariants=["Switches", "Dataflow", "FilesKnown", "OffIsOff", "JudgeAgrees", "PEmit"])
    jobs = [dict(cfg=c["cfg"], runs=[dict(FRESH, fault=None)]) for c in res.cases]
    ctx.count("spec_behaviours", len(jobs))
    # failing stages: nothing that depends on them is produced
    stages = ["header", "params", "visibilities", "layout", "obs", "psf", "deproject", "flag_basic", "weights", "model", "flag_model", "calibrate", "mix", "flag_vis",
              "noise", "grid", "grid_empty", "reformat", "quickview", "dirty", "healpix"]
    for s in stages:
        for _ in range(ctx.n(4, 30)):
            c = rcfg(rng, 0.9, cal=True, dp=True, fb=True, fm=True, fv=True, cs=False, rg=True, ex=True, hp=True, npol=4 if s in ("mix", "reformat") else rng.choice([1, 2, 4]))
            k = {"weights": 2, "grid": c["npol"], "grid_empty": c["npol"], "reformat": 3, "dirty": 2 * c["npol"]}.get(s, 1)
            jobs.append(dict(cfg=c, runs=[dict(FRESH, fault=(s, rng.randint(1, k)))]))
    recs = pipe.execute(ctx, jobs)
    ctx.count("driver_runs", sum(len(r["runs"]) for r in recs))
    ctx.sample(dict(cfg=recs[0]["cfg"], stages=[e["s"] for e in recs[0]["runs"][0]["ev"]]))
    report(ctx, recs, tlc.judge(ctx, "PipelineOps", "Verdict02", recs))
    ctx.assumptions = ["the numerical stages are replaced by deterministic recording stand-ins with the signatures of the real stages; the driver, quickview's exports, the store and the configuration writer are real",
                       "sv is implied by hp as the set-up settles it"]
