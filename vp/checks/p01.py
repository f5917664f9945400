"""P01 resuming from checkpoints."""
from .. import pipe, tlc
from .p02 import rcfg, report, tla


def run(ctx):
    rng = ctx.rng
    cfgs = {}
    for i in range(ctx.n(14, 60)):
        c = rcfg(rng, rng.choice([0.5, 0.8]), ck=True, cal=rng.random() < 0.8, ex=rng.random() < 0.7, rg=rng.random() < 0.7, cs=i % 7 == 3, npol=[2, 4, 1, 4][i % 4], hp=rng.random() < 0.6)
        cfgs[tla(c)] = c
    res = tlc.run(ctx, "Pipeline", constants=dict(Cfgs="{%s}" % ",\n".join(cfgs), MaxRuns=str(ctx.n(2, 3))),
                  invariants=["ResumeSame", "NoNewValues", "NoRecomputation", "DiskKnown", "Emit"])
    cases = res.cases
    ctx.count("spec_histories", len(cases))
    if not ctx.thorough:
        extra = tlc.run(ctx, "Pipeline", constants=dict(Cfgs="{%s}" % ",\n".join(list(cfgs)[:2]), MaxRuns="3"),
                        invariants=["ResumeSame", "NoNewValues", "NoRecomputation", "DiskKnown", "Emit"]).cases
        long = [c for c in extra if len(c["runs"]) == 3]
        cases = rng.sample(cases, min(len(cases), 420)) + rng.sample(long, min(len(long), 80))
    else:
        cases = rng.sample(cases, min(len(cases), 6000))
    jobs = []
    for c in cases:
        runs = [dict(r["sel"], fault=(r["stage"], r["k"]) if r["stage"] else None) for r in c["runs"]]
        jobs.append(dict(cfg=c["cfg"], runs=runs, ref=True))
    recs = pipe.execute(ctx, jobs)
    ctx.count("driver_runs", sum(len(r["runs"]) + 1 for r in recs))
    ctx.sample(dict(cfg=recs[0]["cfg"], runs=[(r["ob"], r["cb"], r["gb"], r["fault"], [e["s"] for e in r["ev"]]) for r in recs[0]["runs"]]))
    report(ctx, recs, tlc.judge(ctx, "PipelineOps", "Verdict01", recs))
    ctx.assumptions = ["the numerical stages are replaced by deterministic recording stand-ins with the signatures of the real stages; the driver, quickview's exports, the store and the configuration writer are real",
                       "a run is stopped between stages, not inside the writing of a file"]
