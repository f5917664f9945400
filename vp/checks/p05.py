"""P05 the written configuration reproduces the run."""
import argparse
import copy
import os
import shutil
from pathlib import Path

from .. import conf, tlc

CH = {"a": "x", "q": "'", "s": " ", "h": "#"}
TEXT = ["", "x", "two words", "it's", "''", "a: b", "# no", "\"d\"", "100%", "tab\tx", "~", "true", "12", "null", "-lead", "[a, b]", "{x}", "é", " end ", "a,b", "\\n", "!t", "&a", "*b", "|", ">", "@x", "`y"]
PATHS = ["data/f.h5", "data/it's.h5", "data/sp ace.h5", "data/#1.h5", "data/a: b.h5"]


def options():
    """kinds of the real options"""
    from PyFHD.pyfhd_tools.pyfhd_setup import pyfhd_parser

    res = {}
    for a in pyfhd_parser()._actions:
        opt = next((o for o in a.option_strings if o.startswith("--")), None)
        if not opt or a.dest in ("help", "version", "config", "grid_psf_file_sav", "grid_psf_file_npz"):
            continue
        n = type(a).__name__
        if n == "_StoreTrueAction":
            k = "on"
        elif n == "BooleanOptionalAction":
            k = "onoff"
        elif n == "_AppendAction":
            k = "append"
        elif a.nargs in ("+", "*"):
            k = "nfloat" if a.type is float else "ntext"
        elif a.choices:
            k = "choice"
        else:
            k = {int: "int", float: "float", Path: "path"}.get(a.type, "text")
        res[a.dest] = (k, opt, list(a.choices) if a.choices else None)
    return res


SKIP = {"input_path", "output_path", "model_file_path", "grid_psf_file", "silent", "log_file", "run_simulation", "in_situ_sim_input", "eor_vis_filepath", "sim_noise",
        "enhance_eor", "allow_sidelobe_model_sources", "description", "model_file_type", "IDL_variables_file", "n_pol"}


def argv_of(k, opt, v):
    if k == "on":
        return [opt] if v else []
    if k == "onoff":
        return [opt if v else opt.replace("--", "--no-", 1)]
    if k == "append":
        return ["%s=%s" % (opt, x) for x in v]
    if k in ("ntext", "nfloat"):
        return [opt] + [str(x) for x in v] if v else []
    return ["%s=%s" % (opt, v)]


def values(text):
    """what a file says, but for the entries that name the run"""
    import yaml

    return {k: conf.canon(v) for k, v in yaml.safe_load(text).items() if k.replace("-", "_") not in conf.INTERNAL}


def job(j):
    d = Path(j["dir"])
    cwd = os.getcwd()
    try:
        (d / "data").mkdir(parents=True)
        (d / "in").mkdir()
        (d / "data" / "model").mkdir()
        os.chdir(d)
        for e in ("uvfits", "metafits"):
            (d / "in" / ("OB." + e)).write_text("x")
        for s in ("params", "vis_model_XX", "vis_model_YY", "vis_model_XY", "vis_model_YX"):
            (d / "data" / "model" / ("OB_%s.sav" % s)).write_text("x")
        for p in PATHS:
            Path(p).write_text("x")
        for p in ("data/p.sav", "data/p q.npz"):
            Path(p).write_text("x")
        (d / "e.yaml").write_text("silent : true\n")
        args = ["OB", "-c", "e.yaml", "--input-path=in", "--output-path=out", "--model-file-path=data/model"]
        for a in j["args"]:
            args += a
        o = conf.parse(args)
        if o[0] != "ok":
            return {"skip": "arguments refused: %s %s" % (o, args)}
        typed = copy.deepcopy(vars(o[1]))
        s, n = conf.setup(o[1])
        if s[0] != "ok":
            return {"skip": "set-up refused: %s %s" % (s, args)}
        c = s[1][0]
        want = copy.deepcopy(c)
        out = Path(c["output_dir"])
        if j["final"]:
            from PyFHD.pyfhd_tools.pyfhd_setup import write_collated_yaml_config

            c.update(checkpoint_dir=Path(out, "checkpoints"), visibilities_path=Path(out, "v"), metadata_dir=Path(out, "m"), interesting=None, count=3, names=["a"])
            w, _ = conf.quiet(write_collated_yaml_config, c, Path(out, "config"), "-final")
            name = c["log_name"] + "-final.yaml"
        else:
            name = c["log_name"] + ".yaml"
        y = out / "config" / name
        if not y.exists():
            return {"args": j["args"], "out": "no file", "v": [], "again": True}
        text = y.read_text()
        o2 = conf.parse(["-c", str(y), "OB"] if j["swap"] else ["OB", "-c", str(y)])
        if o2[0] != "ok":
            return {"args": j["args"], "out": str(o2)[:200], "v": [], "again": True, "text": text}
        got = vars(o2[1])
        v = []
        for k in sorted((set(want) | set(got)) - conf.INTERNAL):
            a, b = (conf.canon(x.get(k, "<no such option>")) for x in (want, got))
            # a path option that was set stays a path, everything else keeps the kind it had
            ka, kb = conf.kind(typed.get(k)), conf.kind(got.get(k))
            if conf.canon(typed.get(k)) != a and conf.kind(want.get(k)) != "path":
                ka = conf.kind(want.get(k))
            v.append({"o": k, "a": a, "b": b, "k": ka, "kb": kb})
        s2, _ = conf.setup(argparse.Namespace(**copy.deepcopy(got)))
        again = False
        if s2[0] == "ok":
            c2 = s2[1][0]
            again = all(conf.canon(want[k]) == conf.canon(c2.get(k)) for k in set(want) - conf.IDENT - {"output_dir", "top_level_dir"}) and (
                want["description"] is None or str(want["output_dir"]) == str(c2["output_dir"]))
            if not j["final"]:
                t2 = (Path(c2["output_dir"]) / "config" / (c2["log_name"] + ".yaml")).read_text()
                again = again and values(text) == values(t2)
        return {"args": j["args"], "out": "ok", "v": v, "again": again}
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def rvalue(rng, k, choices):
    if k in ("on", "onoff"):
        return rng.random() < 0.5
    if k == "append":
        return [rng.choice(TEXT) for _ in range(rng.choice([1, 1, 2, 3]))]
    if k == "ntext":
        return [rng.choice([t for t in TEXT if not t.startswith("-")]) for _ in range(rng.choice([1, 2, 3]))]
    if k == "nfloat":
        return [rng.choice([5.0, -2.5, 16.0, 0.0, 8.5, -30.0]) for _ in range(rng.choice([1, 2, 2]))]
    if k == "choice":
        return rng.choice(choices)
    if k == "int":
        return rng.choice([0, 1, 7, -3, 2048, 123456789])
    if k == "float":
        return rng.choice([0.0, 1.0, 0.1, 1e-07, -2.5, 1e22, 123.456, 3.0])
    if k == "path":
        return rng.choice(PATHS)
    return rng.choice(TEXT)


def run(ctx):
    rng = ctx.rng
    res = tlc.run(ctx, "Config", spec="WSpec", constants=dict(Picks="{}", Texts=str(ctx.n(3, 5))), invariants=["RoundTrip", "WEmit"])
    opts = options()
    by = {}
    for d, (k, o, c) in opts.items():
        if d not in SKIP:
            by.setdefault(k, []).append(d)
    con = lambda s: "".join(CH[x] for x in s)
    jobs = []
    cases = res.cases
    ctx.count("spec_behaviours", len(cases))
    for c in rng.sample(cases, min(len(cases), ctx.n(350, 3000))):
        k, v = c["k"], c["v"]
        args = []
        if v["t"] == "none":
            pass
        elif k == "flag":
            d = rng.choice(by["on"] + by.get("onoff", []))
            args.append(argv_of(opts[d][0], opts[d][1], v["v"]))
        elif k == "num":
            d = rng.choice(by["float"] + by["int"])
            args.append(argv_of(opts[d][0], opts[d][1], v["v"]))
        elif k == "text":
            d = rng.choice(by["text"] + ["description"])
            args.append(argv_of("text", opts[d][1], con(v["v"])))
        else:
            d = rng.choice(by["append"] + by.get("ntext", []))
            args.append(argv_of(opts[d][0], opts[d][1], [con(x) for x in v["v"]]))
        jobs.append(dict(args=args, final=rng.random() < 0.3, swap=rng.random() < 0.5))
    names = [d for d in opts if d not in SKIP]
    for i in range(ctx.n(450, 5000)):
        args = []
        for d in rng.sample(names, rng.choice([1, 4, 12, 40])):
            k, o, c = opts[d]
            args.append(argv_of(k, o, rvalue(rng, k, c)))
        if rng.random() < 0.4:
            args.append(argv_of("text", "--description", rng.choice([t for t in TEXT if "/" not in t])))
        if rng.random() < 0.3:
            args.append(["--grid_psf_file"] + rng.sample(["data/p.sav", "data/p q.npz"], rng.choice([1, 2])))
        if rng.random() < 0.4:
            args.append(["--n-pol=%d" % rng.choice([0, 2, 4])])
        if rng.random() < 0.3:
            args.append(["--model-file-type=uvfits"])
        if rng.random() < 0.3:
            args += [["--run-simulation"], ["--in-situ-sim-input=" + PATHS[0]], ["--eor-vis-filepath=" + rng.choice(PATHS)], ["--enhance-eor=%s" % rng.choice([1.0, 2.5])]]
        rng.shuffle(args)
        jobs.append(dict(args=args, final=rng.random() < 0.3, swap=rng.random() < 0.5))
    recs = conf.pool(job, jobs, ctx)
    skipped = [r["skip"] for r in recs if "skip" in r]
    recs = [r for r in recs if "skip" not in r]
    ctx.count("arguments_refused", len(skipped))
    if len(skipped) > len(jobs) // 5:
        ctx.violation("refused", "valid arguments are refused: %s" % skipped[:3], skipped[:10])
    ctx.sample(dict(args=recs[0]["args"], n_options=len(recs[0]["v"])))
    for i, v in sorted(tlc.judge(ctx, "ConfigOps", "Verdict05", recs).items()):
        for cl in v:
            r = recs[i]
            bad = [x for x in r["v"] if x["a"] != x["b"] or x["k"] != x["kb"]]
            ctx.violation("yaml:" + cl, "%s: arguments %s; %s %s" % (cl, r["args"], r["out"], bad), r)
    ctx.assumptions = ["texts hold no line breaks and no control characters other than a tab", "lists are given on the command line or in a file as the parser accepts them"]
