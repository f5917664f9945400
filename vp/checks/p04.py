"""P04 validation and settling of the options."""
import argparse
import copy
import os
import shutil
from pathlib import Path

from .. import conf, tlc
from ..core import rat

FILES = ["beam_file_path", "obs_checkpoint", "calibrate_checkpoint", "gridding_checkpoint", "cal_bp_transfer", "diffuse_calibrate",
         "calibration_catalog_file_path", "transfer_calibration", "transfer_model_uv", "transfer_weights", "diffuse_model",
         "model_catalog_file_path", "model_file_path", "in_situ_sim_input", "eor_vis_filepath", "sim_noise", "extra_vis_filepath", "IDL_variables_file",
         "healpix_inds"]
NAME = dict(ra="recalculate_all", rb="recalculate_beam", rg="recalculate_grid", he="snapshot_healpix_export", sv="save_visibilities", bot="beam_offset_time",
            bpb="beam_per_baseline", ik="interpolate_kernel", hyper="cal_reflection_hyperresolve", mfile="cal_reflection_mode_file",
            mdelay="cal_reflection_mode_delay", mtheory="cal_reflection_mode_theory", gain="cal_base_gain")


def enc(conf_):
    o = {}
    for k, n in NAME.items():
        v = conf_[n]
        if k in ("bot", "mtheory"):
            v = 0 if v is None or v is False else int(v) if float(v) == int(v) else 99999
        elif k == "gain":
            v = [] if v is None else rat(v)
        else:
            v = bool(v) if isinstance(v, (bool, int)) else "?"
        o[k] = v
    return o


def job(j):
    d = Path(j["dir"])
    cwd = os.getcwd()
    try:
        (d / "data").mkdir(parents=True)
        os.chdir(d)
        c, obs = j["c"], "77"
        if c["inp"]:
            (d / "in").mkdir()
            for on, ext in ((c["uv"], "uvfits"), (c["meta"], "metafits")):
                if on:
                    (d / "in" / (obs + "." + ext)).write_text("x")
        opts = {"input_path": Path("in"), "output_path": Path("out" if j["nest"] == 0 else "out/a/b"), "silent": True, "obs_id": obs}
        for f in FILES:
            s = c["f"][f]
            p = Path("data", f + ".h5") if not j["abs"] else d / "data" / (f + ".h5")
            if f == "model_file_path" and s == 1 and c["mtype"] == "sav":
                p = Path("data/model")
                p.mkdir()
                for i in range(c["nsav"] - (1 if c["mparams"] else 0)):
                    (p / ("%s_vis_model_%s.sav" % (obs, ["XX", "YY", "XY", "YX", "I", "Q"][i]))).write_text("x")
                if c["mparams"]:
                    (p / (obs + "_params.sav")).write_text("x")
                (p / "notes.txt").write_text("x")
            elif s == 1:
                p.write_text("x")
            opts[f] = None if s == 0 else str(p) if f == "IDL_variables_file" else p
        opts["grid_psf_file"] = []
        for i, s in enumerate(c["psf"]):
            n = "data/psf%d%s" % (i, {"there": [".sav", ".npz"][i % 2], "gone": [".npz", ".sav"][i % 2], "bad": [".txt", "sav"][i % 2]}[s])
            if s != "gone":
                Path(n).write_text("x")
            opts["grid_psf_file"].append(n)
        opts.update(restrict_healpix_inds=c["restrict"], allow_sidelobe_model_sources=c["sidelobe"], model_file_type=c["mtype"], n_pol=c["npol"],
                    run_simulation=c["sim"], enhance_eor=float(c["enhance"]), pad_uv_image=j["pad"], ring_radius_multi=j["ring"], description=j["desc"])
        for k, n in NAME.items():
            v = j["o"][k]
            if k == "gain":
                v = None if v == [] else v[0] / v[1]
            opts[n] = v
        (d / "e.yaml").write_text("silent : true\n")
        b = conf.parse(["-c", "e.yaml", obs])
        if b[0] != "ok":
            return {"error": str(b)}
        base = vars(b[1])
        base.update(copy.deepcopy(opts))
        for k, v in j["others"].items():
            base[k] = v
        before = copy.deepcopy(base)
        out, n = conf.setup(argparse.Namespace(**base))
        r = {"c": c, "o": enc(before), "reported": n, "out": out[0] if out[0] != "raise" else "raise " + str(out[1:]), "after": enc(before), "changed": [], "badpath": [],
             "ring": [0, 1], "ringwant": [0, 1], "again": [], "wrote": False}
        dirs = [p for p in Path("out").rglob("pyfhd_*") if p.is_dir()]
        r["wrote"] = any((p / "config").is_dir() and list((p / "config").glob("*.yaml")) for p in dirs)
        if out[0] == "ok":
            a = out[1][0]
            r["after"] = enc(a)
            paths = set(f for f in FILES if before[f] is not None) - {"healpix_inds"}
            r["changed"] = [k for k in before if k not in conf.INTERNAL and k not in paths and k != "healpix_inds" and conf.canon(before[k]) != conf.canon(a.get(k, "<gone>"))]
            for f in sorted(paths) + (["healpix_inds"] if c["restrict"] and c["f"]["healpix_inds"] == 1 else []):
                if not (isinstance(a[f], (str, Path)) and os.path.isabs(a[f]) and os.path.samefile(a[f], before[f])):
                    r["badpath"].append(f)
            last = {}
            for p in before["grid_psf_file"]:
                last[p[-3:]] = p
            for e, p in last.items():
                q = a["grid_psf_file_" + e]
                if not (q and os.path.isabs(q) and os.path.samefile(q, p)):
                    r["badpath"].append("grid_psf_file_" + e)
            r["ring"], r["ringwant"] = rat(a["ring_radius"]), rat(before["pad_uv_image"] * before["ring_radius_multi"])
            keep = copy.deepcopy(a)
            out2, _ = conf.setup(argparse.Namespace(**copy.deepcopy(a)))
            if out2[0] != "ok":
                r["again"] = ["refused"]
            else:
                r["again"] = [k for k in keep if k not in conf.INTERNAL and conf.canon(keep[k]) != conf.canon(out2[1][0].get(k, "<gone>"))]
        return r
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def rworld(rng, bad):
    """A world and file options; `bad` is how often something is wrong."""
    w = lambda: rng.random() >= bad
    st = lambda: rng.choice([0, 0, 1, 1]) if w() else 2
    c = {"inp": rng.random() >= bad / 3, "f": {f: st() for f in FILES}}
    c["uv"], c["meta"] = (w(), w()) if c["inp"] else (False, False)
    c["restrict"] = rng.random() < 0.5
    c["sidelobe"] = not w()
    c["mtype"] = rng.choice(["sav", "uvfits"])
    c["npol"] = rng.choice([0, 2, 4])
    c["mparams"] = w()
    c["nsav"] = rng.choice([max(3, c["npol"] + 1), max(3, c["npol"] + 2)]) if w() else rng.randint(0, 4)
    if c["f"]["model_file_path"] != 1 or c["mtype"] != "sav":
        c["mparams"], c["nsav"] = False, 0
    if c["mparams"] and c["nsav"] == 0:
        c["nsav"] = 1
    c["sim"] = rng.random() < 0.5
    if not c["sim"] and w():
        for f in ("in_situ_sim_input", "eor_vis_filepath", "sim_noise"):
            c["f"][f] = 0
    c["enhance"] = 1 if c["f"]["eor_vis_filepath"] == 0 and w() else rng.choice([1, 2])
    c["psf"] = [("there" if w() else rng.choice(["gone", "bad"])) for _ in range(rng.choice([0, 0, 1, 2]))]
    return c


def run(ctx):
    rng = ctx.rng
    res = tlc.run(ctx, "Config", constants=dict(Picks="0..52" if ctx.thorough else "{%d, %d}" % (rng.randrange(53), rng.randrange(53)), Texts="1"),
                  invariants=["SettledConsistent", "Idempotent", "LeftAlone", "OnlyConflicts", "Emit"])
    cases = res.cases
    ctx.count("spec_behaviours", len(cases))
    jobs = []
    oth = {"dimension": 64, "kbinsize": 0.25, "cal_stop": True, "save_obs": True, "flag_tiles": ["T1"], "image_filter": "filter_uv_natural", "min_baseline": 3.0,
           "cleanup": True, "export_images": False, "FoV": 10.0, "beam_nfreq_avg": 4}
    mk = lambda o, bad: dict(o=o, c=rworld(rng, bad), nest=rng.choice([0, 0, 1]), abs=rng.random() < 0.3, pad=rng.choice([1.0, 2.0, 1.5]), ring=rng.choice([10, 0, 4.0]),
                             desc=rng.choice([None, "run x", "r"]), others={k: oth[k] for k in rng.sample(sorted(oth), 4)})
    for o in rng.sample(cases, min(len(cases), ctx.n(500, 6000))):
        jobs.append(mk(o, 0.0))
    for _ in range(ctx.n(700, 6000)):
        jobs.append(mk(rng.choice(cases), rng.choice([0.03, 0.03, 0.1, 0.3])))
    recs = conf.pool(job, jobs, ctx)
    for r in recs:
        if "error" in r:
            ctx.violation("parser", "the parser refused the defaults: %s" % r["error"], r)
            return
    ctx.count("valid", sum(r["out"] == "ok" for r in recs))
    ctx.count("refused", sum(r["out"] == "exit" for r in recs))
    ctx.sample(recs[0])
    for i, v in sorted(tlc.judge(ctx, "ConfigOps", "Verdict04", recs).items()):
        for cl in v:
            ctx.violation("config:" + cl[:60], "%s: %s" % (cl, {k: recs[i][k] for k in recs[i]}), recs[i])
    ctx.assumptions = ["options are given as the parser's defaults overlaid with generated values; the set-up runs in scratch directories with its real logger"]
