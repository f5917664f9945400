"""Runs the real PyFHD driver (PyFHD.pyfhd.main, quickview, store, config writer) with deterministic recording
stand-ins for the numerical stages, and reports stage calls and files as content tokens (see PipelineOps.tla)."""
import copy
import hashlib
import inspect
import logging
import os
import shutil
import sys
import warnings
from pathlib import Path

import numpy as np

from .core import MachineryError, call


class InjectedFault(Exception):
    pass


_base = {}


def base_config():
    """The parser's own defaults, once."""
    if "c" not in _base:
        from PyFHD.pyfhd_tools.pyfhd_setup import pyfhd_parser

        import tempfile

        with tempfile.NamedTemporaryFile("w", suffix=".yaml") as f:
            f.write("silent : True\n")
            f.flush()
            _base["c"] = vars(pyfhd_parser().parse_args(["-c", f.name, "OBS"]))
    return copy.deepcopy(_base["c"])


def canon(v):
    """Content of a value, blind to list/array, integer/real/complex representation and str/Path."""
    if v is None:
        return ("n",)
    if isinstance(v, dict):
        return ("d",) + tuple((k, canon(v[k])) for k in sorted(v))
    if isinstance(v, (str, Path)):
        return ("s", str(v))
    if isinstance(v, bytes):
        return ("s", v.decode())
    if isinstance(v, (list, tuple)):
        v = np.array(v)
    a = np.asarray(v)
    if a.dtype.kind in "US":
        return ("sa", a.shape, tuple(str(x) for x in a.ravel()))
    if a.dtype.kind in "biufc":
        a = a.astype(np.complex128)
        return ("a", a.shape, (a + 0.0).tobytes() if np.any(a.imag) else (a.real + 0.0).tobytes())
    if a.dtype == object:
        return ("o", a.shape, tuple(canon(x) for x in a.ravel()))
    return ("?", repr(v))


class Tokens:
    def __init__(self):
        self.t = {}

    def __call__(self, v):
        h = hashlib.sha1(repr(canon(v)).encode()).hexdigest()
        return self.t.setdefault(h, len(self.t) + 1)


def planes(T, a):
    return [T(x) for x in a] if a is not None else [T(None)]


def obs3(T, obs):
    core = {k: v for k, v in obs.items() if k not in ("vis_noise", "nf_vis")}
    return [[T(core)], [T(obs["vis_noise"])] if "vis_noise" in obs else [], [T(obs["nf_vis"])] if "nf_vis" in obs else []]


def cal2(T, cal):
    if cal is None:
        return [[T(None)], []]
    core = {k: v for k, v in cal.items() if k != "stokes_mix_phase"}
    return [[T(core)], [T(cal["stokes_mix_phase"])] if "stokes_mix_phase" in cal else []]


NB, NF, DIM = 3, 2, 4


class Run:
    def __init__(self, T, cfg, sel, fault, out, psfdir):
        self.T, self.cfg, self.sel, self.fault, self.out, self.psfdir = T, cfg, sel, fault, out, psfdir
        self.ev, self.counts, self.psf = [], {}, None

    # --- recording
    def begin(self, stage, ins):
        k = self.counts[stage] = self.counts.get(stage, 0) + 1
        if self.fault == (stage, k):
            raise InjectedFault(stage)
        self._in = ins
        h = hashlib.sha1(repr((stage, ins)).encode()).digest()
        return np.random.default_rng(np.frombuffer(h, dtype=np.uint32))

    def end(self, stage, ins, outs):
        self.ev.append({"s": stage, "in": ins, "out": outs})

    def wrap(self, stage, real, body):
        sig = inspect.signature(real)

        def stand_in(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            return body(stage, b.arguments)

        return stand_in

    # --- stand-ins: deterministic in the content of their inputs, unique outputs per stage
    def arr(self, r, shape, cplx=True):
        x = r.integers(-9999, 9999, shape).astype(float)
        return x + 1j * r.integers(-9999, 9999, shape) if cplx else x

    def pos(self, r, shape):
        return r.integers(1, 9999, shape).astype(float)

    def header(self, s, a):
        r = self.begin(s, [])
        o = ({"n_pol": self.cfg["npol"], "h": self.arr(r, 3, False)}, self.arr(r, 4, False), self.arr(r, 5, False), self.arr(r, 6, False))
        self.end(s, [], [[self.T(x)] for x in o])
        return o

    def simple(self, names, make, outs=None):
        def body(s, a):
            ins = [self.one(n, a) for n in names]
            ins = [x for i in ins for x in (i if i and isinstance(i[0], list) else [i])]
            r = self.begin(s, ins)
            v = make(r, a)
            self.end(s, ins, outs(v) if outs else [[self.T(v)]])
            return v

        return body

    def one(self, n, a):
        """tokens of one argument; obs is recorded without noise and counts unless asked for (obs3)"""
        if n == "obs":
            return obs3(self.T, a["obs"])[0]
        if n == "obs3":
            return obs3(self.T, a["obs"])
        if n == "cal2":
            return cal2(self.T, a["cal"])
        if n == "psf":
            return [self.T(self.psf_tag(a["psf"]))]
        if n in ("vis_arr", "vis_weights", "vis_weight_arr", "vis_model_arr", "image_uv", "weights_uv", "variance_uv", "model_uv"):
            return planes(self.T, a[n])
        return [self.T(a[n])]

    def psf_tag(self, psf):
        try:
            return np.array(psf["tag"][:])
        except Exception:
            return "closed"

    def new_obs(self, r):
        return {
            "n_pol": self.cfg["npol"], "dimension": DIM, "elements": DIM, "kpix": 0.5, "degpix": 1.0, "obsx": 2, "obsy": 2, "n_vis": 1,
            "pol_names": ["XX", "YY", "XY", "YX", "I", "Q", "U", "V"], "nf_vis": self.arr(r, NF, False), "tag": self.arr(r, 4, False),
            "instrument": "mwa", "absent": None, "time_res": 2.0,
            "baseline_info": {"tile_use": self.pos(r, 4), "freq_use": self.pos(r, NF), "names": np.array(["a", "bb"])},
            "astr": {"ctype": ["RA---SIN", "DEC--SIN"], "equinox": 2000.0, "cd": np.array([[1.0, 0.0], [0.0, 1.0]]), "cdelt": np.array([1.0, 1.0]),
                     "crpix": np.array([3.0, 3.0]), "crval": np.array([10.0, -27.0]), "pv2": np.array([0.0, 0.0]), "pv1": np.array([0.0, 0.0, 1.0]),
                     "mjdobs": 5.0, "dateobs": "2013-08-23", "radecsys": "FK5"},
        }

    def touch(self, r, obs):
        """the real stages update the observation in place"""
        obs["tag"] = self.arr(r, 4, False)
        obs["baseline_info"]["tile_use"] = self.pos(r, 4)

    def stages(self):
        T, n = self.T, self.cfg["npol"]
        vshape = (n, NF, NB)
        vo = lambda o: [planes(T, o[0]), planes(T, o[1])]

        def wts_obs(r, a):
            self.touch(r, a["obs"])
            return self.pos(r, vshape), a["obs"]

        wo = lambda o: [planes(T, o[0]), obs3(T, o[1])[0]]

        def calib(r, a):
            self.touch(r, a["obs"])
            return self.arr(r, vshape), {"gain": self.arr(r, (2, NF, 4)), "n_pol": 2, "ref": None, "mode": ["x", "y"]}, a["obs"]

        def grid(s, a):
            p = int(a["polarization"])
            T_ = T
            ins = [[T_(a["visibility"])], [T_(a["vis_weights"])], [T_(a["model"])], obs3(T_, a["obs"])[0], [T_(self.psf_tag(a["psf"]))], [T_(a["params"])],
                   [p], [int(bool(a["uniform_flag"]))], [int(bool(a["no_conjugate"]))], [int(bool(a["pyfhd_config"]["beam_per_baseline"]))]]
            if a["fi_use"] is not None or a["bi_use"] is not None:
                ins[-1] = [9]
            if self.fault == ("grid_empty", self.counts.get(s, 0) + 1):
                return {}
            r = self.begin(s, ins)
            a["obs"]["nf_vis"] = self.arr(r, NF, False)
            d = {"image_uv": self.arr(r, (DIM, DIM)), "weights": self.pos(r, (DIM, DIM)), "variance": self.pos(r, (DIM, DIM)), "model_return": self.arr(r, (DIM, DIM)),
                 "obs": a["obs"]}
            o = [[T_(d["image_uv"])], [T_(d["weights"])], [T_(d["variance"])], [T_(d["model_return"])]]
            if a["uniform_flag"]:
                d["uniform_filter"] = self.pos(r, (DIM, DIM))
                o.append([T_(d["uniform_filter"])])
            self.end(s, ins, o + [[T_(a["obs"]["nf_vis"])]])
            return d

        def reformat(s, a):
            ins = [planes(T, list(a.values())[0])]
            r = self.begin(s, ins)
            x = np.asarray(list(a.values())[0])
            if np.iscomplexobj(x) and not np.any(x[:2].imag):
                v = self.pos(r, x.shape).astype(complex)
                v[2:] = self.arr(r, v[2:].shape)
            else:
                v = self.arr(r, x.shape)
            self.end(s, ins, [planes(T, v)])
            return v

        def psf(s, a):
            r = self.begin(s, [])
            beam = np.ones(1 if self.cfg["beam1"] else 4)
            tag = self.arr(np.random.default_rng(5), 4, False)
            if self.cfg["psfh5"]:
                import h5py

                fn = os.path.join(self.psfdir, "psf%d_%d.h5" % (os.getpid(), id(self)))
                with h5py.File(fn, "w") as f:
                    f.create_group("image_info").create_dataset("image_power_beam_arr", data=beam)
                    f.create_dataset("tag", data=tag)
                v = h5py.File(fn, "r")
                os.unlink(fn)
            else:
                v = {"image_info": {"image_power_beam_arr": beam}, "tag": tag}
            self.psf = v
            self.end(s, [], [[T(tag)]])
            return v

        nothing = lambda o: []
        S = self.simple
        o1 = lambda v: [obs3(T, v)[0], obs3(T, v)[2]]
        return {
            "extract_header": ("header", self.header),
            "create_params": ("params", S(["pyfhd_header", "params_data"], lambda r, a: {"uu": self.arr(r, NB, False), "antenna1": np.arange(1, NB + 1)})),
            "extract_visibilities": ("visibilities", S(["pyfhd_header", "params_data"], lambda r, a: (self.arr(r, vshape), self.pos(r, vshape)), vo)),
            "create_layout": ("layout", S(["antenna_header", "antenna_data"], lambda r, a: {"names": ["T1", "T2"], "x": self.arr(r, 3, False)})),
            "create_obs": ("obs", S(["pyfhd_header", "params", "layout"], lambda r, a: self.new_obs(r), o1)),
            "create_psf": ("psf", psf),
            "simple_deproject_w_term": ("deproject", S(["obs", "params", "vis_arr"], lambda r, a: self.arr(r, vshape), lambda v: [planes(T, v)])),
            "vis_flag_basic": ("flag_basic", S(["vis_weight_arr", "vis_arr", "obs"], wts_obs, wo)),
            "vis_weights_update": ("weights", S(["vis_weights", "obs", "psf", "params"], wts_obs, wo)),
            "vis_model_transfer": ("model", S(["obs"], lambda r, a: (self.arr(r, vshape), {"mt": self.arr(r, NB, False)}), lambda o: [planes(T, o[0]), [T(o[1])]])),
            "flag_model_visibilities": ("flag_model", S(["vis_model_arr", "params_data", "params_model", "obs"], lambda r, a: self.arr(r, vshape), lambda v: [planes(T, v)])),
            "calibrate": ("calibrate", S(["obs", "params", "vis_arr", "vis_weights", "vis_model_arr"], calib,
                                         lambda o: [planes(T, o[0]), [T(o[1])], obs3(T, o[2])[0]])),
            "calibrate_qu_mixing": ("mix", S(["vis_arr", "vis_model_arr", "vis_weights", "obs"], lambda r, a: float(self.arr(r, 1, False)[0]))),
            "vis_flag": ("flag_vis", S(["vis_arr", "vis_weights", "obs", "params"], wts_obs, wo)),
            "vis_noise_calc": ("noise", S(["obs", "vis_arr", "vis_weights"], lambda r, a: self.arr(r, (n, NF), False))),
            "visibility_grid": ("grid", grid),
            "crosspol_reformat": ("reformat", reformat),
            "healpix_snapshot_cube_generate": ("healpix", S(["obs3", "psf", "cal2", "params", "vis_arr", "vis_model_arr", "vis_weights"], lambda r, a: None, nothing)),
        }

    def quick(self, real):
        sig = inspect.signature(real)
        names = ["obs3", "psf", "params", "cal2", "vis_arr", "vis_weights", "image_uv", "weights_uv", "variance_uv", "uniform_filter_uv", "model_uv"]

        def stand_in(*args, **k):
            b = sig.bind(*args, **k)
            a = b.arguments
            ins = []
            for n in names:
                i = self.one(n, a)
                ins += i if i and isinstance(i[0], list) else [i]
            self.begin("quickview", ins)
            self.end("quickview", ins, [])
            return real(*args, **k)

        return stand_in

    def dirty(self, s, a):
        plane = a["dirty_image_uv"]
        ins = [[self.T(plane)], [self.T(a["uniform_filter_uv"])], [self.T(a["weights"])]]
        r = self.begin(s, ins)
        v = self.arr(r, (DIM, DIM), bool(a["not_real"]))
        self.end(s, ins, [[self.T(v)], [self.T(v.real)], [self.T(v.imag)]])
        return v, np.ones((DIM, DIM)), None

    # --- one run of the driver
    def go(self):
        import PyFHD.pyfhd as M
        import PyFHD.io.pyfhd_quickview as Q

        c, T = self.cfg, self.T
        conf = base_config()
        out = Path(self.out)
        (out / "config").mkdir(parents=True, exist_ok=True)
        ck = lambda kind: out / "checkpoints" / ("%s_%s_checkpoint.h5" % (c["desc"] or c["id"], kind))
        conf.update(
            obs_id=c["id"], output_dir=out, log_name="run", commit="c0", log_time="t0", top_level_dir="top", description=c["desc"] if c["desc"] else c.get("nodesc"),
            save_visibilities=c["sv"], save_weights=c["sw"], save_obs=c["so"], save_params=c["sp"], save_cal=c["sc"], save_checkpoints=c["ck"],
            deproject_w_term=1.0 if c["dp"] else None, flag_basic=c["fb"], calibrate_visibilities=c["cal"], flag_model=c["fm"], flag_visibilities=c["fv"],
            cal_stop=c["cs"], recalculate_grid=c["rg"], export_images=c["ex"], snapshot_healpix_export=c["hp"], beam_per_baseline=c["bpb"],
            image_filter="filter_uv_" + c["filt"], pad_uv_image=1,
            obs_checkpoint=ck("obs") if self.sel["ob"] else None, calibrate_checkpoint=ck("calibration") if self.sel["cb"] else None,
            gridding_checkpoint=ck("gridding") if self.sel["gb"] else None,
        )
        logger = logging.Logger("pipe")
        logger.addHandler(logging.NullHandler())

        class P:
            def parse_args(self, *a, **k):
                import argparse

                return argparse.Namespace(**conf)

        patches = [(M, "pyfhd_parser", lambda *a, **k: P()), (M, "pyfhd_setup", lambda *a, **k: (conf, logger))]
        for name, (stage, body) in self.stages().items():
            if not hasattr(M, name):
                raise MachineryError("driver no longer uses %s" % name)
            patches.append((M, name, self.wrap(stage, getattr(M, name), body)))
        patches.append((M, "quickview", self.quick(M.quickview)))
        n = c["npol"]
        one = np.ones((DIM, DIM))
        for name, f in {
            "update_obs": lambda obs, *a, **k: copy.deepcopy(obs),
            "pixel_to_radec": lambda *a, **k: (np.zeros((DIM, DIM)), np.zeros((DIM, DIM))),
            "beam_image": lambda *a, **k: one.copy(),
            "get_image_renormalization": lambda *a, **k: np.ones(n),
            "region_grow": lambda *a, **k: np.arange(DIM * DIM),
        }.items():
            if not hasattr(Q, name):
                raise MachineryError("quickview no longer uses %s" % name)
            patches.append((Q, name, f))
        patches.append((Q, "dirty_image_generate", self.wrap("dirty", Q.dirty_image_generate, self.dirty)))
        saved = [(m, k, getattr(m, k)) for m, k, _ in patches]
        for m, k, f in patches:
            setattr(m, k, f)
        so, se, argv = sys.stdout, sys.stderr, sys.argv
        try:
            sys.stdout = sys.stderr = open(os.devnull, "w")
            sys.argv = ["pyfhd"]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                o = call(M.main, timeout=60)
        finally:
            sys.stdout.close()
            sys.stdout, sys.stderr, sys.argv = so, se, argv
            for m, k, f in saved:
                setattr(m, k, f)
        if o[0] == "ok":
            res = "done"
        elif o[0] == "exit" and o[1] in (0, None):
            res = "exit0"
        else:
            res = "fail"
        closed = True
        if self.psf is not None and not isinstance(self.psf, dict):
            closed = not bool(self.psf)
            if not closed:
                self.psf.close()
        return {"ob": self.sel["ob"], "cb": self.sel["cb"], "gb": self.sel["gb"], "fault": self.fault[0] if self.fault else "", "ev": self.ev, "out": res,
                "disk": snapshot(T, out), "closed": closed, "why": str(o)[:300] if res == "fail" else ""}


def snapshot(T, out):
    from astropy.io import fits
    from PyFHD.io.pyfhd_io import load

    res = []
    for root, _, files in os.walk(out):
        for fn in sorted(files):
            p = Path(root, fn)
            rel = str(p.relative_to(out))
            c = []
            try:
                if fn.endswith(".h5") and not rel.startswith("config"):
                    v = load(p)
                    if fn.endswith("_obs_checkpoint.h5"):
                        c = obs3(T, v["obs"]) + [[T(v["params"])], planes(T, v["vis_arr"]), planes(T, v["vis_weights"])]
                    elif fn.endswith("_calibration_checkpoint.h5"):
                        c = obs3(T, v["obs"]) + [[T(v["params"])], planes(T, v["vis_arr"]), planes(T, v["vis_model_arr"]), planes(T, v["vis_weights"])] + cal2(T, v["cal"])
                    elif fn.endswith("_gridding_checkpoint.h5"):
                        c = obs3(T, v["obs"]) + [planes(T, v["image_uv"]), planes(T, v["weights_uv"]), planes(T, v["variance_uv"]), [T(v["uniform_filter_uv"])], planes(T, v["model_uv"])]
                    elif fn.endswith("_obs.h5"):
                        c = obs3(T, v)
                    elif fn.endswith("_cal.h5"):
                        c = cal2(T, v)
                    elif fn.endswith(("_params.h5", "_uniform_filter_uv.h5")):
                        c = [[T(v)]]
                    else:
                        c = [planes(T, v)]
                elif fn.endswith(".fits"):
                    data = lambda q: np.array(fits.getdata(q), dtype=float)
                    if "_residual_" in fn:
                        c = [[T(data(p) + data(str(p).replace("_residual_", "_model_")))]]
                    elif "_beam_" in fn:
                        c = []
                    elif "_uv_weights_" in fn:
                        c = [[T(data(p))]] if fn.endswith(("_XX.fits", "_YY.fits")) else []
                    else:
                        c = [[T(data(p))]]
            except Exception as e:  # unreadable product
                c = [[0]]
            res.append({"p": rel, "c": c})
    return res


def history(job):
    """job: cfg, runs=[{ob,cb,gb,fault:(stage,k)|None}], ref?, dir -> record for TLC"""
    d = os.path.join(job["dir"], "h%d_%d" % (os.getpid(), job["n"]))
    T = Tokens()
    try:
        rec = {"cfg": job["cfg"], "absent": T(None), "runs": []}
        if job.get("ref"):
            rec["ref"] = Run(T, job["cfg"], dict(ob=False, cb=False, gb=False), None, os.path.join(d, "ref"), d).go()
        for r in job["runs"]:
            rec["runs"].append(Run(T, job["cfg"], r, tuple(r["fault"]) if r.get("fault") else None, os.path.join(d, "out"), d).go())
        return rec
    except MachineryError as e:
        return {"error": str(e)}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def execute(ctx, jobs):
    import multiprocessing as mp

    base_config()
    import PyFHD.pyfhd  # noqa: imported before forking

    for i, j in enumerate(jobs):
        j["n"], j["dir"] = i, ctx.scratch
    with mp.get_context("fork").Pool(8) as pool:
        recs = pool.map(history, jobs, chunksize=4)
    for r in recs:
        if "error" in r:
            raise MachineryError(r["error"])
    return recs
