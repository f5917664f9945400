"""Real parser, set-up and configuration writer, run in scratch directories."""
import copy
import logging
import os
import re
import shutil
import sys
from pathlib import Path

from .core import call

IDENT = {"commit", "log_name", "log_time", "obs_id", "config", "config_file"}
INTERNAL = {"output_dir", "top_level_dir", "ring_radius", "recalculate_mapfn", "grid_psf_file_sav", "grid_psf_file_npz"} | IDENT


class Catch(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, r):
        self.lines.append(r.getMessage())


def quiet(fn, *a):
    """call with stdout/stderr dropped and the root logger put back"""
    root = logging.getLogger()
    keep, lvl, dis = root.handlers[:], root.level, logging.root.manager.disable
    c = Catch()
    root.handlers[:] = [c]
    logging.disable(logging.NOTSET)
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = open(os.devnull, "w")
    try:
        return call(fn, *a), c.lines
    finally:
        sys.stdout.close()
        sys.stdout, sys.stderr = so, se
        for h in root.handlers:
            if h not in keep and h is not c:
                h.close()
        root.handlers[:] = keep
        root.setLevel(lvl)
        logging.captureWarnings(False)
        logging.root.manager.disable = dis


def parse(argv):
    from PyFHD.pyfhd_tools.pyfhd_setup import pyfhd_parser

    return quiet(lambda: pyfhd_parser().parse_args(argv))[0]


def setup(ns):
    from PyFHD.pyfhd_tools.pyfhd_setup import pyfhd_setup

    o, lines = quiet(pyfhd_setup, ns)
    n = -1
    for l in lines:
        m = re.search(r"(\d+) errors? detected", l)
        if m:
            n = int(m.group(1))
    return o, n


def canon(v):
    if v is None or isinstance(v, bool):
        return str(v)
    if isinstance(v, (int, float)):
        return "num " + repr(float(v))
    if isinstance(v, (str, Path)):
        return "text " + str(v)
    if isinstance(v, (list, tuple)):
        return "list " + repr([canon(x) for x in v])
    return "other " + repr(v)


def kind(v):
    if isinstance(v, bool):
        return "flag"
    if isinstance(v, (int, float)):
        return "num"
    if isinstance(v, Path):
        return "path"
    return {str: "text", list: "list", type(None): "none"}.get(type(v), type(v).__name__)


def pool(fn, jobs, ctx):
    import multiprocessing as mp
    import PyFHD.pyfhd_tools.pyfhd_setup  # noqa

    for i, j in enumerate(jobs):
        j["dir"] = os.path.join(ctx.scratch, "c%d" % i)
    with mp.get_context("fork").Pool(8) as p:
        return p.map(fn, jobs, chunksize=4)
