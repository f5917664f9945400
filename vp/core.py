"""Shared machinery: check context, evidence, verdicts, guarded calls, known findings."""
import errno
import json
import math
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")


class MachineryError(Exception):
    """The check itself (not the code under test) went wrong."""


class Timeout(BaseException):
    pass


def _alarm_for(timeout):
    """A call that has hardly run when the time is up was held up by a busy or suspended machine: it gets more time, at most three times."""
    t0, left = time.process_time(), [3]

    def alarm(signum, frame):
        if left[0] and time.process_time() - t0 < timeout / 3:
            left[0] -= 1
            signal.setitimer(signal.ITIMER_REAL, timeout)
            return
        raise Timeout()

    return alarm


def call(fn, *args, timeout=30, **kw):
    """Run a call into the code under test; the outcome is always a value, never an exception.

    ('ok', value) | ('raise', type name, text) | ('exit', code) | ('hang',)
    """
    old = signal.signal(signal.SIGALRM, _alarm_for(timeout))
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        return ("ok", fn(*args, **kw))
    except Timeout:
        return ("hang",)
    except SystemExit as e:
        return ("exit", e.code)
    except MachineryError:
        raise
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in reversed(tb):
            if "/PyFHD/" in fr.filename:
                where = os.path.basename(fr.filename) + ":" + fr.name
                break
        return ("raise", type(e).__name__, str(e)[:300], where)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def rat(x, maxden=5040, tol=1e-9):
    """Exact small rational of a float as [num, den]; non-finite -> [0,0]/[1,0]/[-1,0];
    something that is not a small rational -> [1999999999, 1] (never equal to a model value)."""
    x = float(x)
    if math.isnan(x):
        return [0, 0]
    if math.isinf(x):
        return [1, 0] if x > 0 else [-1, 0]
    if abs(x) > 4e5:
        return [1999999999, 1]
    f = Fraction(x).limit_denominator(maxden)
    if abs(float(f) - x) > tol * max(1.0, abs(x)) or abs(f.numerator) > 2 * 10**9:
        return [1999999999, 1]
    return [f.numerator, f.denominator]


class Ctx:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.cov = {
            "states": 0,
            "transitions": 0,
            "traces_validated_against_impl": 0,
            "samples": [],
        }
        self.extra = {}
        self.assumptions = []
        self.viol = {}  # key -> (message, payload, count)
        self.scratch = tempfile.mkdtemp(prefix="vp_%s_" % pid)
        self.known = self._load_known()

    # --- budget helpers
    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def _load_known(self):
        """known_findings.txt:  known: property=P01 key=<key> :: <what fails>   |   fixed: property=... (no effect)"""
        known = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                if line.startswith("known: property=%s key=" % self.pid):
                    rest = line.strip().split(" key=", 1)[1]
                    key, what = rest.split(" :: ", 1)
                    known[key] = what
        return known

    # --- verdicts
    def violation(self, key, message, payload=None):
        """key identifies the specific failing input/call site/history (used for known findings)."""
        if key in self.viol:
            m, p, c = self.viol[key]
            self.viol[key] = (m, p, c + 1)
        else:
            self.viol[key] = (message, payload, 1)

    def replayed(self, k=1):
        self.cov["traces_validated_against_impl"] += k

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def count(self, name, k=1):
        self.extra[name] = self.extra.get(name, 0) + k

    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        new = {k: v for k, v in self.viol.items() if k not in self.known}
        old = {k: v for k, v in self.viol.items() if k in self.known}
        os.makedirs(OUT, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        for k, what in self.known.items():
            tag = "" if k in old else " (not seen in this run)"
            if k in old:
                print("KNOWN-FINDING: property=%s %s [%s]%s" % (self.pid, what, k, tag))
        cov = dict(self.cov)
        cov.update(self.extra)
        if not cov["samples"]:
            cov["samples"] = ["(none recorded)"]
        ev = dict(
            property=self.pid,
            tier=self.tier,
            seed=self.seed,
            level=self.level,
            coverage=cov,
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(new),
        )
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=jdefault)
        print(
            "%s %s: states=%d transitions=%d replays=%d extra=%s wall=%.1fs"
            % (
                self.pid,
                self.tier,
                cov["states"],
                cov["transitions"],
                cov["traces_validated_against_impl"],
                self.extra,
                time.time() - self.t0,
            )
        )
        for i, (k, (m, p, c)) in enumerate(sorted(new.items(), key=lambda kv: str(kv[0]))):
            path = os.path.join(OUT, "%s-%d.json" % (self.pid, i))
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, key=k, message=m, count=c, payload=p, seed=self.seed), f, indent=1, default=jdefault)
            if i < 20:
                print("  [%s] x%d: %s" % (k, c, str(m)[:600]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1 if new else 0


def jdefault(o):
    import numpy as np

    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, (set, tuple)):
        return list(o)
    return repr(o)


def main(argv):
    import importlib

    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        raise SystemExit("tier must be quick or thorough")
    mod = importlib.import_module("vp.checks." + pid.lower())
    ctx = Ctx(pid, tier)
    # The work runs in a child: memory corruption in compiled code under test must end as a verdict.
    child = os.fork()
    if child == 0:
        try:
            try:
                mod.run(ctx)
            except (LookupError, TypeError, ValueError, AttributeError, ArithmeticError, AssertionError, RuntimeError, OSError) as e:
                if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EAGAIN):
                    raise
                # what the code returned does not have the parts the specification speaks of
                tb = traceback.format_exc()
                print(tb)
                ctx.violation("outcome:" + type(e).__name__, "the outcome of the code cannot be read as the one specified: " + tb[-700:])
            rc = ctx.finish()
        except BaseException:
            traceback.print_exc()
            print("MACHINERY ERROR in check %s" % pid)
            rc = 3
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
    _, st = os.waitpid(child, 0)
    shutil.rmtree(ctx.scratch, ignore_errors=True)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
            ctx.violation("crash:%d" % sig, "the code under test crashed the interpreter with signal %d" % sig)
            return ctx.finish()
        print("MACHINERY ERROR: child killed by signal %d" % sig)
        return 3
    return os.WEXITSTATUS(st)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main(sys.argv))
