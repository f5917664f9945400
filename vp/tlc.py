"""Running TLC: model exploration with cases printed as JSON, and trace judgement."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from .core import VERIF, MachineryError

SPECS = os.path.join(VERIF, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCResult:
    def __init__(self):
        self.cases, self.states, self.distinct, self.out, self.coverage = [], 0, 0, "", {}


def _cfg(spec, constants, invariants, properties, constraint, view, post):
    lines = []
    lines.append("SPECIFICATION %s" % spec)
    for k in constants:
        lines.append("CONSTANT %s <- def_%s" % (k, k))
    for i in invariants:
        lines.append("INVARIANT %s" % i)
    for i in properties:
        lines.append("PROPERTY %s" % i)
    if constraint:
        lines.append("CONSTRAINT %s" % constraint)
    if view:
        lines.append("VIEW %s" % view)
    if post:
        lines.append("POSTCONDITION %s" % post)
    lines.append("CHECK_DEADLOCK FALSE")
    return "\n".join(lines) + "\n"


def run(ctx, module, spec="Spec", constants=None, invariants=(), properties=(), constraint=None,
        view=None, post=None, env=None, workers=8, timeout=800, simulate=None, heap="4g", expect_violation=False,
        coverage=False):
    """Run TLC on specs/<module>.tla. Lines printed by the model through PrintT("@@" \\o ToJson(..)) come back
    as parsed objects in .cases.  A violated invariant of the *model* is a machinery error (the specification is
    wrong or incomplete), never a verdict about the code."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=ctx.scratch)
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPECS, f), d)
    with open(os.path.join(d, "MC.cfg"), "w") as f:
        f.write(_cfg(spec, constants or {}, invariants, properties, constraint, view, post))
    with open(os.path.join(d, "MC.tla"), "w") as f:
        f.write("---- MODULE MC ----\nEXTENDS %s\n" % module)
        for k, v in (constants or {}).items():
            if k == "Verdict":
                f.write("def_Verdict(rec) == %s(rec)\n" % v)
            else:
                f.write("def_%s == %s\n" % (k, v))
        f.write("====\n")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC", "-config", "MC.cfg",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
    if coverage:
        cmd += ["-coverage", "1"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(ctx.seed)]
    cmd += ["MC"]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on %s" % module)
    r = TLCResult()
    r.out = p.stdout
    for line in p.stdout.splitlines():
        if line.startswith('"@@'):
            s = json.loads(line) if "\\" not in line else json.loads(line)
            r.cases.append(json.loads(s[2:]))
    m = None
    for m in re.finditer(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", p.stdout):
        pass
    if m:
        r.states = int(m.group(1).replace(",", ""))
        r.distinct = int(m.group(2).replace(",", ""))
    bad = "Error:" in p.stdout or (p.returncode != 0)
    r.stuck = None
    at = re.findall(r"/\\ lane = (\d+)\n/\\ pos = (\d+)|/\\ pos = (\d+)\n/\\ lane = (\d+)", p.stdout) if spec == "JSpec" and bad else []
    if at:
        r.stuck = (int(at[-1][0] or at[-1][3]), int(at[-1][1] or at[-1][2]))
    if bad and not expect_violation and r.stuck is None:
        keep = [l for l in p.stdout.splitlines() if not l.startswith('"@@')]
        raise MachineryError("TLC failed on %s (rc %s):\n%s" % (module, p.returncode, "\n".join(keep[-60:])))
    r.failed = bad
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.states
    shutil.rmtree(d, ignore_errors=True)
    return r


def judge(ctx, module, verdict, records, constants=None, workers=8, timeout=800, heap="6g"):
    """Let TLC judge records of real executions with the operator `verdict` of specs/<module>.tla.

    verdict(rec) is the set of names of failing clauses.  Returns {record index: [clauses]} for the failing
    records.  Every record counts as one validated trace."""
    if not records:
        return {}
    path = os.path.join(ctx.scratch, "trace_%s_%d.ndjson" % (module, len(os.listdir(ctx.scratch))))
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r) + "\n")
    cons = dict(constants or {})
    cons["Verdict"] = verdict
    res = run(ctx, "Judge, " + module, spec="JSpec", constants=cons, env={"VP_TRACE": path}, workers=workers, timeout=timeout, heap=heap)
    os.unlink(path)
    found = {c["l"] - 1: c["v"] for c in res.cases if "l" in c}
    if res.stuck is not None:
        # judging a record can only get stuck on values no behaviour of the model has (too big, or of another shape)
        i = res.stuck[1] * 16 + res.stuck[0]
        keep = [l for l in res.out.splitlines() if not l.startswith('"@@')]
        print("judging record %d of %s: %s" % (i, module, " ".join(keep[-60:])[:1500]))
        found[i] = found.get(i, []) + ["judgeable"]
        return found
    done = [c for c in res.cases if "done" in c]
    if sum(c["done"] for c in done) != len(records):
        raise MachineryError("judge %s: %s of %d records judged" % (module, sum(c["done"] for c in done), len(records)))
    ctx.replayed(len(records))
    return found
