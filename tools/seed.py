#!/usr/bin/env python3
"""seed.py: plant and confirm a bug (development aid, no check uses it).

  seed.py new ID PROP FILE  < json {"old","new","n":0,"needs","breaks"} ; demo.py must exist in seeded/ID
  seed.py check ID [--tests] : demo on the clean tree and with the patch, the stable tests and the property's quick check
"""
import sys, json, os, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEED_R", "/repo")
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def clean(): assert not sh(f"git -C {R} status --short").stdout.strip(), "repo dirty"
def make(i, prop, reps, needs, breaks, demo):
    clean()
    d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
    for f, old, new in reps:
        p = f"{R}/{f}"; s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    base = sh(f"git -C {R} rev-list --max-parents=0 HEAD").stdout.strip()
    for f, old, new in reps:  # a planted bug changes lines of the original repository
        orig = sh(f"git -C {R} show {base}:{f}").stdout.splitlines()
        gone = set(old.splitlines()) - set(new.splitlines())
        if gone and not all(l in orig for l in gone): print("NOT ORIGINAL", i, [l for l in gone if l not in orig])
    diff = sh(f"git -C {R} diff").stdout
    sh(f"git -C {R} checkout -- .")
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exits 0 when the behaviour is right, nonzero when it is broken; run with cwd /repo\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
def check(i, tests=True, chk=True):
    clean()
    d = f"{V}/seeded/{i}"; prop = json.load(open(d + "/meta.json"))["property"]
    a = sh(f"bash {d}/demo.sh", cwd=R)
    out = [f"{i} {prop} demo clean rc={a.returncode}"]
    if a.returncode: out.append(a.stdout[-300:] + a.stderr[-600:])
    try:
        ap = sh(f"git -C {R} apply {d}/patch.diff"); assert ap.returncode == 0, ap.stderr
        b = sh(f"bash {d}/demo.sh", cwd=R); out.append(f"patched rc={b.returncode} {(b.stdout+b.stderr).strip().splitlines()[-1:]}")
        if tests: out.append(sh(f"bash {V}/tools/repotest.sh").stdout.strip().splitlines()[-1])
        if chk:
            c = sh(f"VP_REPO={R} VERIF_SEED=1 {V}/bin/check {prop} quick")
            v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
            out.append(f"check rc={c.returncode} {'CAUGHT' if c.returncode == 1 and v else 'MISSED ' + c.stdout[-200:]}")
    finally:
        sh(f"git -C {R} checkout -- .")
    print(" | ".join(out), flush=True)
if __name__ == "__main__":
    for i in sys.argv[1:]:
        if not i.startswith("-"): check(i, "--no-tests" not in sys.argv, "--no-check" not in sys.argv)
