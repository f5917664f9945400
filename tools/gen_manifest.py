#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties, the checks that exist and the notes below."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = {
 "default": "TLC explores the specification's bounded state space completely and its behaviours are replayed on the real code; randomly generated larger real executions are recorded and judged by TLC against the same operators",
}
NA = {}
exec(open(os.path.join(R, "tools", "notes.py")).read()) if os.path.exists(os.path.join(R, "tools", "notes.py")) else None
checks, na = [], []
for line in open(os.path.join(R, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in NA or not os.path.exists(os.path.join(R, "vp", "checks", pid.lower() + ".py")):
        na.append(dict(property=pid, reason=NA.get(pid, "check not built")))
        continue
    checks.append(dict(property=pid, quick_cmd="bin/check %s quick" % pid, thorough_cmd="bin/check %s thorough" % pid,
                       evidence_file="evidence/%s.json" % pid, technique="TLA+ specification checked with TLC, behaviours replayed on the code and recorded executions judged by TLC",
                       level="model_checking", level_note=NOTE.get(pid, NOTE["default"])))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
