#!/bin/bash
# runs the repository's stable tests and reports whether all of them pass
bash /opt/vp/test.sh /tmp/rt.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/rt.json'))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in r.items()})
p=set(r.get('passed',[]))
print("STABLE OK" if b<=p else "STABLE FAIL %s"%(b-p))
P
rm -f /tmp/rt.json
