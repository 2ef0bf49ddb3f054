#!/bin/bash
# Rebuilds /repo, runs the stable tests and prints the stable ones which fail.
bash /opt/vp/build.sh >/tmp/vp-build.log 2>&1 || { tail -30 /tmp/vp-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vp-t.json >/tmp/vp-test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('/tmp/vp-t.json'))
p=set(t['passed']); bad=[i for i in b if i not in p]
print(len(b),len(p),'FAILING:',bad)
P
