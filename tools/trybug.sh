#!/bin/bash
# trybug.sh ID [notest]: validates /verif/seeded/ID in a scratch copy of /repo and runs its check.
# Prints: builds / tests / demo on the clean tree / demo with the patch / check result.
ID=$1; D=/verif/seeded/$ID; W=/tmp/wt-$ID
rm -rf "$W"; cp -a /repo "$W"; cd "$W" || exit 2
mkdir -p /tmp/demo-$ID; rm -rf /tmp/demo-$ID/*; cp $D/* /tmp/demo-$ID/; rm -f /tmp/demo-$ID/*.diff /tmp/demo-$ID/meta.json
sed "s#/repo#$W#g" /opt/vp/build.sh > /tmp/build-$ID.sh
sed "s#/repo#$W#g; s#/opt/vp/build.sh#/tmp/build-$ID.sh#g" /opt/vp/test.sh > /tmp/test-$ID.sh
bash /tmp/build-$ID.sh >/tmp/build-$ID.log 2>&1 || { echo "$ID: clean build FAILED"; exit 1; }
(timeout 300 bash /tmp/demo-$ID/demo.sh) >/tmp/demo-$ID.clean 2>&1; echo "$ID: demo clean rc=$? (want 0)"
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash /tmp/build-$ID.sh >/tmp/build-$ID.log 2>&1 || { echo "$ID: build FAILED"; tail -20 /tmp/build-$ID.log; exit 1; }
(timeout 300 bash /tmp/demo-$ID/demo.sh) >/tmp/demo-$ID.bug 2>&1; echo "$ID: demo patched rc=$? (want nonzero)"
if [ "$2" != notest ]; then
  bash /tmp/test-$ID.sh /tmp/test-$ID.json >/dev/null 2>&1
  python3 - "$ID" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
r=json.load(open('/tmp/test-%s.json'%sys.argv[1]))
miss=sorted(b-set(r['passed']))
print('%s: tests: %d of %d stable pass; missing %s'%(sys.argv[1],len(b)-len(miss),len(b),miss[:5]))
P
fi
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir -p /tmp/vb-$ID
cd /verif; VERIF_REPO=$W VERIF_BUILD=/tmp/vb-$ID timeout 900 python3 check.py $P > /tmp/check-$ID.log 2>&1; echo "$ID: check $P rc=$? (want 1)"; tail -4 /tmp/check-$ID.log | cut -c1-300
rm -rf "$W" /tmp/demo-$ID /tmp/vb-$ID /tmp/build-$ID.* /tmp/test-$ID.*
