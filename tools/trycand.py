#!/usr/bin/env python3
"""trycand.py NAME... < candidates file (python: CANDS = {name: [(file, old, new)]}): runs the stable tests
against each candidate edit in a scratch copy, and reports the survivors."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(sys.stdin.read(), ns)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def run(item):
    name, edits = item
    w = '/tmp/tc-' + name
    subprocess.call(['rm', '-rf', w])
    subprocess.check_call(['cp', '-a', '/repo', w])
    try:
        for f, old, new in edits:
            p = os.path.join(w, f); s = open(p).read()
            if s.count(old) != 1: return name, 'EDIT: %d matches of %r' % (s.count(old), old[:50])
            open(p, 'w').write(s.replace(old, new))
        b = open('/opt/vp/build.sh').read().replace('/repo', w); open('/tmp/tcb-%s.sh' % name, 'w').write(b)
        t = open('/opt/vp/test.sh').read().replace('/repo', w).replace('/opt/vp/build.sh', '/tmp/tcb-%s.sh' % name)
        open('/tmp/tct-%s.sh' % name, 'w').write(t)
        subprocess.call(['timeout', '900', 'bash', '/tmp/tct-%s.sh' % name, '/tmp/tc-%s.json' % name], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = json.load(open('/tmp/tc-%s.json' % name))
        miss = sorted(base - set(r['passed']))
        return name, ('SURVIVES' if not miss else 'caught by %d: %s' % (len(miss), miss[:4]))
    finally:
        subprocess.call(['rm', '-rf', w, '/tmp/tcb-%s.sh' % name, '/tmp/tct-%s.sh' % name, '/tmp/tc-%s.json' % name])
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(run, ns['CANDS'].items()): print(*r, flush=True)
