#!/usr/bin/env python3
"""mkbug.py ID PROPERTY < spec: makes /verif/seeded/ID/patch.diff and meta.json from an edit of a scratch clone.
The spec is Python source defining EDITS=[(file, old, new)], NEEDS and BREAKS."""
import json, os, subprocess, sys
bug, prop = sys.argv[1:3]
ns = {}
exec(sys.stdin.read(), ns)
w = '/tmp/mkbug-%d' % os.getpid()
subprocess.check_call(['git', 'clone', '-q', '/repo', w])
try:
    for f, old, new in ns['EDITS']:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, '%s: %d matches of %r' % (f, s.count(old), old[:60])
        open(p, 'w').write(s.replace(old, new))
    d = '/verif/seeded/' + bug
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
    if 'DEMO' in ns:
        open(d + '/demo.cc', 'w').write(ns['DEMO'])
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Builds demo.cc with the library of the current directory (/repo) and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -pthread -I"$R" -o "$T/demo" "$D/demo.cc" "$R/_build/libtkrzw.a" -llzma -llz4 -lzstd -lz -lrt -latomic -lpthread || exit 3
cd "$T" && timeout 120 ./demo "$T"
''')
finally:
    subprocess.call(['rm', '-rf', w])
