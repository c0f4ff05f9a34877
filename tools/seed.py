#!/usr/bin/env python3
"""Makes and confirms one planted bug: seed.py SPEC.py [--nocheck]. SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)] and DEMO
(C++ text) and optionally FLAGS. The bug is applied to /repo for the duration of the run and undone. Development tool; no check uses it."""
import sys, os, json, subprocess, runpy, shutil
V = '/verif'; R = '/repo'
def sh(c, t=900): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def clean(): sh('git -C /repo checkout -- .')
def tests():
    r = sh('bash /opt/vp/test.sh /tmp/seed_t.json'); d = json.load(open('/tmp/seed_t.json')); b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [x for x in b if x not in d['passed']], r.stdout[-1500:]
S = runpy.run_path(sys.argv[1]); D = V + '/seeded/' + S['ID']
assert sh('git -C /repo status --porcelain').stdout == '', 'repo not clean'
os.makedirs(D, exist_ok=True)
try:
    for f, old, new in S['EDITS']:
        p = R + '/' + f; s = open(p).read(); assert s.count(old) == 1, (f, s.count(old), old); open(p, 'w').write(s.replace(old, new))
    open(D + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    open(D + '/demo.cpp', 'w').write(S['DEMO'])
    open(D + '/demo.sh', 'w').write('''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export LD_LIBRARY_PATH=/repo/_build/root/lib HOME="$t"
g++ -std=c++14 -O1 -w %s -I/repo/_build/root/include -I/repo/include -I/repo/lib "$d/demo.cpp" -o "$t/demo" -L/repo/_build/root/lib -lPothos -lPocoFoundation -lPocoNet -lpthread || exit 2
cd "$t" && timeout 120 ./demo
''' % S.get('FLAGS', ''))
    json.dump({'property': S['PROP'], 'needs': S['NEEDS'], 'what_it_breaks': S['BREAKS']}, open(D + '/meta.json', 'w'), indent=1)
    miss, log = tests(); print('tests broken by the patch:', miss, log if miss else '')
    r = sh('bash %s/demo.sh' % D); print('demo with patch: rc', r.returncode, r.stdout[-300:]); bad = r.returncode
    if '--nocheck' not in sys.argv:
        for p in [S['PROP']] + S.get('ALSO', []):
            r = sh(['python3', V + '/check.py', p, 'quick']); print('check rc', r.returncode, '\n'.join(r.stdout.splitlines()[-6:]))
finally: clean()
sh('bash /opt/vp/build.sh'); r = sh('bash %s/demo.sh' % D); print('demo without patch: rc', r.returncode, r.stdout[-300:])
if miss or bad == 0 or r.returncode: print('*** NOT A VALID SEED ***')
