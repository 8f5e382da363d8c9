#!/usr/bin/env python3
"""seedtest.py ID... [--checks-only|--no-tests]: apply seeded/<ID>/patch.diff to /repo, build, run tests, demo and the property's check, undo."""
import json, subprocess, sys, os
V = '/verif'
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
only = '--checks-only' in sys.argv; notests = '--no-tests' in sys.argv
for i in ids:
    d = '%s/seeded/%s' % (V, i)
    prop = json.load(open(d + '/meta.json'))['property']
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'dirty /repo'
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode: print(i, 'PATCH DOES NOT APPLY', a.stdout); continue
    try:
        out = [i, prop]
        if not only:
            b = sh('bash /opt/vp/build.sh')
            if b.returncode: print(i, 'BUILD FAILS', b.stdout[-3000:]); continue
            if not notests:
                sh('bash /opt/vp/test.sh /tmp/st.json')
                p = set(json.load(open('/tmp/st.json'))['passed'])
                out.append('tests ok' if base <= p else 'TESTS FAIL %s' % sorted(base - p)[:5])
            dm = sh('bash %s/demo.sh' % d, cwd='/repo')
            out.append('demo rc=%d%s' % (dm.returncode, '' if dm.returncode else ' NOT SHOWN ' + dm.stdout[-300:]))
        c = sh('python3 check.py ' + prop, cwd=V)
        out.append('check rc=%d %s' % (c.returncode, 'CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + prop in c.stdout else 'MISSED'))
        print(' | '.join(out), flush=True)
        if '-v' in sys.argv or 'MISSED' in out[-1]: print(c.stdout[-1500:])
    finally:
        sh('git -C /repo checkout -- .')
