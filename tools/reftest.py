#!/usr/bin/env python3
"""reftest.py [names]: apply each refactoring in a scratch copy; list the functions whose comparison is not EQ."""
import sys, os, subprocess, json, shutil, multiprocessing as mp
sys.path.insert(0, '/verif/tools')
def one(a):
    wid, names = a
    import refactors2, refactors3, refactors4, refactors5, refactors6, refactors7, refactors8, refactors9, refactors10, refactors11; from refactors import R
    d = '/tmp/ref/p%d_w%d' % (os.getppid(), wid)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo']); subprocess.run(['rm', '-rf', d + '/repo/target', d + '/repo/py-forust/target'])
    subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
    subprocess.run(['cp', '-a', '/verif/.build', d + '/build'])
    env = dict(os.environ, FORUST_REPO=d + '/repo', FORUST_BUILD=d + '/build', PYTHONHASHSEED='0')
    for n in names:
        files = set(); bad = None
        for f, x, y in R[n]:
            p = d + '/repo/' + f; s = open(p).read(); c = s.count(x)
            if c == 0: bad = 'old text not found in ' + f
            files.add(f); open(p, 'w').write(s.replace(x, y, 1))
        if bad: print(n, 'SKIP', bad, flush=True)
        else:
            r = subprocess.run(['python3', '/verif/tools/refone.py'] + (['.rs'] if n.startswith('F') else sorted(files)), env=env, capture_output=True, text=True)
            print('%-20s %s' % (n, r.stdout.strip() if r.returncode == 0 else 'ERROR ' + r.stderr[-1500:]), flush=True)
        subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
    shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    import refactors2, refactors3, refactors4, refactors5, refactors6, refactors7, refactors8, refactors9, refactors10, refactors11; from refactors import R
    ns = [a for a in sys.argv[1:]] or sorted(R)
    W = min(int(os.environ.get("W", 4)), len(ns))
    with mp.Pool(W) as p: p.map(one, [(i, ns[i::W]) for i in range(W)], 1)
