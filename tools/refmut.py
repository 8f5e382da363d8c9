#!/usr/bin/env python3
"""refmut.py SEED [names]: apply each refactoring together with one small change of the new text; a result other than NE is listed
(EQ: the change keeps the behaviour or is missed; UNK: undecided; NOBUILD: does not compile)."""
import sys, os, re, subprocess, shutil, random, multiprocessing as mp
sys.path.insert(0, '/verif/tools')
def load():
    import refactors2, refactors3, refactors4, refactors5, refactors6, refactors7, refactors8
    from refactors import R
    return R
M = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ 1\b', ' + 2'), (r' - 1\b', ''), (r' \+= ', ' -= '),
     (r' && ', ' || '), (r' \|\| ', ' && '), (r'\bleft', 'right'), (r'\bright', 'left'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bgrad\b', 'hess'), (r'\bhess\b', 'grad'),
     (r' \* ', ' + '), (r' - ', ' + '), (r' \+ ', ' - '), (r'\bbreak;', 'continue;'), (r'\b0\.\.', '1..'), (r'\blower', 'upper'), (r'\bupper', 'lower'), (r'\.rev\(\)', ''), (r'if !', 'if '),
     (r'\bl1\b', 'l2'), (r'Some\(\(?', None), (r'\b1\.0\b', '0.5'), (r'\b0\.0\b', '1.0'), (r' / ', ' * '), (r'\bmin\b', 'max'), (r'\bchild_idx\b', 'node_idx')]
def variants(x, y):
    out = []
    for p, q in M:
        if q is None: continue
        for m in re.finditer(p, y):
            z = y[:m.start()] + q + y[m.end():]
            out.append((z, '%s->%s @%d: %s' % (m.group(0).strip(), q.strip(), m.start(), y[y.rfind('\n', 0, m.start()) + 1:y.find('\n', m.end()) if '\n' in y[m.end():] else len(y)].strip()[:70])))
    return out
def one(a):
    wid, names, seed = a
    R = load()
    d = '/tmp/ref/q%d_w%d' % (os.getppid(), wid)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo']); subprocess.run(['rm', '-rf', d + '/repo/target', d + '/repo/py-forust/target'])
    subprocess.run(['cp', '-a', '/verif/.build', d + '/build'])
    env = dict(os.environ, FORUST_REPO=d + '/repo', FORUST_BUILD=d + '/build', PYTHONHASHSEED='0')
    for n in names:
        rnd = random.Random(n + str(seed))
        vs = [(i, z, t) for i, (f, x, y) in enumerate(R[n]) for z, t in variants(x, y)]
        if not vs: continue
        rnd.shuffle(vs)
        for i0, z, t in vs[:3]:
            files = set(); bad = False
            for i, (f, x, y) in enumerate(R[n]):
                p = d + '/repo/' + f; s = open(p).read()
                if x not in s: bad = True
                files.add(f); open(p, 'w').write(s.replace(x, z if i == i0 else y, 1))
            if not bad:
                r = subprocess.run(['python3', '/verif/tools/refone.py'] + sorted(files), env=env, capture_output=True, text=True)
                o = r.stdout.strip() if r.returncode == 0 else 'NOBUILD'
            subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
            if bad: break
            if o == 'NOBUILD': continue
            v = 'NE' if re.search(r'(^|\n\s+|^\s*)NE ', '\n' + o) else ('UNK' if 'UNK ' in o else 'EQ')
            print('%-20s %-4s %s%s' % (n, v, t, '' if v != 'UNK' else '   ## ' + re.sub(r'\s+', ' ', o)[:120]), flush=True)
            break
    shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    R = load(); seed = int(sys.argv[1])
    ns = sys.argv[2:] or sorted(R)
    W = min(int(os.environ.get("W", "6")), len(ns))
    with mp.Pool(W) as p: p.map(one, [(i, ns[i::W], seed) for i in range(W)], 1)
