#!/usr/bin/env python3
"""Mutation campaign for the comparison engine: random small edits of the Rust sources in scratch copies;
reports per mutant the verdict of the functions it touches (NE: detected, UNK: undecided, EQ: not seen or equivalent)."""
import os, re, sys, random, subprocess, json, time, shutil, multiprocessing as mp
N = int(sys.argv[1]); SEED = int(sys.argv[2]); OUTF = sys.argv[3]; W = int(sys.argv[4]) if len(sys.argv) > 4 else 6
FILES = ['gradientbooster', 'splitter', 'tree', 'utils', 'node', 'histogram', 'binning', 'data', 'metric', 'objective', 'sampler', 'shapley', 'partial_dependence', 'grower']
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'if !', 'if '), (r'\bif (?!let|!)', 'if !'), (r' \+= ', ' -= '), (r' \+= ', ' = '), (r' -= ', ' += '), (r' \*= ', ' = '),
       (r'left', 'right'), (r'right', 'left'), (r'grad', 'hess'), (r'hess', 'grad'), (r'lower', 'upper'), (r'upper', 'lower'), (r'\bl1\b', 'l2'), (r'\bl2\b', 'l1'),
       (r'missing_node\b', 'right_child'), (r'left_child', 'missing_node'), (r'\brows\b', 'cols'), (r'\bcols\b', 'rows'), (r'\b0\.0?\b', '1.0'), (r'\b1\.0?\b', '0.0'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '3'),
       (r'\.abs\(\)', ''), (r'is_none\(\)', 'is_some()'), (r'None', 'Some(Default::default())'), (r'\.rev\(\)', ''), (r'\.skip\(1\)', ''), (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'Positive', 'Negative'), (r'Negative', 'Positive'),
       (r'Some\((\w+)\)', r'Some(\1 + 1)'), (r'\.get_prediction_trees\(\)', '.trees'), (r'push_front', 'push_back'), (r'pop_back', 'pop_front'), (r'weight', 'cover'), (r'gamma', 'l2'), (r'max_depth', 'max_leaves'), (r'\bb\b', 'a'), (r'\bj\b', 'i'), (r'\[(\w+)\]', r'[\1 + 1]'), (r'\.\.=', '..'),
       (r'continue;', 'break;'), (r'break;', 'continue;'), (r'\by\b', 'yhat'), (r'\bw\b', 'y'), (r'sample_weight', 'y'), (r'best_iteration', 'prediction_iteration'), (r'\.take\(\w+\)', ''), (r'LANES', '(LANES - 1)'), (r'f64', 'f32'), (r'DEL', '')]

def mutants(src):
    ms = []
    for f in FILES:
        p = '%s/src/%s.rs' % (src, f); t = open(p).read()
        end = t.find('#[cfg(test)]'); end = len(t) if end < 0 else end
        pos = 0
        for ln, line in enumerate(t[:end].split('\n')):
            s = line.strip()
            code = not (s.startswith('//') or s.startswith('#') or s.startswith('use ') or not s)
            if code:
                for i, (a, b) in enumerate(OPS):
                    if a == 'DEL':
                        if s.endswith(';') and not s.startswith('let') and not s.startswith('pub') and s.count('(') == s.count(')') and s.count('{') == s.count('}'): ms.append((f, ln + 1, pos, pos + len(line), '', 'delete'))
                        continue
                    for m in re.finditer(a, line):
                        ms.append((f, ln + 1, pos + m.start(), pos + m.end(), m.expand(b), a + ' -> ' + b))
            pos += len(line) + 1
    return ms

def worker(a):
    wid, jobs = a
    d = '/tmp/mut/w%d' % wid
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'])
    subprocess.run(['rm', '-rf', d + '/repo/target', d + '/repo/py-forust/target'])
    subprocess.run(['cp', '-a', '/verif/.build', d + '/build'])
    env = dict(os.environ, FORUST_REPO=d + '/repo', FORUST_BUILD=d + '/build', PYTHONHASHSEED='0')
    for m in jobs:
        f, ln, s, e, new, what = m
        p = '%s/repo/src/%s.rs' % (d, f); t = open(p).read()
        open(p, 'w').write(t[:s] + new + t[e:])
        try:
            r = subprocess.run(['python3', '/verif/tools/mutone.py', f, str(ln)], env=env, capture_output=True, text=True, timeout=400)
            res = r.stdout.strip().split('\n')[-1] if r.returncode == 0 else ('BUILD' if 'BuildError' in r.stderr else 'ERR ' + r.stderr[-300:])
        except subprocess.TimeoutExpired: res = 'TIMEOUT'
        open(p, 'w').write(t)
        line = t[:s].rfind('\n') + 1
        src = t[line:t.find('\n', s)].strip()
        mut = (t[:s] + new + t[e:]); mut = mut[line:mut.find('\n', s)].strip()
        with open(OUTF, 'a') as o: o.write(json.dumps(dict(file=f, line=ln, what=what, src=src, mut=mut, res=res, m=m)) + '\n')
    shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    ms = mutants('/repo'); random.seed(SEED); random.shuffle(ms); print(len(ms), 'mutants possible')
    ms = ms[:N]
    if os.path.exists(OUTF): os.remove(OUTF)
    with mp.Pool(W) as p: p.map(worker, [(i, ms[i::W]) for i in range(W)], 1)
