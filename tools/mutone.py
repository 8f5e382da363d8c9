import sys, os, json
sys.path.insert(0, '/verif/engine'); sys.setrecursionlimit(30000)
import resource
import project
from equiv import *
import runner
try: project.dump(only_core=True)
except project.BuildError as x: print(x, file=sys.stderr); raise
R, S, _, _ = project.load()
E = Equiv(R, S); E.seconds = 60
runner.E = E; runner.OPT['fn_seconds'] = 150
f, ln = sys.argv[1], int(sys.argv[2])
c = [(g.j['span'][1], k) for k, g in E.kr.items() if g.j['span'][0].endswith('src/%s.rs' % f) and g.j['span'][1] <= ln]
E.vocab()
if not c: print(json.dumps(['none'])); sys.exit()
k = max(c)[1]
if k not in E.anchors: print(json.dumps(['not anchor', k])); sys.exit()
d = runner.work(k)
print(json.dumps([d['result'], k, (d['why'] or d['unk']) if d['result'] != 'EQ' else None, d['seconds']], default=str))
