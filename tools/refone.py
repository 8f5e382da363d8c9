import sys, json
sys.path.insert(0, '/verif/engine'); sys.setrecursionlimit(30000)
import project
from equiv import *
import runner
project.dump(only_core=True)
R, S, _, _ = project.load()
E = Equiv(R, S); E.seconds = 60
runner.E = E; runner.OPT['fn_seconds'] = 150
E.vocab(); out = []
for k in sorted(E.anchors):
    if any(E.kr[k].j['span'][0].endswith(f) for f in sys.argv[1:]):
        d = runner.work(k)
        if d['result'] != 'EQ': out.append('%s %s %s' % (d['result'], k, str(d['why'] if d['result'] == 'NE' else d['unk'])[:700]))
print('ok' if not out else '\n    '.join([''] + out))
