"""Comparison of the Python layer with its reference, function by function."""
import os, time
from pyeval import PyEval, Mod, Unsupported, Diverge
from cmp import Comparator, EQ, NE, UNK, ops_of
from terms import *
from equiv import Verdict

# operations of the standard library and numpy that change what they are given (the reference has no use for them)
KNOWN = ('.title', '.lower', '.upper', '.capitalize', '.strip', '.replace', 'np.round', 'np.around', '.round', 'round', 'np.abs', 'abs', 'np.log', 'np.exp',
         'np.floor', 'np.ceil', 'np.nan_to_num', 'np.clip', '.clip', '.fillna', 'np.flip', '.astype', 'np.median', 'np.mean', '.mean', '.dropna', 'np.unique', 'np.sort', 'np.sqrt', 'np.maximum', 'np.minimum', 'np.sign', 'np.rint', 'np.trunc',
         '.sort_values', '.sort_index', 'np.nanmin', 'np.nanmax', 'np.max', 'np.min', '.max', '.min', 'np.nanquantile', 'np.geomspace', 'np.logspace', 'np.square', 'np.tanh', 'np.sum', '.sum', 'np.nanmedian', 'np.cumsum', 'np.float16')
SKIP = {'BoosterType', 'BaseSerializer'}


def load(d, main):
    return [Mod(os.path.join(d, main)), Mod(os.path.join(d, 'serialize.py'))]


def keys(mods):
    """functions a user can reach: public ones and the protocol methods; helpers are put in where they are used"""
    out = {}
    for m in mods:
        for n, f in m.funcs.items():
            if not n.startswith('__'): out['py:' + n] = (None, n)
        for c, k in m.classes.items():
            if c in SKIP: continue
            for n in k.methods: out['py:%s.%s' % (c, n)] = (c, n)
            if k.dataclass: out['py:%s.fields' % c] = (c, None)
    return out


def public(key):
    n = key.split('.')[-1].split(':')[-1]
    return not n.startswith('_') or n.startswith('__') or n in ('_from_xgboost_model', '_from_xgboost_node', '_xgboost_tree_to_nodes')


class PyEquiv:
    def __init__(self, repo, spec):
        self.R = load(repo, '__init__.py'); self.S = load(spec, 'booster.py')
        self.kr, self.ks = keys(self.R), keys(self.S)
        self.anchors = {k for k in set(self.kr) & set(self.ks) if public(k)}
        self._ev = {}; self._vocab = None
        self.seconds = 60

    def eval(self, side, k):
        if (side, k) not in self._ev:
            mods = self.R if side == 'r' else self.S
            c, n = (self.kr if side == 'r' else self.ks)[k]
            e = PyEval(mods)
            try:
                if n is None: o = {'fields': lst(*[string(x) for x in e.find('classes', c).fields])}
                else: o = e.function(c, n)
                self._ev[side, k] = (o, e, None)
            except (Unsupported, Diverge, RecursionError) as x:
                self._ev[side, k] = (None, e, '%s: %s' % (type(x).__name__, x))
        return self._ev[side, k]

    def vocab(self):
        if self._vocab is None:
            v = set()
            for k in sorted(self.ks):
                o, e, x = self.eval('s', k)
                for t in (o or {}).values(): v |= ops_of(t)
            v.add(('agg', 'Outcome', 'Raise'))
            for n in KNOWN: v.add(('call', n))
            self._vocab = v
        return self._vocab

    def verdict(self, k):
        v = self.compare(k)
        return v.r, [('helpers put in', v)]

    def compare(self, k):
        a, ea, xa = self.eval('r', k); b, eb, xb = self.eval('s', k)
        if a is None or b is None: return Verdict(UNK, [('all', UNK, None, xa or xb)])
        outs = []; worst = EQ
        facts = []
        for o in sorted(set(a) | set(b)):
            if o not in a or o not in b:
                outs.append((o, UNK, None, 'no such output')); worst = worst if worst == NE else UNK; continue
            C = Comparator(self.vocab(), seconds=self.seconds)
            x, y = a[o], b[o]
            if o in ('value', 'self') and b.get('raises', FALSE) is not FALSE:
                # nothing is returned where the function raises
                x, y = ite(b['raises'], UNDEF, x), ite(b['raises'], UNDEF, y)
            try: r = C.compare(x, y)
            except RecursionError: r = UNK
            outs.append((o, r, C.why if r == NE else None, C.unk if r == UNK else None))
            if r == NE: worst = NE
            elif r == UNK and worst == EQ: worst = UNK
        return Verdict(worst, outs)

    def where(self, k):
        c, n = self.kr[k]
        for m in self.R:
            if c is None and n in m.funcs: return '%s:%d' % (m.path, m.funcs[n].lineno)
            if c in m.classes:
                x = m.classes[c]
                return '%s:%d' % (m.path, x.methods[n].lineno if n in x.methods else x.node.lineno)
        return '?'
