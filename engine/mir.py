"""Loads the JSON dumps of the type-checked program (MIR) and indexes functions, impls and ADTs."""
import json, re
from terms import VARIANTS


def last(p):
    p = re.sub(r'::<[^<>]*(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>[^<>]*)*>', '', p)
    return p.split('::')[-1]


def tyname(t):
    k = t['k']
    if k in ('adt',): return last(t['p'])
    if k == 'prim': return t['p']
    if k == 'ref': return tyname(t['t'])
    if k == 'param': return t['p']
    return k


class Fn:
    def __init__(self, j, crate):
        self.j = j; self.crate = crate
        self.path = j['path']
        self.body = j['body']
        self.promoted = j['promoted']
        self.kind = j['kind']
        self.name = j.get('name') or last(self.path)
        self.derived = j['derived']
        if 'impl_self' in j:
            self.key = tyname(j['impl_self']) + '::' + self.name
        elif 'in_trait' in j:
            self.key = last(j['in_trait']) + '::' + self.name
        else:
            self.key = self.name
        self.cfgs = {}

    @property
    def where(self):
        s = self.j['span']
        return '%s:%d' % (s[0], s[1])


class Program:
    def __init__(self, *files):
        self.fns = {}; self.impls = []; self.adts = {}; self.bykey = {}
        for f in files:
            d = json.load(open(f)) if isinstance(f, str) else f
            for j in d['fns']:
                fn = Fn(j, d['crate'])
                self.fns[fn.path] = fn
                self.bykey.setdefault(fn.key, []).append(fn)
            self.impls += d['impls']
            for p, a in d['adts'].items():
                if p not in self.adts or a['local']: self.adts[p] = a
        self.enum_variants = {}
        for p, a in self.adts.items():
            if a['enum']:
                self.enum_variants[last(p)] = [v['n'] for v in a['v']]
                if a['local']: VARIANTS.setdefault(last(p), tuple(v['n'] for v in a['v']))

    def fn(self, key, crate=None):
        c = [f for f in self.bykey.get(key, []) if crate is None or f.crate == crate]
        return c[0] if c else None

    def resolve_trait(self, trait, name, selfty):
        """find impl method path for trait::name on selfty (JSON type); falls back to the trait's default body"""
        hit = None
        for im in self.impls:
            if im['trait'] != trait: continue
            s = im['self']
            if s['k'] != selfty['k']: continue
            if s.get('p') != selfty.get('p'): continue
            if s['k'] in ('slice', 'ref', 'tuple'): pass
            hit = im; break
        if hit is None: return None
        if name in hit['items']: return hit['items'][name]
        d = trait + '::' + name
        return d if d in self.fns else None


# ---------------------------------------------------------------- CFG utilities
def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [b for _, b in t[2]] + [t[3]]
    if k == 'drop': return [t[1]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[3]]
    return []


class CFG:
    """control-flow graph restricted to blocks that can reach a return; natural loops"""

    def __init__(self, body):
        bl = body['blocks']
        n = len(bl)
        S = [succs(b['t']) if not b['cleanup'] else [] for b in bl]
        # reachable from entry
        seen = set(); st = [0]; order = []
        def dfs(u):
            stack = [(u, iter(S[u]))]; seen.add(u)
            while stack:
                x, it = stack[-1]
                for v in it:
                    if v not in seen:
                        seen.add(v); stack.append((v, iter(S[v]))); break
                else:
                    order.append(x); stack.pop()
        dfs(0)
        P = {u: [] for u in seen}
        for u in seen:
            for v in S[u]:
                P[v].append(u)
        # can reach return
        rets = [u for u in seen if bl[u]['t'][0] == 'return']
        live = set(rets); w = list(rets)
        while w:
            x = w.pop()
            for p in P[x]:
                if p not in live:
                    live.add(p); w.append(p)
        self.rets = rets
        self.live = live
        self.succ = {u: [v for v in S[u] if v in live] for u in seen if u in live}
        self.pred = {u: [p for p in P[u] if p in live] for u in live}
        # rpo on live graph
        seen2 = set(); post = []
        def dfs2(u):
            stack = [(u, iter(self.succ[u]))]; seen2.add(u)
            while stack:
                x, it = stack[-1]
                for v in it:
                    if v not in seen2:
                        seen2.add(v); stack.append((v, iter(self.succ[v]))); break
                else:
                    post.append(x); stack.pop()
        if 0 in live:
            dfs2(0)
        self.rpo = post[::-1]
        self.rpoi = {b: i for i, b in enumerate(self.rpo)}
        # dominators (iterative)
        idom = {}
        if self.rpo:
            idom[self.rpo[0]] = self.rpo[0]
            ch = True
            while ch:
                ch = False
                for b in self.rpo[1:]:
                    ps = [p for p in self.pred[b] if p in idom]
                    if not ps: continue
                    x = ps[0]
                    for p in ps[1:]:
                        y = p
                        while x != y:
                            while self.rpoi[x] > self.rpoi[y]: x = idom[x]
                            while self.rpoi[y] > self.rpoi[x]: y = idom[y]
                    if idom.get(b) != x:
                        idom[b] = x; ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for u in self.rpo:
            for v in self.succ[u]:
                if self.dominates(v, u):
                    body_ = self.loops.setdefault(v, {v})
                    w = [u]
                    while w:
                        x = w.pop()
                        if x in body_: continue
                        body_.add(x)
                        w += self.pred[x]
        self.reducible = all(self.rpoi[v] > self.rpoi[u] or self.dominates(v, u) for u in self.rpo for v in self.succ[u])

    def dominates(self, a, b):
        while True:
            if a == b: return True
            if self.idom.get(b, b) == b: return False
            b = self.idom[b]


# ---------------------------------------------------------------- pretty printing (debug)
def pl(p):
    s = '_%d' % p[0]
    for e in p[1:]:
        if e[0] == 'deref': s = '(*%s)' % s
        elif e[0] == 'field': s += '.' + e[1]
        elif e[0] == 'as': s = '(%s as %s)' % (s, e[1])
        elif e[0] == 'index': s += '[_%d]' % e[1]
        else: s += str(e)
    return s


def op(o):
    if o[0] in ('copy', 'move'): return o[0] + ' ' + pl(o[1])
    if o[0] == 'const':
        c = o[1]
        if c['c'] == 'val': return str(c['v'])
        if c['c'] == 'fn': return 'fn ' + c.get('res', c['p'])
        return str(c)[:120]
    return str(o)


def dump(fn):
    print(fn.path, fn.key)
    for i, l in enumerate(fn.body['locals']):
        print('  _%d: %s %s' % (i, l['n'] or '', json.dumps(l['ty'])[:150]))
    for i, b in enumerate(fn.body['blocks']):
        if b['cleanup']: continue
        print(' bb%d:' % i)
        for s in b['s']:
            if s[0] == '=':
                r = s[2]
                if r[0] == 'use': rs = op(r[1])
                elif r[0] == 'ref': rs = ('&mut ' if r[1] else '&') + pl(r[2])
                elif r[0] == 'bin': rs = '%s(%s,%s)' % (r[1], op(r[2]), op(r[3]))
                elif r[0] == 'agg': rs = '%s(%s)' % (r[1], ', '.join(map(op, r[2])))
                elif r[0] == 'cast': rs = 'cast %s %s' % (r[1], op(r[2]))
                elif r[0] == 'discr': rs = 'discr ' + pl(r[1])
                elif r[0] == 'rawptr': rs = '&raw ' + pl(r[1])
                else: rs = str(r)
                print('   %s = %s' % (pl(s[1]), rs))
            else: print('   ', s)
        t = b['t']
        if t[0] == 'call': print('   %s = call %s(%s) -> bb%s' % (pl(t[3]), op(t[1]), ', '.join(map(op, t[2])), t[4]))
        elif t[0] == 'switch': print('   switch %s %s else bb%d' % (op(t[1]), t[2], t[3]))
        else: print('   ', t[:4])


if __name__ == '__main__':
    import sys
    P = Program(*sys.argv[2:])
    for f in P.fns.values():
        if f.key == sys.argv[1] or f.path == sys.argv[1]: dump(f)
