"""Gated value numbering of MIR: abstracts every function to a value graph (terms.py).

No path is executed or enumerated: blocks are visited once in topological order, states are merged at joins with
gates (ite) chosen from a decision diagram, loops are abstracted to closed forms or fixed-point (eta) nodes.
"""
from terms import *
from bdd import BDD
import mir
from mir import CFG, tyname, last
import itertools


class Unsupported(Exception):
    pass


class Diverge(Exception):
    pass


_cell = itertools.count()
BOXF = ('0', 'pointer', 'value')
FLOATS = ('f32', 'f64')


def kind_of(ty):
    while ty['k'] == 'ref': ty = ty['t']
    if ty['k'] == 'prim':
        if ty['p'] in FLOATS: return 'F'
        if ty['p'] == 'bool': return 'B'
        if ty['p'] == 'str': return 'O'
        return 'I'
    if ty['k'] == 'param': return 'F'
    return 'O'


class Frame:
    __slots__ = ('fn', 'id', 'sub', 'body', 'promoted', 'cfg', 'live')

    def __init__(self, fn, sub, body=None):
        self.fn = fn; self.sub = sub; self.id = next(_cell)
        self.body = body or fn.body
        self.promoted = fn.promoted


def has_mutref(ty):
    k = ty['k']
    if k == 'ref': return ty['m'] or has_mutref(ty['t'])
    return any(has_mutref(x) for x in ty.get('a', []) if isinstance(x, dict) and 'k' in x)


def liveness(body):
    if 'live' in body: return body['live']
    bl = body['blocks']
    borrowed = set()
    use = []; de = []
    def places_op(o):
        if o[0] in ('copy', 'move'): yield o[1]
    def rv_places(r):
        k = r[0]
        if k == 'use' or k == 'repeat': yield from places_op(r[1])
        elif k in ('ref',):
            yield r[2]
            if r[1] and not any(e[0] == 'deref' for e in r[2][1:]): borrowed.add(r[2][0])
        elif k == 'rawptr':
            yield r[1]; borrowed.add(r[1][0])
        elif k == 'cast': yield from places_op(r[2])
        elif k == 'bin':
            yield from places_op(r[2]); yield from places_op(r[3])
        elif k == 'un': yield from places_op(r[2])
        elif k == 'discr': yield r[1]
        elif k == 'agg':
            for o in r[2]: yield from places_op(o)
        else:
            for x in r[1:]:
                if isinstance(x, list) and x and x[0] in ('copy', 'move'): yield x[1]
                elif isinstance(x, list) and x and isinstance(x[0], int): yield x
    def idxs(p):
        for e in p[1:]:
            if e[0] == 'index': yield e[1]
    for b in bl:
        u = set(); d = set()
        def U(p):
            if p[0] not in d: u.add(p[0])
            for i in idxs(p):
                if i not in d: u.add(i)
        for s in b['s']:
            if s[0] == '=':
                for p in rv_places(s[2]): U(p)
                if len(s[1]) == 1: d.add(s[1][0])
                else: U(s[1])
            elif s[0] == 'setdiscr': U(s[1])
        t = b['t']
        if t[0] == 'call':
            for p in places_op(t[1]): U(p)
            for o in t[2]:
                for p in places_op(o): U(p)
            if len(t[3]) == 1: d.add(t[3][0])
            else: U(t[3])
        elif t[0] in ('switch', 'assert'):
            for p in places_op(t[1]): U(p)
        elif t[0] == 'return': u.add(0)
        use.append(u); de.append(d)
    live = [set() for _ in bl]
    ch = True
    while ch:
        ch = False
        for i in range(len(bl) - 1, -1, -1):
            o = set()
            for s in mir.succs(bl[i]['t']): o |= live[s]
            n = use[i] | (o - de[i])
            if n != live[i]:
                live[i] = n; ch = True
    body['live'] = (live, borrowed)
    return body['live']


class Eval:
    def __init__(self, prog, opaque=(), crate=None, max_depth=40, budget=400000, summary=None):
        self.prog = prog
        self.summary = summary         # fields that an opaque function reads and writes, per parameter
        self.opaque = set(opaque)      # keys treated as uninterpreted
        self.stack = []; self.recursive = set()          # inlined functions that call themselves
        self.max_depth = max_depth
        self.guards = []               # innermost-loop filter guards
        self.budget = budget; self.steps = 0
        self.notes = set()
        self.calls = []                # (key, caller, line) inlined or opaque
        self.dropped = False           # a condition of that kind was left out
        self.req = []                  # conditions under which the function does not panic (outside loops)
        self.pc = []; self.nest = 0
        self.variant_of = {}
        for p, a in prog.adts.items():
            if a['enum']:
                for v in a['v']:
                    self.variant_of.setdefault(v['n'], []).append((last(p), tuple(f['n'] for f in v['f'])))
        import models
        self.models = models.Models(self)

    # ------------------------------------------------------------ memory
    def get(self, v, path):
        for k, e in enumerate(path):
            if e[0] == 'f': v = self.getfield(v, e[1])
            elif e[0] == 'as': v = as_(e[1], v)
            elif e[0] == 'i': v = idx(v, e[1])
            elif e[0] == 'sl': v = slice_(v, e[1], e[2])
            elif e[0] == 'key': v = call('map_get', v, e[1])
        return v

    def getfield(self, v, n):
        if v.op == 'closure': return v.a[2 + int(n)]
        if v.op == 'ite': return ite(v.a[0], self.getfield(v.a[1], n), self.getfield(v.a[2], n))
        return field(v, n)

    def set(self, v, path, x):
        if not path: return x
        e = path[0]; rest = path[1:]
        if e[0] == 'f':
            if v.op == 'closure':
                i = 2 + int(e[1]); a = list(v.a); a[i] = self.set(a[i], rest, x)
                return raw('closure', *a)
            return with_(v, {e[1]: self.set(field(v, e[1]), rest, x)})
        if e[0] == 'as':
            if rest and rest[0][0] == 'f':
                n = rest[0][1]
                cands = self.variant_of.get(e[1], [])
                adt, names = None, None
                for a, ns in cands:
                    if n in ns: adt, names = a, ns
                if e[1] in ('Some',): adt, names = 'Option', ('0',)
                if e[1] in ('Ok', 'Err'): adt, names = 'Result', ('0',)
                if adt is None: raise Unsupported('enum store ' + e[1])
                inner = as_(e[1], v)
                vals = [self.set(field(inner, m), rest[1:], x) if m == n else field(inner, m) for m in names]
                return agg(adt, e[1], names, vals)
            return self.set(as_(e[1], v), rest, x)
        if e[0] == 'i':
            return upd(v, e[1], self.set(idx(v, e[1]), rest, x))
        if e[0] == 'sl':
            if rest and rest[0][0] == 'i':
                return self.set(v, (('i', add(e[1], rest[0][1])),) + tuple(rest[1:]), x)
            if rest and rest[0][0] == 'sl':
                return self.set(v, (('sl', add(e[1], rest[0][1]), add(e[1], rest[0][2])),) + tuple(rest[1:]), x)
            return raw('splice', v, e[1], e[2], x)
        if e[0] == 'key':
            return call('map_insert', v, e[1], self.set(call('map_get', v, e[1]), rest, x))
        raise Unsupported('store ' + str(e))

    def loadref(self, st, r):
        if r.op == 'ref': return self.get(st[r.a[0]], r.a[1])
        if r.op == 'ite': return ite(r.a[0], self.loadref(st, r.a[1]), self.loadref(st, r.a[2]))
        return r

    def storeref(self, st, r, x, cond=TRUE):
        if r.op == 'ref':
            old = st[r.a[0]]
            nv = self.set(old, r.a[1], x)
            st[r.a[0]] = ite(cond, nv, old)
        elif r.op == 'ite':
            self.storeref(st, r.a[1], x, and_(cond, r.a[0]))
            self.storeref(st, r.a[2], x, and_(cond, not_(r.a[0])))
        else:
            raise Unsupported('store through unknown reference %s' % show(r, 2))

    def refpath(self, r, *elems):
        if r.op == 'ref': return raw('ref', r.a[0], r.a[1] + tuple(elems))
        if r.op == 'ite': return ite(r.a[0], self.refpath(r.a[1], *elems), self.refpath(r.a[2], *elems))
        raise Unsupported('projection of unknown reference')

    # location = ('loc', cell, path) | ('val', term) | ('ite', c, l1, l2)
    def locate(self, fr, st, p):
        cur = ('loc', (fr.id, p[0]), ())
        for e in p[1:]:
            cur = self.project(fr, st, cur, e)
        return cur

    def project(self, fr, st, cur, e):
        if cur[0] == 'ite':
            return ('ite', cur[1], self.project(fr, st, cur[2], e), self.project(fr, st, cur[3], e))
        k = e[0]
        if k == 'deref':
            v = self.readloc(st, cur)
            return self.ref_to_loc(v)
        if k == 'field':
            n = e[1]
            if n in BOXF:
                v = self.readloc(st, cur)
                if v.op == 'ref' and v.a[0][0] == 'heap':
                    return ('val', v)          # Box / Unique / NonNull wrappers around a heap cell
                if cur[0] == 'loc' and cur[1][0] == 'heap' and n == 'value': return cur
            if cur[0] == 'val':
                if cur[1].op in ('boxcell',): return cur
                return ('val', self.getfield(cur[1], n))
            v = st.get(cur[1])
            return ('loc', cur[1], cur[2] + (('f', n),))
        if k == 'as':
            if cur[0] == 'val': return ('val', as_(e[1], cur[1]))
            return ('loc', cur[1], cur[2] + (('as', e[1]),))
        if k == 'index' or k == 'cindex':
            if k == 'index': i = st[(fr.id, e[1])]
            else:
                i = num(e[1])
                if e[2]: i = sub(len_(self.readloc(st, cur)), i)
            if cur[0] == 'val': return ('val', idx(cur[1], i))
            return ('loc', cur[1], cur[2] + (('i', i),))
        if k == 'subslice':
            v = self.readloc(st, cur)
            lo = num(e[1]); hi = sub(len_(v), num(e[2])) if e[3] else num(e[2])
            if cur[0] == 'val': return ('val', slice_(v, lo, hi))
            return ('loc', cur[1], cur[2] + (('sl', lo, hi),))
        raise Unsupported('projection ' + k)

    def ref_to_loc(self, v):
        if v.op == 'ref': return ('loc', v.a[0], v.a[1])
        if v.op == 'ite' and self.contains_ref(v):
            return ('ite', v.a[0], self.ref_to_loc(v.a[1]), self.ref_to_loc(v.a[2]))
        return ('val', v)

    def contains_ref(self, v):
        if v.op == 'ref': return True
        if v.op == 'ite': return self.contains_ref(v.a[1]) or self.contains_ref(v.a[2])
        return False

    def readloc(self, st, l):
        if l[0] == 'val': return l[1]
        if l[0] == 'ite': return ite(l[1], self.readloc(st, l[2]), self.readloc(st, l[3]))
        v = st.get(l[1])
        if v is None: return UNDEF
        return self.get(v, l[2])

    def writeloc(self, st, l, x, cond=TRUE):
        if l[0] == 'loc':
            old = st.get(l[1], UNDEF)
            if not l[2]: nv = x
            elif old is UNDEF:
                nv = self.set(raw('agg', 'partial', '', ()), l[2], x) if l[2][0][0] == 'f' else UNDEF
            else: nv = self.set(old, l[2], x)
            st[l[1]] = nv if cond is TRUE else ite(cond, nv, old)
        elif l[0] == 'ite':
            self.writeloc(st, l[2], x, and_(cond, l[1]))
            self.writeloc(st, l[3], x, and_(cond, not_(l[1])))
        else:
            raise Unsupported('store into value %s' % show(l[1], 3))

    def loc_to_ref(self, l):
        if l[0] == 'loc': return raw('ref', l[1], l[2])
        if l[0] == 'ite': return ite(l[1], self.loc_to_ref(l[2]), self.loc_to_ref(l[3]))
        return l[1]

    # ------------------------------------------------------------ operands / rvalues
    def operand(self, fr, st, o):
        if o[0] in ('copy', 'move'):
            return self.readloc(st, self.locate(fr, st, o[1]))
        if o[0] == 'const': return self.const(fr, st, o[1])
        return TRUE

    def const(self, fr, st, c):
        k = c['c']
        if k == 'val':
            v = c['v']
            if v[0] == 'bool': return boolean(v[1])
            if v[0] == 'int': return num(int(v[2]))
            if v[0] == 'char': return raw('c', 'char', v[1])
            if v[0] == 'str': return string(v[1])
            if v[0] == 'float':
                s = v[2]
                if s == 'NaN': return NAN
                if s == 'inf': return INF
                if s == '-inf': return neg(INF)
                return num(Fraction(s)) if 'e' not in s else num(Fraction(s))
        if k == 'fn':
            return raw('fn', FnRef(c, fr.sub))
        if k == 'zst':
            t = c['ty']
            if t['k'] == 'tuple': return UNIT
            if t['k'] == 'closure': return raw('closure', c.get('p') or t['p'], SubKey(fr.sub))
            if t['k'] == 'adt': return agg(last(t['p']), last(t['p']), (), ())
            return UNIT
        if k == 'uneval':
            u = c['u']
            if 'promoted' in u:
                return self.promoted(fr, st, u)
            n = last(u['p'])
            m = {'ZERO': ZERO, 'ONE': ONE, 'NAN': NAN, 'INFINITY': INF, 'NEG_INFINITY': neg(INF)}
            if n in m: return m[n]
            return raw('konst', n)
        return raw('konst', c.get('s', '?'))

    def promoted(self, fr, st, u):
        fn = self.prog.fns.get(u['p'], fr.fn)
        body = fn.promoted[u['promoted']]
        f2 = Frame(fn, fr.sub, body)
        try:
            r = self.run_body(f2, dict(st), body)
        except Diverge:
            return UNDEF
        if r is None: return UNDEF
        return r[0]

    def rvalue(self, fr, st, r):
        k = r[0]
        if k == 'use': return self.operand(fr, st, r[1])
        if k == 'ref':
            l = self.locate(fr, st, r[2])
            if r[1]:
                return self.loc_to_ref(l)
            return self.readloc(st, l)
        if k == 'rawptr':
            return self.loc_to_ref(self.locate(fr, st, r[1]))
        if k == 'bin': return self.binop(r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), r[4])
        if k == 'un':
            x = self.operand(fr, st, r[2])
            if r[1] == 'Not':
                return not_(x) if self.isbool(x, r) else call('bitnot', x)
            if r[1] == 'Neg': return neg(x)
            if r[1] == 'PtrMetadata': return len_(self.loadref(st, x))
            return call(r[1], x)
        if k == 'cast':
            if r[1] == 'BoxDerefTransmute' and r[2][0] in ('copy', 'move') and len(r[2][1]) > 1 and r[2][1][-1][0] == 'field':
                l = self.locate(fr, st, r[2][1][:-1])
                v = self.readloc(st, l)
                if v.op == 'ref' and v.a[0][0] == 'heap': return v
                return self.loc_to_ref(l)          # the box is its content: a pointer into the owning place
            v = self.operand(fr, st, r[2])
            if 'Unsize' in r[1] and r[3].get('k') == 'adt' and r[3].get('a') and r[3]['a'][0].get('k') == 'dyn' and r[2][0] in ('copy', 'move') and len(r[2][1]) == 1:
                src = fr.body['locals'][r[2][1][0]]['ty']
                if src.get('k') == 'adt' and src['a'] and src['a'][0].get('k') == 'adt': return call('dyn', string(last(src['a'][0]['p'])), v)
            return self.cast(r[1], v, r[3], r, fr)
        if k == 'discr':
            t = self.readloc(st, self.locate(fr, st, r[1]))
            return raw('discr', r[2].get('p', '?'), t)
        if k == 'agg':
            vals = [self.operand(fr, st, o) for o in r[2]]
            g = r[1]
            if g[0] == 'tuple': return tup(*vals) if vals else UNIT
            if g[0] == 'array': return lst(*vals)
            if g[0] == 'adt':
                return agg(last(g[1]), g[2] if g[2] else last(g[1]), tuple(g[3]), vals)
            if g[0] == 'closure': return raw('closure', g[1], SubKey(fr.sub), *vals)
            raise Unsupported('aggregate')
        if k == 'repeat':
            x = self.operand(fr, st, r[1])
            try:
                n = int(str(r[2]).split('_')[0].split(':')[0])
            except ValueError:
                return call('repeat', x, string(str(r[2])))
            if n <= 16: return lst(*[x] * n)
            return build([fresh('b')], num(n), x)
        if k == 'len':
            return len_(self.readloc(st, self.locate(fr, st, r[1])))
        raise Unsupported('rvalue ' + str(r)[:80])

    def isbool(self, x, r):
        return x.op in ('lt', 'le', 'eq', 'is', 'not', 'isnan', 'exists') or x in (TRUE, FALSE) or (len(r) > 3 and r[3].get('p') == 'bool') or len(r) <= 3

    def widen(self, x): return widen(x)

    def cast(self, kind, x, ty, r, fr):
        if kind.startswith('FloatToFloat') and ty.get('p') == 'f32': return narrow(x)
        if kind.startswith('FloatToFloat'): return widen(x)
        if kind.startswith('IntToFloat'): return x
        if kind.startswith('FloatToInt'): return self.trunc(x, ty['p'])
        if kind.startswith('IntToInt'):
            if x in (TRUE, FALSE) or x.op in ('lt', 'le', 'eq', 'is', 'not', 'isnan', 'exists'):
                return ite(x, ONE, ZERO)
            if isnum(x): return x
            w = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32}.get(ty.get('p'), 64)
            if w < 64 and x.op == 'discr': return x
            if w < 64: return call('cast_' + ty['p'], x)
            if x.op == 'call' and x.a[0].startswith('cast_'): return x
            return x
        return x

    def trunc(self, x, ty):
        if x.op == 'call' and x.a[0] in ('floor',): x = x
        return call('trunc', x)

    def binop(self, o, a, b, ty):
        k = kind_of(ty)
        if k == 'I' and ty.get('p', '')[:1] == 'u':
            for x in (a, b):
                if x.op in ('p', 'f', 'idx', 'call', 'out', 's'): mark_nonneg(x)
        if o in ('Add', 'AddUnchecked'): return add(a, b)
        if o in ('Sub', 'SubUnchecked'):
            if k == 'I' and ty.get('p', '')[:1] == 'u': self.require(le('I', b, a))
            return sub(a, b)
        if o in ('Mul', 'MulUnchecked'): return mul(a, b)
        if o in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            if o[0] == 'S' and ty.get('p', '')[:1] == 'u': self.require(le('I', b, a))
            return tup({'A': add, 'S': sub, 'M': mul}[o[0]](a, b), FALSE)
        if o == 'Div': return div(a, b) if k == 'F' else self.idiv(a, b)
        if o == 'Rem': return call('irem' if k == 'I' else 'frem', a, b)
        if o == 'Lt': return self.cmp_(lt, k, a, b)
        if o == 'Le': return self.cmp_(le, k, a, b)
        if o == 'Gt': return self.cmp_(lt, k, b, a)
        if o == 'Ge': return self.cmp_(le, k, b, a)
        if o == 'Eq': return self.eq(k, a, b)
        if o == 'Ne': return not_(self.eq(k, a, b))
        if k == 'B':
            if o == 'BitAnd': return and_(a, b)
            if o == 'BitOr': return or_(a, b)
            if o == 'BitXor': return ite(a, not_(b), b)
        if k == 'I':
            if o in ('BitXor', 'BitOr', 'BitAnd'):
                if b.id < a.id: a, b = b, a
                c, x = (a, b) if isnum(a) else (b, a)
                if o == 'BitAnd' and isnum(c) and c.a[1] > 0 and (int(c.a[1]) + 1) & int(c.a[1]) == 0: return call('irem', x, num(int(c.a[1]) + 1))
                if o == 'BitAnd' and a is b: return a
            if o in ('Shl', 'ShlUnchecked') and isnum(b): return mul(a, num(2 ** int(b.a[1])))
            if o in ('Shr', 'ShrUnchecked') and isnum(b): return self.idiv(a, num(2 ** int(b.a[1])))
        return call(o, a, b)

    def cmp_(self, f, k, a, b):
        if k == 'B': k = 'I'
        return f(k, a, b)

    def idiv(self, a, b):
        if isnum(a) and isnum(b) and b.a[1] != 0: return num(a.a[1] // b.a[1])
        return call('idiv', a, b)

    def eq(self, k, a, b):
        if a.op == 'discr' and b.op == 'discr': return eq('O', a.a[1], b.a[1])
        if a.op == 'discr' and isnum(b): return self.discr_is(a, b.a[1])
        if b.op == 'discr' and isnum(a): return self.discr_is(b, a.a[1])
        return eq(k, a, b)

    def discr_is(self, d, v):
        a = self.prog.adts.get(d.a[0])
        if a:
            for x in a['v']:
                if int(x['d']) == int(v): return is_(x['n'], d.a[1], last(d.a[0]))
        return raw('eq', 'I', d, num(v))

    # ------------------------------------------------------------ function bodies
    def run_body(self, fr, st, body):
        if 'cfg' not in body: body['cfg'] = CFG(body)
        fr.cfg = body['cfg']
        fr.live = liveness(body)
        if not fr.cfg.reducible: raise Unsupported('irreducible')
        if 0 not in fr.cfg.live: raise Diverge()
        bdd = BDD()
        exits = self.region(fr, bdd, set(fr.cfg.rpo), 0, st, None)
        rets = [(c, s) for t, c, s in exits if t == 'ret']
        if not rets: raise Diverge()
        c, s = self.merge(fr, bdd, rets, None)
        ret = s.get((fr.id, 0), UNIT)
        for k in [k for k in s if k[0] == fr.id]: del s[k]
        return ret, s

    def merge(self, fr, bdd, inc, live):
        if len(inc) == 1: return inc[0]
        conds = [c for c, _ in inc]
        sel = bdd.selector(conds)
        total = conds[0]
        for c in conds[1:]: total = bdd.or_(total, c)
        if isinstance(sel, int): return total, inc[sel][1]
        keys = {}
        for _, s in inc:
            for k in s: keys[k] = 1
        out = {}
        for k in keys:
            if live is not None and k[0] == fr.id and k[1] not in live[0] and k[1] not in live[1]:
                continue
            vals = [s.get(k, UNDEF) for _, s in inc]
            v0 = vals[0]
            if all(v is v0 for v in vals): out[k] = v0
            else: out[k] = bdd.select(sel, vals)
        return total, out

    def region(self, fr, bdd, blocks, entry, st, header):
        cfg = fr.cfg; body = fr.body if fr.body.get('cfg') is cfg else fr.body
        incoming = {entry: [(bdd.T, st)]}
        exits = []
        done = set()
        bl = fr.body['blocks']
        live, borrowed = fr.live

        def route(t, c, s):
            if c is bdd.F: return
            if t in blocks and t != header and t not in done:
                incoming.setdefault(t, []).append((c, s))
            elif t in blocks and t == header:
                exits.append((t, c, s))
            elif t in cfg.live:
                exits.append((t, c, s))

        for b in cfg.rpo:
            if b not in blocks or b in done: continue
            inc = incoming.pop(b, None)
            if inc is None: continue
            cond, s = self.merge(fr, bdd, inc, (live[b], borrowed))
            if b in cfg.loops and b != header:
                L = cfg.loops[b]
                done |= L
                for t, ct, s2 in self.mir_loop(fr, b, L, s):
                    route(t, bdd.and_(cond, bdd.of(ct)), s2)
                continue
            done.add(b)
            if cond is bdd.F: continue
            if len(inc) == 1: s = dict(s)
            try:
                self.block(fr, bdd, b, cond, s, route, exits)
            except Diverge:
                continue
        return exits

    def require(self, c):
        if c is TRUE: return
        old, self.dropped = self.dropped, True
        if self.nest or len(self.req) > 150: return
        if c.size > 300 or any(x.op in ('s', 'bv') for x in c.fv): return
        for bdd, cond in reversed(self.pc):
            if len(bdd.vars) > 60: return
            c = ite(bdd.term(cond), c, TRUE)
            if c.size > 600 or any(x.op in ('s', 'bv') for x in c.fv): return
        self.dropped = old
        if c is not TRUE and c not in self.req: self.req.append(c)

    def block(self, fr, bdd, b, cond, s, route, exits):
        self.pc.append((bdd, cond))
        try: self.block_(fr, bdd, b, cond, s, route, exits)
        except Diverge:
            self.require(FALSE)
            raise
        finally: self.pc.pop()

    def block_(self, fr, bdd, b, cond, s, route, exits):
        self.steps += 1
        if self.steps > self.budget: raise Unsupported('budget')
        blk = fr.body['blocks'][b]
        for x in blk['s']:
            if x[0] == '=':
                v = self.rvalue(fr, s, x[2])
                self.writeloc(s, self.locate(fr, s, x[1]), v)
            elif x[0] == 'setdiscr':
                raise Unsupported('setdiscr')
        t = blk['t']; k = t[0]
        if k == 'goto' or k == 'drop': route(t[1], cond, s)
        elif k == 'return': exits.append(('ret', cond, s))
        elif k == 'assert':
            if self.nest: self.dropped = True
            else:
                c = self.operand(fr, s, t[1])
                if self.isbool(c, ()): self.require(c if t[2] else not_(c))
            route(t[3], cond, s)
        elif k == 'switch':
            d = self.operand(fr, s, t[1])
            rest = cond
            edges = []
            for v, tb in t[2]:
                c = self.switch_cond(d, int(v), t[4])
                cb = bdd.of(c)
                edges.append((tb, bdd.and_(rest, cb)))
                rest = bdd.and_(rest, bdd.not_(cb))
            other = t[3]
            # all variants covered -> otherwise is dead; only live targets matter
            edges.append((other, rest))
            merged = {}
            for tb, c in edges:
                if tb not in fr.cfg.live:
                    if self.nest: self.dropped = True
                    elif c is not bdd.F:
                        self.pc.append((bdd, c)); self.require(FALSE); self.pc.pop()
                    continue
                merged[tb] = bdd.or_(merged[tb], c) if tb in merged else c
            for i, (tb, c) in enumerate(merged.items()):
                route(tb, c, dict(s))
        elif k == 'call':
            args = [self.operand(fr, s, o) for o in t[2]]
            f = self.operand(fr, s, t[1])
            if t[4] is None or t[4] not in fr.cfg.live:
                raise Diverge()
            r = self.apply(f, args, s, fr, t[5])
            self.writeloc(s, self.locate(fr, s, t[3]), r)
            route(t[4], cond, s)
        elif k in ('unreachable', 'resume'):
            return
        else:
            raise Unsupported('terminator ' + k)

    def switch_cond(self, d, v, ty):
        if ty.get('p') == 'bool':
            return not_(d) if v == 0 else d
        if d.op == 'discr': return self.discr_is(d, v)
        if d.op == 'ite': return ite(d.a[0], self.switch_cond(d.a[1], v, ty), self.switch_cond(d.a[2], v, ty))
        if ty.get('p') == 'char': return eq('O', d, raw('c', 'char', v))
        if ty.get('p', '').startswith('i') and v >= 1 << 63: v -= 1 << 128 if v >= 1 << 127 else 1 << 64
        return eq('I', d, num(v))

    # ------------------------------------------------------------ calls
    def apply(self, f, args, st, fr=None, line=0):
        if f.op == 'ite':
            s1 = dict(st); s2 = dict(st)
            self.nest += 1
            try:
                try: r1 = self.apply(f.a[1], args, s1, fr, line)
                except Diverge: r1 = None
                try: r2 = self.apply(f.a[2], args, s2, fr, line)
                except Diverge: r2 = None
            finally: self.nest -= 1
            if r1 is None and r2 is None: raise Diverge()
            if r1 is None: st.clear(); st.update(s2); return r2
            if r2 is None: st.clear(); st.update(s1); return r1
            for k in set(s1) | set(s2):
                st[k] = ite(f.a[0], s1.get(k, UNDEF), s2.get(k, UNDEF))
            return ite(f.a[0], r1, r2)
        if f.op == 'fn': return self.call_fnref(f.a[0], args, st, fr, line)
        if f.op == 'closure': return self.call_closure(f, args, st)
        if f.op == 'lamfn': return f.a[0](self, st, *args)
        if f.op == 'ref': return self.apply(self.loadref(st, f), args, st, fr, line)
        return self.opaque_call('apply', [f] + args, st)

    def call_closure(self, c, args, st):
        self.nest += 1
        try: return self.call_closure_(c, args, st)
        finally: self.nest -= 1

    def call_closure_(self, c, args, st):
        cell = None
        if c.op == 'ref':
            cl = self.loadref(st, c)
            ref = c
        else:
            cl = c; ref = None
        if cl.op == 'ite':
            return self.apply(cl, args, st)
        if cl.op == 'fn': return self.call_fnref(cl.a[0], args, st, None, 0)
        if cl.op == 'lamfn': return cl.a[0](self, st, *args)
        if cl.op != 'closure': return self.opaque_call('apply', [cl] + args, st)
        fn = self.prog.fns.get(cl.a[0])
        if fn is None: raise Unsupported('closure body')
        fr = Frame(fn, cl.a[1].sub)
        t1 = fn.body['locals'][1]['ty']
        tmp = None
        if t1['k'] == 'ref' and t1['m']:
            if ref is None:
                tmp = ('clo', next(_cell)); st[tmp] = cl
                ref = raw('ref', tmp, ())
            env = ref
        else: env = cl
        argc = fn.body['argc']
        if argc - 1 != len(args):
            if len(args) == 1 and args[0].op == 'agg' and args[0].a[0] == 'tuple' and len(args[0].a) - 3 == argc - 1:
                args = list(args[0].a[3:])
            elif argc == 1: args = []
            else: raise Unsupported('closure arity')
        r, s2 = self.run_fn(fr, [env] + list(args), st)
        if tmp: s2.pop(tmp, None)
        st.clear(); st.update(s2)
        return r

    def run_fn(self, fr, args, st):
        if len(self.stack) > self.max_depth: raise Unsupported('depth')
        s = dict(st)
        for i, a in enumerate(args): s[(fr.id, i + 1)] = a
        self.stack.append(fr.fn.path)
        try:
            return self.run_body(fr, s, fr.body)
        finally:
            self.stack.pop()

    def call_fnref(self, ref, args, st, fr, line):
        path, sub = self.resolve(ref)
        fn = self.prog.fns.get(path)
        r = self.models.try_model(ref, path, fn, args, st, fr)
        if r is not None: return r
        if fn is not None and fn.kind == 'Closure' and len(args) == 2 and self.loadref(st, args[0]).op == 'closure':
            a = args[1]
            return self.call_closure(args[0], list(a.a[3:]) if a.op == 'agg' and a.a[0] == 'tuple' else [a], st)
        if fn is not None and fn.kind in ('Fn', 'AssocFn'):
            key = fn.key
            self.calls.append((key, fr.fn.key if fr else None, line))
            if key in self.opaque and not has_mutref(fn.body['locals'][0]['ty']):
                return self.opaque_call(key, args, st)
            if path in self.stack:
                if path != self.stack[0]: self.recursive.add(key)
                return self.opaque_call(key, args, st)
            f2 = Frame(fn, sub)
            snap = dict(st)
            try:
                r, s2 = self.run_fn(f2, args, st)
                st.clear(); st.update(s2)
                return r
            except Unsupported as e:
                if 'budget' in str(e) or 'depth' in str(e): raise
                self.notes.add('opaque %s: %s' % (key, e))
                st.clear(); st.update(snap)
                return self.opaque_call(key, args, st)
        key = self.extkey(ref, path)
        self.calls.append((key, fr.fn.key if fr else None, line))
        return self.opaque_call(key, args, st)

    def extkey(self, ref, path):
        n = last(ref.c['p'])
        if path in self.prog.fns: return self.prog.fns[path].key
        if 'trait' in ref.c and ref.c['trait'].split('::')[0] in LOCAL_CRATES:
            return last(ref.c['trait']) + '::' + n
        return n

    def resolve(self, ref):
        c = ref.c
        a = [subst_ty(t, ref.sub) for t in c['a']]
        if 'trait' in c and a:
            st = a[0]
            while st['k'] == 'ref' and c['trait'].split('::')[0] in LOCAL_CRATES: st = st['t']
            p = self.prog.resolve_trait(c['trait'], c['name'], st) if st['k'] != 'param' else None
            if p:
                fn = self.prog.fns.get(p)
                sub = {'Self': st}
                if fn and 'impl_self' in fn.j:
                    bind_ty(fn.j['impl_self'], st, sub)
                return p, sub
            if c.get('res') and c.get('local'):
                return c['res'], dict(ref.sub)
            d = c['p']
            if d in self.prog.fns:       # trait default body, Self unknown
                return d, {'Self': st}
            return c.get('res', c['p']), {}
        p = c.get('res', c['p'])
        fn = self.prog.fns.get(p)
        sub = {}
        if fn:
            ra = [subst_ty(t, ref.sub) for t in c.get('resa', c['a'])]
            for (n, i), t in zip(fn.j['gens'], ra): sub[n] = t
        return p, sub

    def opaque_call(self, key, args, st):
        vals = []; refs = []
        for i, a in enumerate(args):
            v, rs = self.freeze(a, st)
            vals.append(v); refs += [(i, r) for r in rs]
        sm = self.summary(key) if self.summary else None
        if sm:
            vals = [view(v, sm[0][i]) if i in sm[0] else v for i, v in enumerate(vals)]
        t = mk_call(key, (), *vals)
        for n, (i, r) in enumerate(refs):
            o = raw('out', n, t)
            if sm and i in sm[1] and args[i] is r:
                o = with_(self.loadref(st, r), {f: field(o, f) for f in sm[1][i]})
            self.storeref(st, r, o)
        return t

    def freeze(self, a, st, depth=0):
        """value of an argument with mutable references replaced by their content; plus the list of those references"""
        refs = []
        if a.op == 'ref': return self.freeze(self.loadref(st, a), st, depth + 1)[0], [a]
        if a.op in ('closure', 'fn'):
            return self.lam(a, st, refs), refs
        if a.op in ('agg', 'ite', 'list') and depth < 6 and self.hasref(a):
            parts = []
            for x in a.a:
                if isinstance(x, T):
                    v, r = self.freeze(x, st, depth + 1); parts.append(v); refs += r
                else: parts.append(x)
            return mk(a.op, tuple(parts)), refs
        if a.op == 'agg' and a.a[0] == 'Iter':
            return self.models.materialise(a, st), refs
        return a, refs

    def hasref(self, t):
        if t.op in ('ref', 'closure', 'fn'): return True
        return any(self.hasref(x) for x in subterms(t)) if t.size < 300 else False

    def lam(self, c, st, refs):
        if c.op == 'fn':
            fn = self.prog.fns.get(self.resolve(c.a[0])[0])
            if fn is None or fn.kind not in ('Fn', 'AssocFn') or has_mutref(fn.body['locals'][0]['ty']): return c
            if any(has_mutref(fn.body['locals'][i + 1]['ty']) for i in range(fn.body['argc'])): return c
            syms = [fresh('a') for _ in range(fn.body['argc'])]
            self.nest += 1
            try: return binder('lam', syms, self.apply(c, list(syms), dict(st)))
            except (Unsupported, Diverge): return c
            finally: self.nest -= 1
        fn = self.prog.fns.get(c.a[0])
        if fn is None: return c
        n = fn.body['argc'] - 1
        syms = [fresh('a') for _ in range(n)]
        s = dict(st)
        tmps = []
        try:
            before = dict(s)
            r = self.call_closure(c, list(syms), s)
            for k in before:
                if s.get(k) is not before[k]:
                    refs.append(raw('ref', k, ()))
            return binder('lam', syms, r)
        except (Unsupported, Diverge):
            for x in c.a[2:]:
                if x.op == 'ref': refs.append(x)
            return call('closure?', string(c.a[0]))

    # ------------------------------------------------------------ loops
    def mir_loop(self, fr, h, L, st):
        def body(s):
            bdd = BDD()
            ex = self.region(fr, bdd, L, h, s, h)
            groups = {}
            for t, c, s2 in ex:
                groups.setdefault(t, []).append((c, s2))
            out = []
            for t, inc in groups.items():
                lv = (fr.live[0][t], fr.live[1]) if t != 'ret' else None
                c, s2 = self.merge(fr, bdd, inc, lv)
                out.append(('back' if t == h else t, bdd.term(c), s2))
            return out
        liveh = (fr.live[0][h], fr.live[1])
        st = {k: v for k, v in st.items() if k[0] != fr.id or k[1] in liveh[0] or k[1] in liveh[1]}
        return self.loop(body, st)

    def loop(self, body, st):
        import loops
        self.nest += 1
        try: return loops.solve(self, body, st)
        finally: self.nest -= 1

    # ------------------------------------------------------------ entry points
    def function(self, fn, args=None, sub=None):
        """abstract a whole function: returns dict with 'ret' and final values of &mut parameters"""
        sub = dict(sub or {})
        if args is None:
            args, st = self.default_args(fn)
        else:
            args, st = args
        fr = Frame(fn, sub)
        ret, s = self.run_fn(fr, args, st)
        out = {'ret': self.frozen(ret, s)}
        for k, v in s.items():
            if k[0] == 'arg': out[k[1]] = self.frozen(v, s)
        return out

    def frozen(self, v, s):
        try:
            return self.freeze(v, s)[0]
        except Exception:
            return v

    def default_args(self, fn):
        args = []; st = {}
        for i in range(1, fn.body['argc'] + 1):
            l = fn.body['locals'][i]
            p = param('a%d' % i)
            if l['ty']['k'] == 'ref' and l['ty']['m']:
                st[('arg', i)] = p
                args.append(raw('ref', ('arg', i), ()))
            else: args.append(p)
        return args, st


def view(v, fields):
    """the part of a record that a callee looks at"""
    if v.op == 'agg' and v.a[0] == 'View': return v
    fs = tuple(sorted(fields))
    return agg('View', 'View', fs, [field(v, f) for f in fs])


LOCAL_CRATES = {'forust_ml', 'forust', 'spec', 'specpy', 'crate'}


def narrow(x):
    """rounding to single precision is kept visible; it distributes over gates and is idempotent"""
    if isnum(x) or x in (NAN, INF) or x is neg(INF): return x
    if x.op == 'ite': return ite(x.a[0], narrow(x.a[1]), narrow(x.a[2]))
    if x.op == 'call' and x.a[0] == 'f32': return x
    if x.op == 'call' and x.a[0] == 'wide': return x.a[2]
    return call('f32', x)


def widen(x):
    """what was computed in single precision stays so: double precision starts at the conversion"""
    if x.op == 'ite': return ite(x.a[0], widen(x.a[1]), widen(x.a[2]))
    if x.op in ('poly', 'sum', 'eta') and not isnum(x): return call('wide', x)
    return x


class FnRef:
    """hashable wrapper of a function constant together with its generic substitution"""
    _tab = {}

    def __new__(cls, c, sub):
        import json
        k = (c.get('res', c['p']), json.dumps(c['a'], sort_keys=True), json.dumps(sub, sort_keys=True))
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls); o.c = c; o.sub = dict(sub); cls._tab[k] = o
        return o

    def __repr__(self): return 'fn ' + last(self.c['p'])

    def ident(self):
        import json, re
        return re.sub(r'\b(forust_ml|specpy|spec|forust)::', '', self.c.get('res') or self.c['p'] + json.dumps(self.c['a'], sort_keys=True))


class SubKey:
    _tab = {}

    def __new__(cls, sub):
        import json
        k = json.dumps(sub, sort_keys=True)
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls); o.sub = dict(sub); cls._tab[k] = o
        return o

    def __repr__(self): return ''


def subst_ty(t, sub):
    if not isinstance(t, dict): return t
    if t['k'] == 'param': return sub.get(t['p'], t)
    if 'a' in t and t['a']: t = dict(t, a=[subst_ty(x, sub) for x in t['a']])
    if 't' in t: t = dict(t, t=subst_ty(t['t'], sub))
    return t


def bind_ty(pat, t, sub):
    if pat['k'] == 'param': sub[pat['p']] = t
    elif pat['k'] == t['k']:
        for x, y in zip(pat.get('a', []), t.get('a', [])): bind_ty(x, y, sub)
        if 't' in pat and 't' in t: bind_ty(pat['t'], t['t'], sub)
