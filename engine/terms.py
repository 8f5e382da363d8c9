"""Hash-consed value-graph terms with binders, rational arithmetic normal form and smart constructors.

A term is an interned node T(op, args).  Leaves: constants, parameters, fresh symbols ('s') and bound
variables ('bv').  Binder nodes (build/flat/sum/exists/firstor/fill/eta) bind one or more variables; they are
stored in locally-nameless form keyed by binder height, so alpha-equivalent terms are the same node.
"""
from fractions import Fraction
import itertools, sys
sys.setrecursionlimit(20000)

EMPTY = frozenset()


class T:
    __slots__ = ('op', 'a', 'id', 'h', 'fv', 'ites', 'size', '__weakref__')

    def __init__(self, op, a, id, h, fv, size):
        self.op = op; self.a = a; self.id = id; self.h = h; self.fv = fv; self.size = size
        self.ites = None

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_ids = itertools.count()
BINDERS = {'build', 'flat', 'sum', 'exists', 'firstor', 'fill', 'eta', 'lam'}


def raw(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is not None:
        return t
    h = 0; fv = EMPTY; size = 1
    for x in _sub(a):
        if x.h > h: h = x.h
        if x.fv: fv = fv | x.fv if fv else x.fv
        size += x.size
    t = T(op, a, next(_ids), h, fv, min(size, 10**9))
    if op == 's' or op == 'bv':
        t.fv = frozenset((t,))
    _tab[k] = t
    return t


def _sub(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _sub(x)


def subterms(t):
    return _sub(t.a)


# ---------------------------------------------------------------- constants
def num(v):
    return raw('c', 'num', Fraction(v))


TRUE = raw('c', 'bool', True)
FALSE = raw('c', 'bool', False)
UNIT = raw('agg', 'tuple', '', ())
ZERO = num(0)
ONE = num(1)
NAN = raw('c', 'nan', 0)
INF = raw('c', 'inf', 0)
UNDEF = raw('c', 'undef', 0)


def boolean(b):
    return TRUE if b else FALSE


def string(s):
    return raw('c', 'str', s)


def isnum(t):
    return t.op == 'c' and t.a[0] == 'num'


def param(n):
    return raw('p', n)


_sym = itertools.count()


def fresh(hint='s'):
    return raw('s', hint, next(_sym))


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    if t.op == 'c' and t.a[0] == 'num':
        return {(): t.a[1]} if t.a[1] != 0 else {}
    if t.op == 'poly':
        return dict(t.a[0])
    return {((t, 1),): Fraction(1)}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: [(x.id, e) for x, e in mc[0]]))
    return raw('poly', items)


def madd(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
        if r[m] == 0: del r[m]
    return r


def mono_mul(m, n):
    d = {}
    for x, e in itertools.chain(m, n):
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda p: p[0].id))


def mmul(a, b):
    r = {}
    for m, c in a.items():
        for n, k in b.items():
            q = mono_mul(m, n)
            r[q] = r.get(q, 0) + c * k
    return {m: c for m, c in r.items() if c != 0}


def isnan(t):
    return t is NAN


def add(x, y):
    if x is NAN or y is NAN: return NAN
    if x.op == 'ite' and x.size + y.size < 60 and (isnum(y) or y.op == 'ite'):
        pass
    r = madd(to_poly(x), to_poly(y))
    for m in list(r):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'call' and m[0][0].a[0] == 'idiv' and r.get(m) == 1: idiv_absorb(r, m)
    return from_poly(r)


def idiv_absorb(r, m):
    """a + (b - a) / 2 = (a + b) / 2: no negative terms in the numerator where the sum has the positive ones"""
    q = m[0][0]; n, d = q.a[2], q.a[3]
    if not isnum(d) or d.a[1] <= 0: return
    P = to_poly(n); k = d.a[1]; ch = False
    for w, c in list(P.items()):
        have = r.get(w, 0)
        if c < 0 and w != () and have > 0 and have.denominator == 1:
            t = min(have, -((c) // k))
            P = madd(P, {w: t * k}); ch = True
            r[w] = have - t
            if r[w] == 0: del r[w]
    if ch:
        del r[m]
        r2 = madd(r, to_poly(call('idiv', from_poly(P), d)))
        r.clear(); r.update(r2)


def neg(x):
    if x is NAN: return NAN
    return from_poly({m: -c for m, c in to_poly(x).items()})


def sub(x, y):
    return add(x, neg(y))


def mul(x, y):
    if x is NAN or y is NAN: return NAN
    a, b = to_poly(x), to_poly(y)
    if len(a) > 1 and len(b) > 1:
        # cancel p * (p)^-1
        for p, q in ((a, b), (b, a)):
            k, base = monic(p)
            if all(any(x is base and e < 0 for x, e in m) for m in q):
                return from_poly({mono_mul(m, ((base, 1),)): c * k for m, c in q.items()})
    if len(a) * len(b) > 400:
        return from_poly({mono_mul(((x, 1),), ((y, 1),)): Fraction(1)})
    return from_poly(mmul(a, b))


def monic(p):
    items = sorted(p.items(), key=lambda mc: [(x.id, e) for x, e in mc[0]])
    k = items[-1][1]
    return k, from_poly({m: c / k for m, c in p.items()})


def inv(y):
    p = to_poly(y)
    if not p:
        return raw('call', 'inv0', ())
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((x, -e) for x, e in m): 1 / c})
    k, b = monic(p)
    return from_poly({((b, -1),): 1 / k})


def div(x, y):
    if x is NAN or y is NAN: return NAN
    if isnum(y) and y.a[1] == 0:
        if isnum(x): return NAN if x.a[1] == 0 else (INF if x.a[1] > 0 else neg(INF))
        return raw('call', 'div0', (), x)
    p = to_poly(y)
    if len(p) > 1:
        # (k*base + ...)/base cancellation when numerator is a multiple
        kx, bx = monic(to_poly(x)) if to_poly(x) else (0, None)
        ky, by = monic(p)
        if bx is by and bx is not None:
            return num(kx / ky)
    return mul(x, inv(y))


def diff_const(a, b):
    """a-b if it is a numeric constant else None"""
    d = sub(a, b)
    return d.a[1] if isnum(d) else None


# ---------------------------------------------------------------- booleans / comparisons
def not_(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == 'not': return c.a[0]
    if c.op == 'ite': return ite(c.a[0], not_(c.a[1]), not_(c.a[2]))
    return raw('not', c)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


def _liftcmp(f, k, a, b):
    if a.op == 'ite' and (b.op == 'c' or a.size < 40):
        return ite(a.a[0], f(k, a.a[1], b), f(k, a.a[2], b))
    if b.op == 'ite' and (a.op == 'c' or b.size < 40):
        return ite(b.a[0], f(k, a, b.a[1]), f(k, a, b.a[2]))
    return None


def _numcmp(a, b):
    va = numval(a); vb = numval(b)
    if va is None or vb is None: return None
    return (va > vb) - (va < vb)


def numval(a):
    if isnum(a): return a.a[1]
    if a is INF: return float('inf')
    if a.op == 'poly' and len(a.a[0]) == 1 and a.a[0][0] == (((INF, 1),), -1): return float('-inf')
    return None


def lt(k, a, b):
    if a is NAN or b is NAN: return FALSE
    r = _numcmp(a, b)
    if r is not None: return boolean(r < 0)
    if a is b: return FALSE
    r = _liftcmp(lt, k, a, b)
    if r is not None: return r
    if k == 'I':
        return int_pos(to_poly(sub(b, a)))
    if k == 'F':
        a, b = norm_pair(a, b)
    return raw('lt', k, a, b)


NONNEG = set()      # atoms that were operands of unsigned arithmetic


NONNEG_HEAD = set()


def nn_head(x):
    if x.op == 'idx': return ('idx', x.a[0])
    if x.op == 'f' and not x.a[0].isdigit(): return ('f', x.a[0])
    return None


def mark_nonneg(x):
    NONNEG.add(x)
    h = nn_head(x)
    if h: NONNEG_HEAD.add(h)


def nonneg(x):
    return x in NONNEG or (x.op in ('idx', 'f') and nn_head(x) in NONNEG_HEAD) or x.op in ('len', 'firstor') or (x.op == 'call' and x.a[0] in ('idiv', 'irem', 'usub'))


def _leading(p):
    return max((m for m in p if m != ()), key=lambda m: [(x.id, e) for x, e in m])


def int_pos(p):
    """canonical boolean for the integer condition p > 0"""
    if not p: return FALSE
    if set(p) == {()}: return boolean(p[()] > 0)
    c0 = p.get((), 0)
    vs = [(m, c) for m, c in p.items() if m != ()]
    if all(len(m) == 1 and m[0][1] == 1 and nonneg(m[0][0]) for m, c in vs):
        if all(c > 0 for m, c in vs) and c0 > 0: return TRUE
        if all(c < 0 for m, c in vs) and c0 <= 0: return FALSE
    for m, c in vs:
        if len(m) == 1 and m[0][0].op == 'firstor' and m[0][1] == 1 and abs(c) == 1:
            F = m[0][0]; n = F.a[2]
            d = madd(to_poly(n), {((F, 1),): -1})
            if p == d: return firstor_exists(F)
            if p == madd({k: -v for k, v in d.items()}, {(): 1}): return not_(firstor_exists(F))
            # F - n > 0 is false ; n - F + c > 0 (c>0) is true
            rest = madd(p, {k: (-v if c < 0 else v) for k, v in d.items()} if c > 0 else {k: -v for k, v in d.items()})
            if set(rest) <= {()}:
                r0 = rest.get((), 0)
                if c > 0 and r0 <= 0: return FALSE
                if c < 0 and r0 > 0: return TRUE
    xs = {x for m, c in vs if len(m) == 2 for x, e in m if e == 1 and x.op in ('f', 'p') and nonneg(x)}
    for x in sorted(xs, key=lambda t: t.id):
        # k*(1+x) + r > 0
        for K, R, D in quot(from_poly(p), add(x, ONE)):
            neg_ = {m: -c for m, c in R.items()}
            if nonneg_poly(neg_) and nonneg_poly(madd(madd(D, R), {(): -1})): return int_pos(K)
            if nonneg_poly(madd(R, {(): -1})) and nonneg_poly(madd(D, neg_)): return int_pos(madd(K, {(): 1}))
    L = _leading(p)
    if p[L] < 0:
        return not_(raw_int_pos(madd({m: -c for m, c in p.items()}, {(): 1})))
    return raw_int_pos(p)


def raw_int_pos(p):
    pos = from_poly({m: c for m, c in p.items() if c > 0 and m != ()})
    ng = from_poly({m: -c for m, c in p.items() if c < 0 and m != ()})
    c0 = p.get((), 0)
    if c0 >= 0: pos = add(pos, num(c0))
    else: ng = add(ng, num(-c0))
    return raw('lt', 'I', ng, pos)


def int_d(c):
    """poly d with  c <=> d > 0  for an integer comparison (or its negation), else None"""
    if c.op == 'lt' and c.a[0] == 'I': return to_poly(sub(c.a[2], c.a[1]))
    if c.op == 'not' and c.a[0].op == 'lt' and c.a[0].a[0] == 'I':
        d = to_poly(sub(c.a[0].a[2], c.a[0].a[1]))
        return madd({m: -v for m, v in d.items()}, {(): 1})
    return None


def norm_pair(a, b):
    """canonical sides for a real comparison a ? b"""
    if a.op != 'poly' and b.op != 'poly' and not isnum(a) and not isnum(b): return a, b
    p = to_poly(sub(b, a))
    if not p or set(p) == {()}: return a, b
    k = abs(p[_leading(p)])
    pos = from_poly({m: c / k for m, c in p.items() if c > 0})
    ng = from_poly({m: -c / k for m, c in p.items() if c < 0})
    return ng, pos


def le(k, a, b):
    if a is NAN or b is NAN: return FALSE
    r = _numcmp(a, b)
    if r is not None: return boolean(r <= 0)
    if k != 'F' and a is b: return TRUE
    if k == 'I':
        return lt('I', a, add(b, ONE))
    if a is b and k == 'F':
        return not_(isnan_(a))
    r = _liftcmp(le, k, a, b)
    if r is not None: return r
    if k == 'F':
        a, b = norm_pair(a, b)
    return raw('le', k, a, b)


def isnan_(a):
    if a is NAN: return TRUE
    if numval(a) is not None: return FALSE
    if a.op == 'ite': return ite(a.a[0], isnan_(a.a[1]), isnan_(a.a[2]))
    return raw('isnan', a)


def isvar(t):
    return t.op == 'agg' and t.a[1] != '' and t.a[2] == ()


def eq(k, a, b):
    if a is b:
        return not_(isnan_(a)) if k == 'F' else TRUE
    if k == 'F' and (a is NAN or b is NAN): return FALSE
    r = _numcmp(a, b)
    if r is not None: return boolean(r == 0)
    if k == 'I':
        d = diff_const(a, b)
        if d is not None: return FALSE
        if b is ZERO and nonneg(a): return not_(lt('I', ZERO, a))
        if a is ZERO and nonneg(b): return not_(lt('I', ZERO, b))
    if a.op == 'c' and b.op == 'c': return FALSE
    if k == 'B' or a.a[:1] == ('bool',) or b.a[:1] == ('bool',):
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        return ite(a, b, not_(b))
    if b.op == 'agg' and a.op == 'agg':
        if a.a[1] != b.a[1]: return FALSE
        r = TRUE
        for x, y in zip(a.a[3:], b.a[3:]):
            r = and_(r, eq('O', x, y))
        return r
    if isvar(b) and b.a[0] not in ('tuple',): return is_(b.a[1], a, b.a[0])
    if isvar(a) and a.a[0] not in ('tuple',): return is_(a.a[1], b, a.a[0])
    r = _liftcmp(eq, k, a, b)
    if r is not None: return r
    if k == 'I':
        p = to_poly(sub(a, b))
        kk, m = monic(p)
        # canonical: m == 0 split as positive-side == negative-side
        pos = from_poly({x: c for x, c in to_poly(m).items() if c > 0})
        ng = from_poly({x: -c for x, c in to_poly(m).items() if c < 0})
        a, b = pos, ng
    elif b.id < a.id:
        a, b = b, a
    return raw('eq', k, a, b)


VARIANTS = {'Option': ('None', 'Some'), 'Result': ('Ok', 'Err'), 'ControlFlow': ('Continue', 'Break'), 'Ordering': ('Less', 'Equal', 'Greater')}


def is_(v, t, adt=None):
    if t.op == 'agg': return boolean(t.a[1] == v)
    if t.op == 'ite': return ite(t.a[0], is_(v, t.a[1], adt), is_(v, t.a[2], adt))
    if t.op == 'updv': return is_(v, t.a[2], adt)
    # two-variant canonical forms
    if v == 'None' and adt in (None, 'Option'): return not_(is_('Some', t))
    if v == 'Err' and (adt in (None, 'Result')): return not_(is_('Ok', t))
    if v == 'Break' and (adt in (None, 'ControlFlow')): return not_(is_('Continue', t))
    vs = VARIANTS.get(adt)
    if vs and len(vs) == 2 and v == vs[1] and adt not in ('Option',):
        return not_(is_(vs[0], t, adt))
    if adt: ADT_OF[t] = adt
    return raw('is', v, t)


ADT_OF = {}


ATOMS = ('lt', 'le', 'eq', 'is', 'isnan')
_impl = {}


def implied(t, c, pol):
    """truth of atom t known from atom c having value pol (integer order, real order, variants)"""
    if c.op not in ATOMS or t.fv != c.fv and not (t.fv & c.fv) and (t.fv or c.fv): return None
    k = (t, c, pol)
    if k in _impl: return _impl[k]
    r = _implied(t, c, pol)
    _impl[k] = r
    return r


def _implied(t, c, pol):
    if t.op == 'is' and c.op == 'is':
        if t.a[1] is c.a[1] and pol and t.a[0] != c.a[0]: return False
        return None
    if t.op in ('lt', 'eq') and c.op in ('lt', 'eq') and t.a[0] == 'I' and c.a[0] == 'I':
        if c.op == 'eq' and not pol: return None
        p = to_poly(sub(c.a[2], c.a[1])); q = to_poly(sub(t.a[2], t.a[1]))
        def k(x, y):
            d = madd(x, {m: -v for m, v in y.items()})
            return d.get((), 0) if set(d) <= {()} else None
        if c.op == 'lt':
            if not pol: p = madd({m: -v for m, v in p.items()}, {(): 1})      # p > 0
            if t.op == 'lt':
                d = k(q, p)
                if d is not None and d >= 0: return True                      # q = p + d > 0
                d = k({m: -v for m, v in q.items()}, p)
                if d is not None and d >= -1: return False                    # -q = p + d >= 0
            else:
                for s in (1, -1):
                    d = k({m: s * v for m, v in q.items()}, p)
                    if d is not None and d >= 0: return False
            return None
        # c: p == 0
        for s in (1, -1):
            d = k({m: s * v for m, v in q.items()}, p)
            if d is not None:
                d = d * s
                return d > 0 if t.op == 'lt' else d == 0
        return None
    if t.op in ('lt', 'le', 'eq') and c.op in ('lt', 'le', 'eq') and t.a[0] == 'F' and c.a[0] == 'F':
        a, b = c.a[1], c.a[2]
        if t.a[1] is a and t.a[2] is b: fl = False
        elif t.a[1] is b and t.a[2] is a: fl = True
        else: return None
        w = {'lt': 1, 'le': 3, 'eq': 2}
        m = w[c.op] if pol else 15 & ~w[c.op]
        if fl: m = (m & 10) | (4 if m & 1 else 0) | (1 if m & 4 else 0)
        if m & ~w[t.op] == 0: return True
        if m & w[t.op] == 0: return False
    return None


def cond_assume(t, c, pol, depth=2):
    """shallow simplification of t knowing c has value pol"""
    if t is c: return boolean(pol)
    if t.op in ATOMS:
        v = implied(t, c, pol)
        if v is not None: return boolean(v)
    if depth == 0: return t
    if t.op == 'ite':
        if t.a[0] is c:
            return cond_assume(t.a[1] if pol else t.a[2], c, pol, depth - 1)
        a1 = cond_assume(t.a[1], c, pol, depth - 1)
        a2 = cond_assume(t.a[2], c, pol, depth - 1)
        if a1 is not t.a[1] or a2 is not t.a[2]:
            return ite(t.a[0], a1, a2)
    elif t.op == 'not':
        x = cond_assume(t.a[0], c, pol, depth - 1)
        if x is not t.a[0]: return not_(x)
    return t


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.a[0], b, a)
    if c.op == 'ite' and (c.a[1].op == 'c' or c.a[2].op == 'c'):
        # decompose boolean condition: ite(p&&q, a, b) etc.
        p, x, y = c.a
        if (x.op == 'c' and y.op == 'c') is False:
            return ite(p, ite(x, a, b), ite(y, a, b))
    a0, b0 = a, b
    a = cond_assume(a, c, True); b = cond_assume(b, c, False)
    if a is b: return a
    if c.op in ATOMS:
        if b0.op in ATOMS and cond_assume(b0, c, True) is a: return b0
        if a0.op in ATOMS and cond_assume(a0, c, False) is b: return a0
    if a is UNDEF: return b
    if b is UNDEF: return a
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return not_(c)
    if a.op == 'agg' and b.op == 'agg' and a.a[:3] == b.a[:3] and len(a.a) == len(b.a):
        return raw('agg', *a.a[:3], *[ite(c, x, y) for x, y in zip(a.a[3:], b.a[3:])])
    wa = with_parts(a); wb = with_parts(b)
    if wa[0] is wb[0] and (wa[1] or wb[1]):
        base = wa[0]
        names = sorted(set(wa[1]) | set(wb[1]))
        return with_(base, {n: ite(c, wa[1].get(n) or field(base, n), wb[1].get(n) or field(base, n)) for n in names})
    if a.op == 'upd' and b.op == 'upd' and a.a[0] is b.a[0] and a.a[1] is b.a[1]:
        return upd(a.a[0], a.a[1], ite(c, a.a[2], b.a[2]))
    if a.op == 'upd' and a.a[0] is b:
        return upd(b, a.a[1], ite(c, a.a[2], idx(b, a.a[1])))
    if b.op == 'upd' and b.a[0] is a:
        return upd(a, b.a[1], ite(c, idx(a, b.a[1]), b.a[2]))
    if a.op == 'cat' or b.op == 'cat':
        ba, xa = cat_parts(a); bb, xb = cat_parts(b)
        if ba is bb and ba is not None:
            return cat(ba, ite(c, xa, xb))
    return raw('ite', c, a, b)


# ---------------------------------------------------------------- aggregates
def agg(adt, variant, names, vals):
    return raw('agg', adt, variant, tuple(names), *vals)


def tup(*vals):
    return agg('tuple', '', tuple(str(i) for i in range(len(vals))), vals)


def some(x):
    return agg('Option', 'Some', ('0',), (x,))


NONE = agg('Option', 'None', (), ())


def ok(x): return agg('Result', 'Ok', ('0',), (x,))
def err(x): return agg('Result', 'Err', ('0',), (x,))


def as_(v, t):
    if t.op == 'agg': return t
    if t.op == 'ite':
        a, b = t.a[1], t.a[2]
        if a.op == 'agg' and a.a[1] != v: return as_(v, b)
        if b.op == 'agg' and b.a[1] != v: return as_(v, a)
        ca = is_(v, a); cb = is_(v, b)
        if ca is FALSE: return as_(v, b)
        if cb is FALSE: return as_(v, a)
        return ite(t.a[0], as_(v, a), as_(v, b))
    return raw('as', v, t)


def with_parts(t):
    if t.op == 'with': return t.a[0], dict(t.a[1])
    return t, {}


def with_(base, upds):
    if base.op == 'agg':
        names = base.a[2]; vals = list(base.a[3:])
        for n, v in upds.items():
            if n in names:
                vals[names.index(n)] = v
            else:
                return raw('with', base, tuple(sorted(upds.items())))
        return agg(base.a[0], base.a[1], names, vals)
    b, m = with_parts(base)
    m.update(upds)
    m = {n: v for n, v in m.items() if v is not field(b, n)}
    if not m: return b
    return raw('with', b, tuple(sorted(m.items(), key=lambda x: x[0])))


def field(t, n):
    if t.op == 'agg':
        if n in t.a[2]: return t.a[3 + t.a[2].index(n)]
        return UNDEF if t.a[2] else raw('f', n, t)
    if t.op == 'with':
        m = dict(t.a[1])
        if n in m: return m[n]
        return field(t.a[0], n)
    if t.op == 'ite' :
        return ite(t.a[0], field(t.a[1], n), field(t.a[2], n))
    if t.op == 'updv' : pass
    return raw('f', n, t)


# ---------------------------------------------------------------- sequences (vec / slice values)
def lst(*xs):
    return raw('list', *xs)


def cat_parts(t):
    if t.op == 'cat': return t.a[0], t.a[1]
    return t, lst()


def cat(v, w):
    if w.op == 'list' and not w.a: return v
    if v.op == 'list' and not v.a: return w
    if v.op == 'list' and w.op == 'list': return lst(*v.a, *w.a)
    if v.op == 'cat': return cat(v.a[0], cat(v.a[1], w))
    if v.op == 'ite' and v.a[1].op == 'list' and v.a[2].op == 'list':
        return ite(v.a[0], cat(v.a[1], w), cat(v.a[2], w))
    return raw('cat', v, w)


def push(v, x):
    return cat(v, lst(x))


def len_(v):
    o = v.op
    if o == 'list': return num(len(v.a))
    if o == 'build': return v.a[2]
    if o == 'flat':
        syms, (n, body) = open_binder(v)
        return sum_(syms, n, len_(body))
    if o == 'upd': return len_(v.a[0])
    if o == 'fill': return len_(v.a[2])
    if o == 'cat': return add(len_(v.a[0]), len_(v.a[1]))
    if o == 'slice': return sub(v.a[2], v.a[1])
    if o == 'ite': return ite(v.a[0], len_(v.a[1]), len_(v.a[2]))
    if o == 'c' and v.a[0] == 'str': return num(len(v.a[1].encode()))
    if o == 'agg' and v.a[0] == 'array': return num(len(v.a) - 3)
    if o == 'eta':
        r = _etalen.get(v, 0)
        if r == 0:
            syms, (E, I, N) = open_binder(v)
            r = len_(I[0]) if N[0].op in ('upd', 'ite', 'splice', 'fill', 'build') and len_(N[0]) is raw('len', syms[0]) else None
            d = int_d(E)
            if r is None and N[0].op in ('cat', 'ite') and d is not None:
                # grows by the same number of elements in each of the n iterations
                e = sub(len_(N[0]), raw('len', syms[0]))
                for j, it in enumerate(syms):
                    if d.get(((it, 1),)) == 1 and I[j] is ZERO and N[j] is add(it, ONE):
                        n = from_poly(madd({m: -v for m, v in d.items()}, {((it, 1),): 1, (): 1}))
                        if not (e.fv | n.fv) & set(syms) and int_pos(madd(to_poly(n), {(): 1})) is TRUE: r = add(len_(I[0]), mul(n, e))
            _etalen[v] = r
        if r is not None: return r
    if o == 'f' or o == 'as':
        # a part of what a loop leaves behind, of a length that every iteration keeps
        p = []; e = v
        while e.op in ('f', 'as'): p.append(e); e = e.a[1]
        if e.op == 'eta':
            r = _etalen.get(v, 0)
            if r == 0:
                syms, (E, I, N) = open_binder(e)
                def part(t):
                    for x in reversed(p): t = field(t, x.a[0]) if x.op == 'f' else as_(x.a[0], t)
                    return t
                r = _etalen[v] = len_(part(I[0])) if len_(part(N[0])) is raw('len', part(syms[0])) else None
            if r is not None: return r
    if o == 'call' and LENHOOK[0] is not None:
        r = LENHOOK[0](v)
        if r is not None: return r
    return raw('len', v)


LENHOOK = [None]        # lengths of what functions return, in terms of their arguments


_etalen = {}


def binder_apply(b, x):
    """instantiate a one-variable binder body (last arg) with x"""
    h = b.a[0]
    return replace(b.a[-1], {raw('bv', h, 0): x})


def idx(v, i):
    o = v.op
    if o == 'list' and isnum(i):
        k = int(i.a[1])
        if 0 <= k < len(v.a): return v.a[k]
    elif o == 'list' and len(v.a) == 1: return v.a[0]      # any other index panics
    if o == 'list' and not v.a: return UNDEF
    if o == 'build': return binder_apply(v, i)
    if o == 'upd':
        d = diff_const(v.a[1], i)
        if d is not None:
            return v.a[2] if d == 0 else idx(v.a[0], i)
        return ite(eq('I', v.a[1], i), v.a[2], idx(v.a[0], i))
    if o == 'slice': return idx(v.a[0], add(v.a[1], i))
    if o == 'cat':
        n = len_(v.a[0])
        d = diff_const(i, n)
        if d is not None and d >= 0: return idx(v.a[1], num(d))
        if isnum(n) and isnum(i) and i.a[1] < n.a[1]: return idx(v.a[0], i)
        return ite(lt('I', i, n), idx(v.a[0], i), idx(v.a[1], sub(i, n)))
    if o == 'ite': return ite(v.a[0], idx(v.a[1], i), idx(v.a[2], i))
    if i.op == 'ite' and i.size < 30: return ite(i.a[0], idx(v, i.a[1]), idx(v, i.a[2]))
    if o == 'fill':
        # fill(h, init, lo, n, body): elements lo..lo+n replaced by body(k)
        h, init, lo, n, body = v.a[1:] if False else (v.a[0], v.a[2], v.a[3], v.a[4], v.a[5])
        k = sub(i, lo)
        if diff_const(k, n) == 0: return idx(init, i)
        inside = and_(le('I', lo, i), lt('I', k, n))
        return ite(inside, binder_apply(v, k), idx(init, i))
    return raw('idx', v, i)


def upd(v, i, x):
    if v.op == 'list' and isnum(i) and 0 <= int(i.a[1]) < len(v.a):
        xs = list(v.a); xs[int(i.a[1])] = x
        return lst(*xs)
    if v.op == 'upd':
        d = diff_const(v.a[1], i)
        if d == 0: return upd(v.a[0], i, x)
        if d is not None and v.a[1].id > i.id:   # distinct indices: canonical order
            return upd(upd(v.a[0], i, x), v.a[1], v.a[2])
    if x.op == 'idx' and x.a[0] is v and x.a[1] is i: return v
    return raw('upd', v, i, x)


def slice_(v, lo, hi):
    if lo is ZERO and hi is len_(v): return v
    if v.op == 'slice': return slice_(v.a[0], add(v.a[1], lo), add(v.a[1], hi))
    if v.op == 'ite': return ite(v.a[0], slice_(v.a[1], lo, hi), slice_(v.a[2], lo, hi))
    return raw('slice', v, lo, hi)


# ---------------------------------------------------------------- calls and binders
def call(key, *args):
    if key in ('map_get', 'map_has', 'map_insert'): return map_op(key, args)
    if key == 'ceildiv': return ceildiv(*args)
    if key == 'nchunks': return nchunks(*args)
    if key == 'to_string' and args[0].op == 'call' and args[0].a[0] in ('format', 'to_string', 'strcat'): return args[0]
    if key == 'map_extend':
        m, x = args
        if x.op == 'list' and not x.a: return m
        if m.op == 'ite': return ite(m.a[0], call(key, m.a[1], x), call(key, m.a[2], x))
        if m.op == 'call' and m.a[0] == 'map_new': return call('collect_HashMap', x)
        return raw('call', key, (), m, x)
    if key == 'collect_HashSet': key = 'collect_HashMap'
    if key in ('map_iter', 'collect_HashMap'):
        m = args[0]
        if m.op == 'ite': return ite(m.a[0], call(key, m.a[1]), call(key, m.a[2]))
        if key == 'map_iter' and m.op == 'call' and m.a[0] == 'map_new': return lst()
        if key != 'map_iter' and m.op == 'list' and not m.a: return raw('call', 'map_new', ())
    if args and IDEMHOOK[0] is not None and args[0].op == 'agg' and args[0].a[0] == 'View':
        c = again(key, args)
        if c is not None: return c
    return raw('call', key, (), *args)


IDEMHOOK = [None]       # which functions change nothing when called a second time


def again(key, args):
    """the same call once more on the state that it left behind"""
    c = None
    fs, vs = args[0].a[2], args[0].a[3:]
    for n, v in zip(fs, vs):
        if v.op != 'f' or v.a[0] != n or v.a[1].op != 'out' or v.a[1].a[0] != 0: return None
        d = v.a[1].a[1]
        if c is not None and d is not c: return None
        c = d
    if c is None or c.op != 'call' or c.a[0] != key or c.a[3:] != args[1:] or not IDEMHOOK[0](key): return None
    return c


def nonneg_poly(p):
    """p >= 0: every coefficient positive, every factor of every monomial non-negative"""
    return all(c >= 0 and all(e > 0 and nonneg(x) for x, e in m) for m, c in p.items())


def quot(n, d):
    """(k, r) with n = k*d + r where d = 1 + x divides the monomials of n that contain x"""
    P, D = to_poly(n), to_poly(d)
    ms = [m for m in D if len(m) == 1 and m[0][1] == 1 and D[m] == 1]
    for m in ms:
        x = m[0][0]
        if any(x in dict(q) for q in D if q != m): continue
        K = {}
        for q, c in P.items():
            e = dict(q)
            if e.get(x, 0) == 1 and len(q) > 1: K[tuple(y for y in q if y[0] is not x)] = c
        if not K: continue
        R = madd(P, {q: -c for q, c in mmul(K, D).items()})
        if any(x in dict(q) and len(q) > 1 for q in R): continue
        yield K, R, D


def ceildiv(n, d):
    if d is ONE: return n
    if isnum(n) and isnum(d) and d.a[1] > 0: return num(-((-n.a[1]) // d.a[1]))
    if not isnum(d):
        for K, R, D in quot(n, d):
            neg_ = {m: -c for m, c in R.items()}
            if nonneg_poly(neg_) and nonneg_poly(madd(madd(D, R), {(): -1})): return from_poly(K)      # -d < r <= 0
            if nonneg_poly(madd(R, {(): -1})) and nonneg_poly(madd(D, neg_)): return from_poly(madd(K, {(): 1}))
    return raw('call', 'ceildiv', (), n, d)


def nchunks(n, d):
    r = ceildiv(n, d)
    return raw('call', 'nchunks', (), n, d) if r.op == 'call' and r.a[0] == 'ceildiv' else r


def map_op(key, args):
    m, k = args[0], args[1]
    if m.op == 'ite':
        return ite(m.a[0], map_op(key, (m.a[1],) + tuple(args[1:])), map_op(key, (m.a[2],) + tuple(args[1:])))
    if m.op == 'call' and m.a[0] == 'map_insert':
        o = m.a[3]
        if o is k:
            if key == 'map_get': return m.a[4]
            if key == 'map_has': return TRUE
            return map_op('map_insert', (m.a[2], k, args[2]))
        if key != 'map_insert' and o.op == 'c' and k.op == 'c': return map_op(key, (m.a[2], k))
    if key == 'map_has' and m.op == 'call' and m.a[0] == 'map_new': return FALSE
    return raw('call', key, (), *args)


def binder(op, syms, *children):
    """close over syms"""
    h = 1
    for c in children:
        for x in ([c] if isinstance(c, T) else _sub(c)):
            h = max(h, x.h + 1)
    m = {s: raw('bv', h, k) for k, s in enumerate(syms)}
    ch = [replace(c, m) if isinstance(c, T) else tuple_replace(c, m) for c in children]
    t = raw(op, h, len(syms), *ch)
    t.h = h
    bvs = frozenset(m.values())
    if t.fv & bvs: t.fv = t.fv - bvs
    return t


def tuple_replace(c, m):
    return tuple(replace(x, m) if isinstance(x, T) else (tuple_replace(x, m) if isinstance(x, tuple) else x) for x in c)


def open_binder(t, syms=None):
    h, n = t.a[0], t.a[1]
    syms = syms or [fresh('b') for _ in range(n)]
    m = {raw('bv', h, k): s for k, s in enumerate(syms)}
    ch = [replace(c, m) if isinstance(c, T) else tuple_replace(c, m) for c in t.a[2:]]
    return syms, ch


def rebinder(op, syms, ch):
    f = BINDER_MK.get(op)
    if f: return f(syms, *ch)
    return binder(op, syms, *ch)


def replace(t, m, memo=None):
    if not t.fv: return t
    if memo is None: memo = {}
    return _replace(t, m, frozenset(m), memo)


def _replace(t, m, keys, memo):
    if t.fv.isdisjoint(keys): return t
    r = memo.get(t)
    if r is not None: return r
    if t in m:
        r = m[t]
    elif t.op in BINDERS:
        syms, ch = open_binder(t)
        ch = [_replace(c, m, keys, memo) if isinstance(c, T) else _treplace(c, m, keys, memo) for c in ch]
        r = rebinder(t.op, syms, ch)
    else:
        a = tuple(_replace(c, m, keys, memo) if isinstance(c, T) else (_treplace(c, m, keys, memo) if isinstance(c, tuple) else c) for c in t.a)
        r = mk(t.op, a)
    memo[t] = r
    return r


def _treplace(c, m, keys, memo):
    return tuple(_replace(x, m, keys, memo) if isinstance(x, T) else (_treplace(x, m, keys, memo) if isinstance(x, tuple) else x) for x in c)


def replace_terms(t, m, memo=None):
    """replace arbitrary subterms (keys are closed or open terms, not leaves only)"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    if t in m:
        r = m[t]
    elif t.op in BINDERS:
        ch = [replace_terms(c, m, memo) if isinstance(c, T) else _trt(c, m, memo) for c in t.a[2:]]
        if all(x is y or x == y for x, y in zip(ch, t.a[2:])):
            r = t
        else:
            syms, och = open_binder(t)
            och = [replace_terms(c, m) if isinstance(c, T) else _trt(c, m, {}) for c in och]
            r = rebinder(t.op, syms, och)
    else:
        a = tuple(replace_terms(c, m, memo) if isinstance(c, T) else (_trt(c, m, memo) if isinstance(c, tuple) else c) for c in t.a)
        r = t if a == t.a else mk(t.op, a)
    memo[t] = r
    return r


def _trt(c, m, memo):
    return tuple(replace_terms(x, m, memo) if isinstance(x, T) else (_trt(x, m, memo) if isinstance(x, tuple) else x) for x in c)


def mk_poly(items):
    r = {}
    for m, c in items:
        f = {(): Fraction(c)}
        out = num(c)
        for x, e in m:
            if e > 0:
                for _ in range(e): out = mul(out, x)
            else:
                for _ in range(-e): out = div(out, x)
        r = madd(r, to_poly(out)) if out is not NAN else r
        if out is NAN: return NAN
    return from_poly(r)


def sum_(syms, n, body):
    """sum over i in 0..n of body(i)"""
    i = syms[0]
    if i not in body.fv: return mul(n, body)
    if isnum(n) and n.a[1] <= 4:
        r = ZERO
        for k in range(int(n.a[1])): r = add(r, replace(body, {i: num(k)}))
        return r
    # linearity: pull out invariant factors and split sums of monomials
    p = to_poly(body)
    if len(p) == 1:
        (m, c), = p.items()
        out = tuple((x, e) for x, e in m if i not in x.fv)
        inn = tuple((x, e) for x, e in m if i in x.fv)
        if out or c != 1:
            return mul(from_poly({out: c}), sum_(syms, n, from_poly({inn: Fraction(1)})))
    elif len(p) <= 12:
        r = ZERO
        for m, c in p.items():
            j = fresh('b')
            r = add(r, sum_([j], n, replace(from_poly({m: c}), {i: j})))
        return r
    q = int_d(body.a[0]) if body.op == 'ite' else None
    if q is not None and q.get(((i, 1),)) in (1, -1):
        # the elements of a concatenation
        up = q[((i, 1),)] < 0
        k = from_poly(madd(q, {((i, 1),): 1})) if up else from_poly(madd(madd({m: -v for m, v in q.items()}, {((i, 1),): 1}), {(): 1}))
        lo, hi = (body.a[1], body.a[2]) if up else (body.a[2], body.a[1])
        d = sub(n, k)
        if i not in k.fv and isnum(d) and 0 <= d.a[1] <= 4:
            r = sum_([i], k, lo)
            for e in range(int(d.a[1])): r = add(r, replace(hi, {i: add(k, num(e))}))
            return r
    if body.op == 'ite' and i not in body.a[0].fv:
        j = fresh('b')
        return ite(body.a[0], sum_([i], n, body.a[1]), sum_([j], n, replace(body.a[2], {i: j})))
    return binder('sum', syms, n, body)


def build(syms, n, body):
    i = syms[0]
    # eta: build(len v, v[i]) = v
    if body.op == 'idx' and body.a[1] is i and i not in body.a[0].fv and len_(body.a[0]) is n:
        return body.a[0]
    if body.op == 'idx' and i not in body.a[0].fv and diff_const(body.a[1], i) is not None and diff_const(body.a[1], i) != 0:
        pass
    if body.op == 'idx' and i not in body.a[0].fv:
        lo = sub(body.a[1], i)
        if i not in lo.fv:
            return slice_(body.a[0], lo, add(lo, n))
    if isnum(n) and n.a[1] <= 8:
        return lst(*[replace(body, {i: num(k)}) for k in range(int(n.a[1]))])
    return binder('build', syms, n, body)


def flat(syms, n, body):
    if body.op == 'list' and len(body.a) == 1: return build(syms, n, body.a[0])
    if isnum(n) and n.a[1] == 0: return lst()
    if body.op == 'list' and len(body.a) == 0: return lst()
    i = syms[0]
    return binder('flat', syms, n, body)


def exists(syms, n, body):
    i = syms[0]
    if body is FALSE: return FALSE
    if isnum(n) and n.a[1] <= 4:
        r = FALSE
        for k in range(int(n.a[1])): r = or_(r, replace(body, {i: num(k)}))
        return r
    if i not in body.fv:
        return and_(lt('I', ZERO, n), body)
    for F, at in over_flat(i, n, body):
        # some element that passes the filter
        x = fresh('e')
        b = replace_terms(body, {at: x})
        if i in b.fv: continue
        def some(t):
            if t.op == 'list':
                r = FALSE
                for e in t.a: r = or_(r, replace(b, {x: e}))
                return r
            if t.op == 'ite':
                l, r = some(t.a[1]), some(t.a[2])
                return None if l is None or r is None else ite(t.a[0], l, r)
            return None
        syms2, (m, fb) = open_binder(F)
        r = some(fb)
        if r is not None: return exists(syms2, m, r)
    return binder('exists', syms, n, body)


def over_flat(i, n, body):
    """the filtered sequences that the index i runs over"""
    if n.op != 'sum': return []
    out = []; seen = set(); st = [body]
    while st:
        x = st.pop()
        if x in seen or i not in x.fv: continue
        seen.add(x)
        if x.op == 'idx' and x.a[0].op == 'flat' and x.a[1] is i and i not in x.a[0].fv and len_(x.a[0]) is n: out.append((x.a[0], x))
        st.extend(subterms(x))
    return out


def firstor(syms, n, body):
    if body is FALSE: return n
    if len(syms) == 1 and body.op == 'not' and body.a[0].op == 'lt' and body.a[0].a[0] == 'I':
        # first index not below a fixed bound
        l, r = body.a[0].a[1], body.a[0].a[2]
        if l is syms[0] and syms[0] not in r.fv and r.op == 'len':
            if n.op == 'call' and n.a[0] == 'unbounded': return r
            if n is r: return r
    return binder('firstor', syms, n, body)


def firstor_exists(t):
    syms, (n, body) = open_binder(t)
    return exists(syms, n, body)


def fill(syms, init, lo, n, body):
    if lo is ZERO and n is len_(init): return build(syms, n, body)
    if n is ZERO: return init
    return binder('fill', syms, init, lo, n, body)


BINDER_MK = {'sum': sum_, 'build': build, 'flat': flat, 'exists': exists, 'firstor': firstor, 'fill': fill}


def mk(op, a):
    if op == 'poly': return mk_poly(a[0])
    f = MK.get(op)
    if f: return f(*a)
    return raw(op, *a)


CALL_SIMP = {'minlen': lambda a, b: a if a is b else raw('call', 'minlen', (), *sorted((a, b), key=lambda x: x.id))}


def mk_call(key, ty, *args):
    if key in ('map_iter', 'collect_HashMap', 'collect_HashSet', 'map_extend', 'ceildiv', 'nchunks', 'to_string'): return call(key, *args)
    if key in ('map_get', 'map_has', 'map_insert'): return map_op(key, args)
    f = CALL_SIMP.get(key)
    if f:
        r = f(*args)
        if r is not None: return r
    if args and IDEMHOOK[0] is not None and args[0].op == 'agg' and args[0].a[0] == 'View':
        c = again(key, args)
        if c is not None: return c
    return raw('call', key, ty, *args)


MK = {'ite': ite, 'not': not_, 'lt': lt, 'le': le, 'eq': eq, 'is': is_, 'as': as_, 'isnan': isnan_,
      'f': lambda n, t: field(t, n), 'with': lambda b, u: with_(b, dict(u)), 'idx': idx, 'upd': upd, 'len': len_,
      'cat': cat, 'slice': slice_, 'call': mk_call}


# ---------------------------------------------------------------- printing
def show(t, d=6):
    if not isinstance(t, T):
        if isinstance(t, tuple): return '(' + ','.join(show(x, d) for x in t) + ')'
        return str(t)
    if d < 0: return '…'
    o = t.op; a = t.a
    s = lambda x: show(x, d - 1)
    if o == 'c':
        if a[0] == 'num': return str(a[1]) if a[1].denominator == 1 else ('%g' % float(a[1]))
        if a[0] == 'str': return repr(a[1])
        if a[0] == 'bool': return str(a[1]).lower()
        return a[0]
    if o == 'p': return str(a[0])
    if o == 's': return '%s%s' % a
    if o == 'bv': return 'i%d.%d' % a
    if o == 'f': return s(a[1]) + '.' + a[0]
    if o == 'as': return s(a[1])
    if o == 'is': return '(%s is %s)' % (s(a[1]), a[0])
    if o == 'ite': return 'if(%s, %s, %s)' % tuple(map(s, a))
    if o == 'not': return '!' + s(a[0])
    if o in ('lt', 'le', 'eq'):
        return '(%s %s %s)' % (s(a[1]), {'lt': '<', 'le': '<=', 'eq': '=='}[o], s(a[2]))
    if o == 'agg':
        if a[0] == 'tuple': return '(' + ', '.join(map(s, a[3:])) + ')'
        return '%s%s{%s}' % (a[0], '::' + a[1] if a[1] and a[1] != a[0] else '', ', '.join('%s:%s' % (n, s(v)) for n, v in zip(a[2], a[3:])))
    if o == 'with': return '%s{%s}' % (s(a[0]), ', '.join('%s:=%s' % (n, s(v)) for n, v in a[1]))
    if o == 'poly':
        out = []
        for m, c in a[0]:
            f = [('%s^%d' % (s(x), e)) if e != 1 else s(x) for x, e in m]
            if c != 1 or not f: f.insert(0, str(c) if c.denominator == 1 else '%g' % float(c))
            out.append('*'.join(f))
        return '(' + ' + '.join(out) + ')'
    if o == 'call': return '%s(%s)' % (a[0], ', '.join(map(s, a[2:])))
    if o == 'out': return '%s#%s' % (s(a[1]), a[0])
    if o == 'idx': return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'len': return 'len(%s)' % s(a[0])
    if o == 'upd': return '%s[%s:=%s]' % tuple(map(s, a))
    if o == 'list': return '[' + ', '.join(map(s, a)) + ']'
    if o == 'cat': return '(%s ++ %s)' % (s(a[0]), s(a[1]))
    if o == 'slice': return '%s[%s..%s]' % tuple(map(s, a))
    if o in BINDERS: return '%s_%d{%s}' % (o, a[0], '; '.join(s(x) for x in a[2:]))
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))
