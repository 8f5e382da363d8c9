"""Tiny ordered BDDs over condition terms, used to merge states at control-flow joins."""
from terms import *


class BDD:
    def __init__(self):
        self.vars = []; self.vi = {}; self.tab = {}; self.cache = {}
        self.T = ('T',); self.F = ('F',)

    def var(self, term):
        i = self.vi.get(term)
        if i is None:
            i = len(self.vars); self.vi[term] = i; self.vars.append(term)
        return i

    def node(self, v, hi, lo):
        if hi is lo: return hi
        k = (v, id(hi), id(lo))
        n = self.tab.get(k)
        if n is None:
            n = (v, hi, lo); self.tab[k] = n
        return n

    def top(self, x):
        return x[0] if len(x) == 3 else 1 << 60

    def cof(self, x, v, val):
        if len(x) == 3 and x[0] == v: return x[1] if val else x[2]
        return x

    def ite(self, c, a, b):
        if c is self.T: return a
        if c is self.F: return b
        if a is b: return a
        if a is self.T and b is self.F: return c
        k = (id(c), id(a), id(b))
        r = self.cache.get(k)
        if r is not None: return r[0]
        v = min(self.top(c), self.top(a), self.top(b))
        hi = self.ite(self.cof(c, v, 1), self.cof(a, v, 1), self.cof(b, v, 1))
        lo = self.ite(self.cof(c, v, 0), self.cof(a, v, 0), self.cof(b, v, 0))
        r = self.node(v, hi, lo)
        self.cache[k] = (r, c, a, b)
        return r

    def and_(self, a, b): return self.ite(a, b, self.F)
    def or_(self, a, b): return self.ite(a, self.T, b)
    def not_(self, a): return self.ite(a, self.F, self.T)

    def of(self, t):
        if t is TRUE: return self.T
        if t is FALSE: return self.F
        if t.op == 'not': return self.not_(self.of(t.a[0]))
        if t.op == 'ite': return self.ite(self.of(t.a[0]), self.of(t.a[1]), self.of(t.a[2]))
        return self.node(self.var(t), self.T, self.F)

    def term(self, b, memo=None):
        if b is self.T: return TRUE
        if b is self.F: return FALSE
        if memo is None: memo = {}
        r = memo.get(id(b))
        if r is None:
            r = ite(self.vars[b[0]], self.term(b[1], memo), self.term(b[2], memo))
            memo[id(b)] = r
        return r

    def selector(self, conds, memo=None):
        """decision tree over the (disjoint) conditions; leaves are indices; missing cases are don't-care"""
        if memo is None: memo = {}
        k = tuple(id(c) for c in conds)
        if k in memo: return memo[k]
        live = [i for i, c in enumerate(conds) if c is not self.F]
        if not live: r = None
        elif len(live) == 1: r = live[0]
        else:
            v = min(self.top(c) for c in conds)
            if v == 1 << 60:
                r = live[0]
            else:
                hi = self.selector([self.cof(c, v, 1) for c in conds], memo)
                lo = self.selector([self.cof(c, v, 0) for c in conds], memo)
                if hi is None: r = lo
                elif lo is None: r = hi
                elif hi == lo: r = hi
                else: r = (v, hi, lo)
        memo[k] = r
        return r

    def select(self, sel, vals, memo=None):
        if sel is None: return UNDEF
        if isinstance(sel, int): return vals[sel]
        if memo is None: memo = {}
        r = memo.get(id(sel))
        if r is None:
            r = ite(self.vars[sel[0]], self.select(sel[1], vals, memo), self.select(sel[2], vals, memo))
            memo[id(sel)] = r
        return r
