"""Three-valued comparison of value graphs: EQ (provably equal), NE (provably different under the free
interpretation of uninterpreted operations), UNK (forms that the normaliser cannot relate)."""
from terms import *
import time
from assume import nonnan, BOUND, COMMUTE
from linear import infeasible

EQ, UNK, NE = 'EQ', 'UNK', 'NE'
LT_, EQ_, GT_, UN_ = 1, 2, 4, 8
INVM = {}
for _m in range(16):
    INVM[_m] = (_m & 2) | (_m & 8) | (4 if _m & 1 else 0) | (1 if _m & 4 else 0)
COMP1 = {(1, 1): 1, (1, 2): 1, (2, 1): 1, (2, 2): 2, (4, 4): 4, (4, 2): 4, (2, 4): 4, (1, 4): 7, (4, 1): 7}
COMP = {}
for _a in range(16):
    for _b in range(16):
        r = 0
        for x in (1, 2, 4, 8):
            if not _a & x: continue
            for y in (1, 2, 4, 8):
                if _b & y: r |= 15 if (x == 8 or y == 8) else COMP1[(x, y)]
        COMP[(_a, _b)] = r


STOP = raw('konst', 'stop')


class Ctx:
    """conjunction of literals with a float order domain and an integer difference domain"""
    __slots__ = ('lits', 'rel', 'ints', 'key', 'depth')

    def __init__(self):
        self.lits = {}; self.rel = {}; self.ints = []; self.key = frozenset(); self.depth = 0

    def copy(self):
        c = Ctx.__new__(Ctx)
        c.lits = dict(self.lits); c.rel = dict(self.rel); c.ints = list(self.ints); c.key = self.key; c.depth = self.depth
        return c

    # ---- float order
    def getrel(self, a, b):
        if a is b:
            m = self.rel.get((a, a), 10)
            if numval(a) is not None or nonnan(a): m &= 2
            return m
        r = self.rel.get((a, b))
        if r is not None: return r
        va, vb = numval(a), numval(b)
        if va is not None and vb is not None:
            return 1 if va < vb else (2 if va == vb else 4)
        m = 15
        if self.getrel(a, a) == 8 or self.getrel(b, b) == 8: m = 8
        elif self.getrel(a, a) == 2 and self.getrel(b, b) == 2: m = 7
        return m

    def setrel(self, a, b, m):
        """returns False on contradiction"""
        work = [(a, b, m)]
        while work:
            a, b, m = work.pop()
            old = self.getrel(a, b)
            new = old & m
            if new == 0: return False
            if new == old and (a, b) in self.rel: continue
            self.rel[(a, b)] = new; self.rel[(b, a)] = INVM[new]
            terms = {x for p in self.rel for x in p}
            if a is b:
                for c in terms:
                    if c is a: continue
                    work.append((a, c, self.getrel(a, c) & (8 if new == 8 else 15)))
                    if new == 2 and self.getrel(c, c) == 2: work.append((a, c, 7))
                continue
            if not new & 8:
                work.append((a, a, 2)); work.append((b, b, 2))
            for c in terms:
                if c is a or c is b: continue
                if (b, c) in self.rel or (numval(b) is not None and numval(c) is not None):
                    n = COMP[(new, self.getrel(b, c))]
                    if n != 15: work.append((a, c, n))
                if (a, c) in self.rel or (numval(a) is not None and numval(c) is not None):
                    n = COMP[(INVM[new], self.getrel(a, c))]
                    if n != 15: work.append((b, c, n))
        return True

    def value(self, t):
        """truth value of an atom under the context or None"""
        if t is TRUE: return True
        if t is FALSE: return False
        v = self.lits.get(t)
        if v is not None: return v
        o = t.op
        if o == 'not':
            v = self.value(t.a[0])
            return None if v is None else not v
        if o in ('lt', 'le', 'eq') and t.a[0] == 'F':
            m = self.getrel(t.a[1], t.a[2])
            w = {'lt': 1, 'le': 3, 'eq': 2}[o]
            if m & ~w == 0: return True
            if m & w == 0: return False
            return None
        if o == 'isnan':
            m = self.getrel(t.a[0], t.a[0])
            return True if m == 8 else (False if m == 2 else None)
        if o == 'lt' and t.a[0] == 'I':
            d = to_poly(sub(t.a[2], t.a[1]))
            if self.int_contra(d): return False
            if self.int_contra(madd({m: -v for m, v in d.items()}, {(): 1})): return True
            return None
        if o == 'eq' and t.a[0] == 'I':
            d = to_poly(sub(t.a[2], t.a[1]))
            n = {m: -v for m, v in d.items()}
            if self.int_contra(madd(d, {(): 1})) or self.int_contra(madd(n, {(): 1})): return False
            if self.int_contra(d) and self.int_contra(n): return True
            return None
        if o == 'is':
            out = set()
            for x, v in self.lits.items():
                if x.op == 'is' and x.a[1] is t.a[1] and x.a[0] != t.a[0]:
                    if v: return False
                    out.add(x.a[0])
            vs = VARIANTS.get(ADT_OF.get(t.a[1]))
            if vs is None and out:
                cs = [x for x in VARIANTS.values() if t.a[0] in x and out <= set(x)]
                vs = cs[0] if len(cs) == 1 else None
            if vs and t.a[0] in vs and out >= set(vs) - {t.a[0]}: return True
        if o == 'eq' and t.a[0] == 'O':
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if y.op == 'c':
                    for z, v in self.lits.items():
                        if v and z.op == 'eq' and z.a[0] == 'O' and ((z.a[1] is x and z.a[2].op == 'c') or (z.a[2] is x and z.a[1].op == 'c')) and z is not t:
                            return False
        return None

    def int_contra(self, p, rounds=2):
        """p > 0 inconsistent with the known integer facts?"""
        if not p: return True
        if set(p) == {()}: return p[()] <= 0
        if int_pos(p) is FALSE: return True
        facts = self.ints + nonneg_facts(p, self.ints)
        frontier = [p]
        for _ in range(rounds):
            nxt = []
            for q in frontier:
                for f in facts:
                    # eliminate a shared monomial with opposite sign
                    for m in q:
                        if m == () or m not in f or (q[m] > 0) == (f[m] > 0): continue
                        s = madd({k: v * abs(f[m]) for k, v in q.items()}, {k: v * abs(q[m]) for k, v in f.items()})
                        if set(s) <= {()}:
                            # q>0,f>0 integers: weighted sum >= |f|+|q|
                            if s.get((), 0) < abs(f[m]) + abs(q[m]): return True
                        else:
                            s2 = madd(s, {(): -(abs(f[m]) + abs(q[m]) - 1)})
                            if len(nxt) < 60: nxt.append(s2)
                        break
            frontier = nxt
        return False

    def assume(self, t, v):
        """new context or None when contradictory"""
        cur = self.value(t)
        if cur is not None: return self if cur == v else None
        c = self.copy()
        if not c._add(t, v): return None
        c.key = self.key | {(t.id, v)}
        c.depth += 1
        return c

    def _add(self, t, v):
        if t.op == 'not': return self._add(t.a[0], not v)
        self.lits[t] = v
        o = t.op
        if o in ('lt', 'le', 'eq') and t.a[0] == 'F':
            w = {'lt': 1, 'le': 3, 'eq': 2}[o]
            return self.setrel(t.a[1], t.a[2], w if v else 15 & ~w)
        if o == 'isnan': return self.setrel(t.a[0], t.a[0], 8 if v else 2)
        if o == 'lt' and t.a[0] == 'I':
            d = to_poly(sub(t.a[2], t.a[1]))
            if not v: d = madd({m: -x for m, x in d.items()}, {(): 1})
            if self.int_contra(d): return False
            self.ints.append(d)
            for z, w in self.lits.items():
                if not w and z.op == 'eq' and z.a[0] == 'I':
                    q = to_poly(sub(z.a[2], z.a[1]))
                    if self.int_contra(q) and self.int_contra({m: -x for m, x in q.items()}): return False
        if o == 'eq' and t.a[0] == 'I' and v:
            d = to_poly(sub(t.a[2], t.a[1])); n = {m: -x for m, x in d.items()}
            d1 = madd(d, {(): 1}); n1 = madd(n, {(): 1})
            if self.int_contra(d1) or self.int_contra(n1): return False
            self.ints += [d1, n1]
        return True


def nonneg_facts(p, ints):
    out = []; seen = set()
    for q in [p] + ints:
        for m in q:
            if len(m) == 1 and m[0][1] == 1 and m[0][0] not in seen:
                x = m[0][0]; seen.add(x)
                if nonneg(x): out.append({m: Fraction(1), (): Fraction(1)})
                if x.op == 'f' and x.a[0] in BOUND: out.append(madd(to_poly(BOUND[x.a[0]]), {m: -1}))
                if x.op == 'eta': out += eta_invariants(x)
                if x.op == 'firstor':
                    out.append(madd(madd(to_poly(x.a[2]), {m: -1}), {(): 1}))
                if x.op == 'call' and x.a[0] == 'minlen':
                    for y in x.a[2:]:
                        d = madd(madd(to_poly(y), {m: -1}), {(): 1})
                        if d: out.append(d)
                        # zipped sequences: taken to have the same length
                        if y.op in ('len', 'f', 'p', 'idx'): out.append(madd(madd({k: -v for k, v in to_poly(y).items()}, {m: 1}), {(): 1}))
    return out


def commuting_calls(t):
    """calls of the functions of COMMUTE in chain order, each with the arguments other than the state"""
    out = []; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'call' and x.a[0] in COMMUTE: out.append(x)
        st.extend(subterms(x))
    out.sort(key=lambda x: x.size)
    m = {}
    def base(x):
        if x.op == 'out' and x.a[1].op == 'call' and x.a[1].a[0] in COMMUTE: return base(x.a[1].a[2 + COMMUTE[x.a[1].a[0]]])
        if x.op == 'ite':
            l, r = base(x.a[1]), base(x.a[2])
            return l if l is r else ite(x.a[0], l, r)
        return x
    for x in seen:
        if x.op in ('out', 'ite'):
            y = base(x)
            if y is not x: m[x] = y
    for _ in range(3): m = {x: replace_terms(y, m) for x, y in m.items()}
    res = []
    for x in out:
        p = 2 + COMMUTE[x.a[0]]
        res.append((x.a[0], tuple(replace_terms(y, m) for i, y in enumerate(x.a) if i >= 2 and i != p)))
    return res


def reordered(a, b):
    if not any(o[0] == 'call' and o[1] in COMMUTE for o in ops_of(a)): return False
    x, y = [list(dict.fromkeys(commuting_calls(t))) for t in (a, b)]
    return x != y and len(x) == len(y) and set(x) == set(y)


def linear_facts(ctx):
    cons = [(madd(p, {(): -1}), False) for p in ctx.ints]
    cons += [(madd(p, {(): -1}), False) for p in nonneg_facts({}, ctx.ints)]
    neq = []
    for t, v in ctx.lits.items():
        if not v and t.op == 'eq' and t.a[0] == 'I': neq.append((to_poly(sub(t.a[2], t.a[1])), True))
    seen = set()
    for (a, b), m in ctx.rel.items():
        if a is b or m & 8 or (b, a) in seen or m == 7: continue
        seen.add((a, b))
        if INF in (a, b) or a.op == 'konst' or b.op == 'konst': continue
        d = to_poly(sub(b, a))
        if any(x is INF or x is NAN for q in d for x, _ in q): continue
        n = {q: -v for q, v in d.items()}
        if m == 1: cons.append((d, True))
        elif m == 3: cons.append((d, False))
        elif m == 4: cons.append((n, True))
        elif m == 6: cons.append((n, False))
        elif m == 2: cons += [(d, False), (n, False)]
        elif m == 5: neq.append((d, False))
    return cons, neq


class Result:
    def __init__(self, r, why=None):
        self.r = r; self.why = why


class Comparator:
    def __init__(self, vocab=None, budget=400000, seconds=60, req=()):
        self.vocab = vocab            # None: every operation is known
        self.budget = budget; self.n = 0
        self.memo = {}
        self.deadline = time.time() + seconds
        self.why = None               # first definite difference: (path, a, b, ctx)
        self.unk = None
        self.path = []
        self.noteq = set()
        self.peeling = 0
        self.sysmemo = {}
        self.req = req                # what the reference needs in order not to panic
        self.feas = {}; self.dbt = {}
        self.scopes = []
        self.inseq = set()
        self.soft = False             # only the order of calls that commute differs

    def compare(self, a, b, facts=()):
        self.why = None
        ctx = Ctx()
        for t, v in facts: ctx = ctx.assume(t, v)
        self.soft = reordered(a, b)
        self.scopes = [(a, b)]
        return self.cmp(a, b, ctx)

    # ------------------------------------------------------------
    def impossible(self, ctx):
        """no input satisfies the conditions of the path, or the reference panics on all of them"""
        r = self.feas.get(ctx.key)
        if r is None: r = self.feas[ctx.key] = self.impossible_(ctx)
        return r

    def impossible_(self, ctx):
        extra = []
        if ctx.lits or ctx.ints:
            for q in self.req:
                t = self.simp(q, ctx)
                if is_bool(t) and t.op != 'c':
                    v = ctx.value(t)
                    if v is None: extra.append(t)
                    else: t = boolean(v)
                if t is FALSE: return True
        elif any(q is FALSE for q in self.req): return True
        if extra:
            c = ctx
            for t in extra:
                c = c.assume(t, True)
                if c is None: return True
            ctx = c
        cons, neq = linear_facts(ctx)
        if len(cons) < 2 and not neq: return False
        if len(cons) > 60: return False
        return infeas(cons, neq)

    def note_ne(self, a, b, ctx, msg=''):
        if self.impossible(ctx): return EQ
        r = self.doubtful(ctx)
        if r == EQ: return EQ
        if r == UNK: return self.note_unk(a, b, 'conditions on loops that may be the same')
        if self.soft: return self.note_unk(a, b, 'calls in another order')
        if self.why is None:
            self.why = (list(self.path), a, b, dict(ctx.lits), msg)
        return NE

    def doubtful(self, ctx):
        """EQ: two conditions of the path are the same and have opposite values; UNK: they may be"""
        ls = [(l, v) for l, v in ctx.lits.items() if (has_binder(l) or not self.known(l))]
        sh = {l for l, v in ls if self.shared(l)}
        out = NE; base = None
        for i, (l, v) in enumerate(ls):
            for l2, v2 in ls[:i]:
                if l in sh and l2 in sh or l.fv != l2.fv: continue
                if v == v2 or l.op != l2.op or l.a[0] != l2.a[0] and not isinstance(l.a[0], T): continue
                if has_eta(l) and has_eta(l2) and (set(loops_in(l)) <= set(loops_in(l2)) or set(loops_in(l2)) <= set(loops_in(l))): continue
                if base is None:
                    base = Ctx()
                    for y, vy in ctx.lits.items():
                        if not has_binder(y): base = base.assume(y, vy) or base
                k = (l, l2, base.key)
                r = self.dbt.get(k)
                if r is None:
                    sv = (self.why, self.unk); self.dbt[k] = NE
                    pl, self.peeling = self.peeling, 2
                    r = self.dbt[k] = self.cmp(l, l2, base)
                    self.peeling = pl
                    self.why, self.unk = sv
                if r == EQ: return EQ
                if r == UNK: out = UNK
        if out == NE:
            # a condition with operations that have no model may be the other side's condition in another form
            one = [l for l, v in ls if l not in sh]
            un = [l for l in one if not self.known(l)]
            if un and len(un) < len(one): return UNK
        return out

    def shared(self, l):
        """both sides have this condition"""
        return any(l in nodes_of(x) and l in nodes_of(y) for x, y in self.scopes)

    def note_unk(self, a, b, msg):
        if self.unk is None: self.unk = (list(self.path), a, b, msg)
        return UNK

    def cmp(self, a, b, ctx):
        if a is b: return EQ
        self.n += 1
        if self.n > self.budget or time.time() > self.deadline: return self.note_unk(a, b, 'budget')
        k = (a, b, ctx.key, self.peeling >= 2)
        if k is not None:
            r = self.memo.get(k)
            if r is not None:
                if r[0] == NE and self.why is None: self.why = r[1]
                if r[0] == UNK and self.unk is None: self.unk = r[1]
                return r[0]
        sv = (self.why, self.unk); self.why = self.unk = None
        r = self._cmp(a, b, ctx)
        if r == NE:
            m = self.fruitless(a, b, ctx)
            if m:
                s1 = (self.why, self.unk)
                if self.cmp(replace_terms(a, m), replace_terms(b, m), ctx) == EQ: r = EQ
                else: self.why, self.unk = s1
        w, u = self.why, self.unk
        if k is not None: self.memo[k] = (r, w if r == NE else u)
        self.why = sv[0] if sv[0] is not None else (w if r == NE else None)
        self.unk = sv[1] if sv[1] is not None else (u if r == UNK else None)
        return r

    def fruitless(self, a, b, ctx):
        """searches that find nothing here end at the end"""
        ex = [l for l, v in ctx.lits.items() if l.op == 'exists' and not v]
        m = {}
        if not ex: return m
        for x in nodes_of(a) | nodes_of(b):
            if x.op == 'firstor':
                f = firstor_exists(x)
                for l in ex:
                    if l is f or (l.a[2] is x.a[2] and self.quick_eq(l, f)): m[x] = x.a[2]; break
        return m

    def quick_eq(self, a, b):
        sv = (self.why, self.unk)
        try: return self.cmp(a, b, Ctx()) == EQ
        finally: self.why, self.unk = sv

    def unify(self, a, b):
        """replace closed loops of b by equal loops of a"""
        B = loops_in(b); A = loops_in(a)
        As = set(A)
        B = [y for y in B if y not in As]
        if not B: return b
        A = [x for x in A if x not in set(loops_in(b))]
        m = {}
        sv = (self.why, self.unk)
        for y in sorted(B, key=lambda t: t.size):
            y2 = replace_terms(y, m) if m else y
            if y2 in As:
                m[y] = y2; continue
            k = (y2, frozenset(x.id for x in A))
            for x in sorted((x for x in A if x.op == y2.op and x.a[1] == y2.a[1] and 3 * x.size < 4 * y2.size + 40 and 3 * y2.size < 4 * x.size + 40), key=lambda x: abs(x.size - y2.size)):
                if (x, y2) in self.noteq: continue
                dl, pe = self.deadline, self.peeling
                self.deadline = min(dl, time.time() + 5); self.peeling = 2
                try: r = self.cmp(x, y2, Ctx())
                finally: late = time.time() > self.deadline; self.deadline, self.peeling = dl, pe
                if late: self.memo = {k_: v_ for k_, v_ in self.memo.items() if v_[0] != UNK}; self.sysmemo = {k_: v_ for k_, v_ in self.sysmemo.items() if v_[1] != UNK}
                if r == EQ:
                    m[y] = x; break
                self.noteq.add((x, y2))
        self.why, self.unk = sv
        return replace_terms(b, m) if m else b

    def _cmp(self, a, b, ctx):
        a = self.simp(a, ctx); b = self.simp(b, ctx)
        if a is b: return EQ
        if a.op != 'eta' and b.op != 'eta' and a.size > 60 and b.size > 60 and has_eta(a) and has_eta(b):
            b = self.unify(a, b)
            if a is b: return EQ
        if minlen_same(a, b): return EQ
        for t in (a, b):            # an element beyond the end: the program panics there
            if t.op == 'idx' and ctx.ints and ctx.value(lt('I', t.a[1], len_(t.a[0]))) is False: return EQ
        if a is UNIT or b is UNIT: return EQ      # only one value of that type
        if a is MORE or b is MORE: return UNK
        if a is UNDEF or b is UNDEF: return self.note_unk(a, b, 'undefined value')
        if a.op == 'ite' or b.op == 'ite':
            t = a if a.op == 'ite' else b
            c = self.pick(t.a[0])
            # choose shared condition first
            return self.split(c, a, b, ctx)
        r = self.quick(a, b, ctx)
        if r == EQ: return EQ
        # nested conditions: split on the outermost conditional below
        c = self.inner_cond(a, ctx) or self.inner_cond(b, ctx)
        if c is not None:
            return self.split(c, a, b, ctx)
        return self.leaf(a, b, ctx)

    def split(self, c, a, b, ctx):
        if ctx.depth > 40: return self.note_unk(a, b, 'too many cases')
        # conditions nested in the operands of a condition come first
        for _ in range(8):
            d = next((x for x in conds(c, binders=False) if x is not c and x.size < c.size and ctx.value(x) is None), None)
            if d is None: break
            c = d
        v = self.same_literal(c, ctx)
        if v is not None:
            return self._cmp_forced(a, b, c, v, ctx)
        out = EQ
        for v in (True, False):
            k = ctx.assume(c, v)
            if k is None: continue
            r = self.cmp(a, b, k) if k is not ctx else self._cmp_forced(a, b, c, v, ctx)
            if r == NE: return NE
            if r == UNK: out = UNK
        return out

    def same_literal(self, c, ctx):
        """value of c through a literal of the context that is the same condition in another form"""
        if c.size < 6: return None
        for l, v in ctx.lits.items():
            if l.op != c.op or l is c or l.a[0] != c.a[0] and not isinstance(l.a[0], T): continue
            if l.op in ('lt', 'le') and not (has_binder(l) and has_binder(c)): continue
            if l.fv != c.fv and not (has_binder(l) and has_binder(c)) and not (l.fv & c.fv): continue
            sv = (self.why, self.unk)
            r = self.cmp(l, c, Ctx())
            if r != EQ and ctx.lits and not has_binder(c): r = self.leaf_args(l, c, ctx)
            self.why, self.unk = sv
            if r == EQ: return v
        return None

    def leaf_args(self, l, c, ctx):
        for x, y in zip(l.a, c.a):
            if isinstance(x, T):
                if self.cmp(x, y, ctx) != EQ: return UNK
            elif x != y: return UNK
        return EQ

    def _cmp_forced(self, a, b, c, v, ctx):
        m = {c: boolean(v)}
        return self.cmp(replace_terms(a, m), replace_terms(b, m), ctx)

    def pick(self, c):
        while c.op in ('ite', 'not'): c = c.a[0]
        return c

    # ---- simplification under a context
    def simp(self, t, ctx):
        if not ctx.lits: return t
        if t in ctx.lits: return boolean(ctx.lits[t])
        cs = [c for c in conds(t)]
        m = {}
        for c in cs:
            v = ctx.value(c)
            if v is not None: m[c] = boolean(v)
        # equalities with constants / variants
        if not m: return t
        r = replace_terms(t, m)
        return r if r is t else self.simp(r, ctx)

    def inner_cond(self, t, ctx):
        """an atom of a conditional nested in t (outside binders)"""
        best = None
        for c in conds(t, binders=False):
            if ctx.value(c) is None: return c
        return best

    # ---- structural comparison that does not record differences
    def quick(self, a, b, ctx):
        if a.op != b.op: return UNK
        if a.op == 'poly': return UNK
        if a.op in BINDERS: return UNK
        if len(a.a) != len(b.a): return UNK
        sv = (self.why, self.unk)
        for x, y in zip(a.a, b.a):
            if not self.quick_arg(x, y, ctx):
                self.why, self.unk = sv
                return UNK
        self.why, self.unk = sv
        return EQ

    def quick_arg(self, x, y, ctx):
        if x is y: return True
        if isinstance(x, T) and isinstance(y, T):
            if x.op == 'ite' and y.op == 'ite' and False: return False
            return self.cmp(x, y, ctx) == EQ
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.quick_arg(p, q, ctx) for p, q in zip(x, y))
        return x == y

    # ---- leaf comparison: no conditionals outside binders
    def leaf(self, a, b, ctx):
        oa, ob = a.op, b.op
        if lin_equal(a, b, ctx): return EQ
        if is_arith(a) or is_arith(b):
            r = self.arith(a, b, ctx)
            if r is not None: return r
        if oa == ob:
            if oa in BINDERS: return self.binders(a, b, ctx)
            if oa == 'call':
                if a.a[0] == b.a[0] and len(a.a) == len(b.a):
                    return self.children(a, b, ctx, a.a[2:], b.a[2:], 'call ' + a.a[0])
                if self.known(a) and self.known(b):
                    return self.note_ne(a, b, ctx)
                return self.note_unk(a, b, 'unknown operation')
            if oa == 'f':
                if a.a[0] == b.a[0]: return self.children(a, b, ctx, a.a[1:], b.a[1:], '.' + a.a[0])
                if self.known(a) and self.known(b): return self.note_ne(a, b, ctx)
                return self.note_unk(a, b, 'unknown field')
            if oa == 'agg':
                if a.a[:2] == b.a[:2]:
                    if a.a[2] == b.a[2]:
                        return self.children(a, b, ctx, a.a[3:], b.a[3:], a.a[0], names=a.a[2])
                    na = dict(zip(a.a[2], a.a[3:])); nb = dict(zip(b.a[2], b.a[3:]))
                    if set(na) == set(nb):
                        ns = sorted(na)
                        return self.children(a, b, ctx, [na[n] for n in ns], [nb[n] for n in ns], a.a[0], names=ns)
                    return self.note_unk(a, b, 'different record fields')
                if a.a[0] == b.a[0]: return self.note_ne(a, b, ctx, 'different variant')
                if self.known(a) and self.known(b): return self.note_ne(a, b, ctx)
                return self.note_unk(a, b, 'unknown record')
            if oa == 'with':
                ma, mb = dict(a.a[1]), dict(b.a[1])
                r = self.cmp(a.a[0], b.a[0], ctx)
                if r != EQ: return r
                ns = sorted(set(ma) | set(mb))
                return self.children(a, b, ctx, [field(a, n) for n in ns], [field(b, n) for n in ns], 'update', names=ns)
            if oa == 'list':
                if len(a.a) != len(b.a): return self.note_ne(a, b, ctx, 'different number of elements')
                return self.children(a, b, ctx, a.a, b.a, 'element')
            if oa == 'c': return self.note_ne(a, b, ctx)
            if oa == 'out':
                if a.a[0] == b.a[0]: return self.children(a, b, ctx, a.a[1:], b.a[1:], 'effect')
                return self.note_ne(a, b, ctx)
            if oa == 'fn':
                return EQ if a.a[0].ident() == b.a[0].ident() else self.note_ne(a, b, ctx)
            if oa in ('p', 's', 'bv'): return self.note_ne(a, b, ctx)
            if oa == 'idx' and 'eta' in (a.a[0].op, b.a[0].op):
                sv = (self.why, self.unk)
                r = self.children(a, b, ctx, a.a, b.a, oa)
                if r != NE: return r
                self.why, self.unk = sv        # sequences that differ elsewhere may agree at this element
                if self.cmp(a.a[1], b.a[1], ctx) != EQ:
                    self.why, self.unk = sv
                    return self.note_unk(a, b, 'element of a loop state')
                return self.peel(a, b, ctx, 'element of a loop state')
            if oa in ('idx', 'len'):
                return self.children(a, b, ctx, a.a, b.a, oa)
            if oa in ('lt', 'le', 'eq', 'is', 'isnan', 'exists'):
                return self.boolean(a, b, ctx)
            if oa == 'not': return self.cmp(a.a[0], b.a[0], ctx)
            if oa == 'as' and a.a[0] == b.a[0]: return self.cmp(a.a[1], b.a[1], ctx)
            if oa in ('upd', 'cat', 'slice', 'splice'):
                return self.seqs(a, b, ctx)
            if len(a.a) == len(b.a):
                ca = [x for x in a.a if isinstance(x, T)]; cb = [x for x in b.a if isinstance(x, T)]
                if [x for x in a.a if not isinstance(x, T)] == [x for x in b.a if not isinstance(x, T)] and len(ca) == len(cb):
                    return self.children(a, b, ctx, ca, cb, oa)
            return self.note_unk(a, b, 'unrelated ' + oa)
        if is_bool(a) and is_bool(b): return self.boolean(a, b, ctx)
        if oa in SEQ and ob in SEQ: return self.seqs(a, b, ctx)
        if oa == 'with' or ob == 'with':
            ba, ma = with_parts(a); bb, mb = with_parts(b)
            if ba is bb:
                ns = sorted(set(ma) | set(mb))
                return self.children(a, b, ctx, [field(a, n) for n in ns], [field(b, n) for n in ns], 'update', names=ns)
            if oa == 'agg' or ob == 'agg':
                g = a if oa == 'agg' else b
                ns = g.a[2]
                return self.children(a, b, ctx, [field(a, n) for n in ns], [field(b, n) for n in ns], 'record', names=ns)
        if 'eta' in (oa, ob): return self.peel(a, b, ctx, 'loop form')
        if 'agg' in (oa, ob):
            g, o = (a, b) if oa == 'agg' else (b, a)
            if o.op in ('idx', 'f', 'call', 'p') and g.a[2] and g.a[1] in ('', g.a[0]):
                # record rebuilt field by field
                return self.children(a, b, ctx, [field(a, n) for n in g.a[2]], [field(b, n) for n in g.a[2]], 'record', names=g.a[2])
            if g.a[1] in ('Some', 'Ok', 'Err', 'None') and o.op in ('call', 'idx', 'f', 'p', 'out', 's', 'eta', 'as'):
                c = is_(g.a[1], o, g.a[0])
                x = c.a[0] if c.op == 'not' else c
                if ctx.value(x) is None:
                    return self.split(x, a, b, ctx)
                if (ctx.value(x) if c is x else not ctx.value(x)):
                    return self.children(a, b, ctx, [field(as_(g.a[1], a), n) for n in g.a[2]], [field(as_(g.a[1], b), n) for n in g.a[2]], g.a[1])
                return self.note_ne(a, b, ctx)
        if self.known(a) and self.known(b): return self.note_ne(a, b, ctx)
        return self.note_unk(a, b, 'unknown operation')

    def children(self, a, b, ctx, xs, ys, label, names=None):
        out = EQ
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.path.append(label + ('.' + names[i] if names else ('#%d' % i if len(xs) > 1 else '')))
            r = self.cmp(x, y, ctx)
            self.path.pop()
            if r == NE: return NE if out == EQ or True else UNK
            if r == UNK: out = UNK
        return out

    def known(self, t):
        """every operation in t is in the vocabulary of the reference"""
        if self.vocab is None: return True
        return unknown_ops(t, self.vocab) is None

    # ---- booleans
    def boolean(self, a, b, ctx):
        # same truth value in every case?
        sv = (self.why, self.unk)
        if a.op == b.op and a.op not in BINDERS and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            if all(self.cmp(x, y, ctx) == EQ for x, y in zip(a.a, b.a) if isinstance(x, T)):
                self.why, self.unk = sv
                return EQ
            self.why, self.unk = sv
        if a.op == 'exists' and b.op == 'exists': return self.binders(a, b, ctx)
        # decide by cases: a true -> b true ; a false -> b false
        out = EQ
        for v in (True, False):
            k = ctx.assume(a, v) if a.op != 'c' else (ctx if (a is TRUE) == v else None)
            if k is None: continue
            if b.op == 'c': w = b is TRUE
            else: w = k.value(b)
            if w is None:
                # can b be the opposite?
                k2 = k.assume(b, not v)
                if k2 is None: continue
                # the two atoms are independent facts; equal only if their operands are provably equal
                if a.op == b.op and a.op not in BINDERS and a.a[0] == b.a[0]:
                    r = EQ
                    for x, y in zip(a.a, b.a):
                        if isinstance(x, T):
                            q = self.cmp(x, y, ctx)
                            if q == UNK: r = UNK
                            if q == NE: r = NE if r != UNK else UNK
                    if r == UNK: out = UNK; continue
                if not (self.known(a) and self.known(b)) or has_eta(a) != has_eta(b):
                    out = UNK; self.note_unk(a, b, 'condition'); continue
                return self.note_ne(a, b, ctx, 'condition')
            elif w != v:
                return self.note_ne(a, b, k, 'condition')
        return out

    # ---- arithmetic
    def arith(self, a, b, ctx):
        pa, pb = to_poly(a), to_poly(b)
        A = poly_atoms(pa); B = poly_atoms(pb)
        m = {}
        ua = [x for x in A if x not in B]; ub = [y for y in B if y not in A]
        if ua == [a] and ub == [b]: return None
        sv = (self.why, self.unk)
        unk = False; ne = None
        free = list(ub)
        for x in ua:
            for y in list(free):
                if x.op != y.op and not (x.op in ('ite', 'eta') or y.op in ('ite', 'eta')): continue
                self.why, self.unk = None, None
                r = self.cmp(x, y, ctx)
                if r == EQ:
                    m[x] = y; free.remove(y); break
                if r == NE and ne is None: ne = self.why
                if r == UNK: unk = True
        self.why, self.unk = sv
        d = sub(replace_terms(a, m), b)
        if d is ZERO: return EQ
        if rat_zero(d): return EQ
        if m:
            return self.cmp(replace_terms(a, m), b, ctx)
        if eq_facts_zero(d, ctx): return EQ
        if unk: return self.note_unk(a, b, 'arithmetic over unrelated terms')
        if not (self.known(a) and self.known(b)): return self.note_unk(a, b, 'unknown operation')
        la, lb = set(loops_in(a)), set(loops_in(b))
        ea = any(z not in lb for x in ua for z in loops_in(x)); eb = any(z not in la for y in ub for z in loops_in(y))
        if ea != eb: return self.note_unk(a, b, 'loop form')
        if ne is not None and self.why is None:
            self.why = (list(self.path) + ne[0], ne[1], ne[2], ne[3], ne[4])
            return NE
        return self.note_ne(a, b, ctx, 'arithmetic')

    # ---- binders
    def binders(self, a, b, ctx):
        if a.op == 'eta': return self.etas(a, b, ctx)
        if a.a[1] != b.a[1]: return self.note_unk(a, b, 'binder arity')
        syms = [fresh('b') for _ in range(a.a[1])]
        _, ca = open_binder(a, syms); _, cb = open_binder(b, syms)
        out = EQ
        if a.op == 'fill':
            r = self.seqs(a, b, ctx)
            return r
        for i, (x, y) in enumerate(zip(ca, cb)):
            self.path.append('%s#%d' % (a.op, i))
            last_ = i == len(ca) - 1
            k = ctx
            if last_ and a.op in ('sum', 'build', 'flat', 'exists', 'firstor'):
                k = ctx.copy(); k.key = ctx.key | {('b', syms[0].id)}
                k.ints.append({((syms[0], 1),): Fraction(1), (): Fraction(1)})
                k.ints.append(madd(to_poly(ca[0]), {((syms[0], 1),): Fraction(-1)}))
            sv = (self.why, self.unk)
            r = self.cmp(x, y, k)
            if r != EQ and last_ and a.op != 'fill':
                # elements before the first that fits a condition do not fit it
                q = FALSE
                for n in [ca[0], cb[0]] + [l for l, v in ctx.lits.items() if l.op == 'exists' and not v and l.a[1] == 1 and (l.a[2] is ca[0] or l.a[2] is cb[0])]:
                    if n.op in ('firstor', 'exists') and n.a[1] == 1: q = or_(q, open_binder(n, syms[:1])[1][-1])
                if q is not FALSE:
                    s1 = (self.why, self.unk); self.why, self.unk = sv
                    if self.cmp(x, ite(q, x, y), k) == EQ: r = EQ; self.why, self.unk = sv
                    else: self.why, self.unk = s1
            self.path.pop()
            if r == NE:
                return NE
            if r == UNK: out = UNK
        return out

    def etas(self, a, b, ctx):
        """the states of one loop give one fixed point each; the system of equations is compared once"""
        sa, (Ea, Ia, Na) = open_eta(a, 'A')
        sb, (Eb, Ib, Nb) = open_eta(b, 'B')
        if len(sa) < 2 or len(sb) < 2: return self.etas_(a, b, ctx, {})
        if self.peeling >= 2 and Ia[0] is not Ib[0]:
            sv = (self.why, self.unk)
            r = self.cmp(Ia[0], Ib[0], ctx)
            self.why, self.unk = sv
            if r != EQ: return self.note_unk(a, b, 'loop start')
        k = (Ea, frozenset(zip(sa, Ia, Na)), Eb, frozenset(zip(sb, Ib, Nb)), ctx.key, self.peeling >= 2)
        h = self.sysmemo.get(k)
        if h is not None and h[0].get(sb[0]) is sa[0]:
            if h[1] == NE and self.why is None: self.why = h[2]
            if h[1] == UNK and self.unk is None: self.unk = h[3]
            return h[1]
        if h is not None and h[1] != EQ and self.peeling >= 2: return self.note_unk(a, b, 'loop state')
        sv = (self.why, self.unk); self.why = self.unk = None
        m = {}
        r = self.etas_(a, b, ctx, m)
        w, u = self.why, self.unk
        self.sysmemo[k] = (m, r, w, u)
        self.why = sv[0] if sv[0] is not None else (w if r == NE else None)
        self.unk = sv[1] if sv[1] is not None else (u if r == UNK else None)
        return r

    def etas_(self, a, b, ctx, sysm):
        """two fixed points are equal when a map between their states (equal initial values) makes the exit
        conditions and the next-state functions equal; matched states share one symbol"""
        sa, (Ea, Ia, Na) = open_eta(a, 'A')
        sb, (Eb, Ib, Nb) = open_eta(b, 'B')
        if len(sb) < len(sa):
            sa, Ea, Ia, Na, sb, Eb, Ib, Nb = sb, Eb, Ib, Nb, sa, Ea, Ia, Na
            flip = True
        else: flip = False
        same = len(sa) == len(sb)
        # matched: state of the longer list -> state of the shorter list
        sv = (self.why, self.unk); self.why = self.unk = None
        init = {}
        def ini(i, j):
            if (i, j) not in init:
                self.why = self.unk = None
                init[(i, j)] = (self.cmp(Ia[i], Ib[j], ctx), self.why, self.unk)
            return init[(i, j)][0]
        best = None
        ctx0 = ctx
        if len(sa) < 9:
            k = (a if not flip else b, 'inv', flip)
            iv = _inv.get(k)
            if iv is None: iv = _inv[k] = invariants(sa, Ea, Ia, Na)
            if iv:
                ctx0 = ctx.copy(); ctx0.ints = ctx0.ints + iv
                ctx0.key = ctx0.key | {('inv', k[0].id, flip)}
            k = (k[0], 'num', flip)
            nv = _inv.get(k)
            if nv is None: nv = _inv[k] = number_states(sa, Ia, Na)
            if nv:
                if ctx0 is ctx: ctx0 = ctx.copy()
                for s in nv: ctx0.setrel(s, s, 2)
                ctx0.key = ctx0.key | {('num', k[0].id, flip)}
        try:
            for m in self.pairings(sa, Ea, Na, sb, Eb, Nb, ini):
                sub_ = {sb[j]: sa[i] for j, i in m.items()}
                bad = []; unk = []; nq = 0
                if best is not None and best[0] == ([], []): break
                comps = [('loop exit', Ea, Eb)] + [('loop state %d' % i, Na[i], Nb[j]) for j, i in m.items()]
                for lab, x, y in comps:
                    self.why = self.unk = None
                    self.path.append(lab)
                    y = replace(y, sub_)
                    self.scopes.append((x, y))
                    r = self.cmp(x, y, ctx0)
                    if r != EQ and lab != 'loop exit' and Ea.op not in ('lt', 'le', 'not', 'eq'):
                        # the next state only matters where the loop goes on
                        w0 = self.why, self.unk; self.why = self.unk = None
                        r2 = self.cmp(ite(Ea, STOP, x), ite(Ea, STOP, y), ctx0)
                        if r2 == EQ: r = EQ
                        elif r == NE and r2 == UNK: r = UNK
                        else: self.why, self.unk = w0
                    self.path.pop(); self.scopes.pop()
                    if r == NE: bad.append((lab, self.why))
                    elif r == UNK: unk.append((lab, self.unk))
                    else: nq += 1
                badi = [(i, j) for j, i in m.items() if ini(i, j) != EQ]
                if not bad and not unk and not badi and len(m) == len(sb):
                    self.why, self.unk = sv
                    sysm.update((sb[j], sa[i]) if not flip else (sa[i], sb[j]) for j, i in m.items())
                    return EQ
                sc = nq + sum(1 for j, i in m.items() if ini(i, j) == EQ)
                if best is None or sc > best[0]: best = (sc, bad, unk, badi, m)
                if time.time() > self.deadline: break
        finally:
            w, u = self.why, self.unk
            self.why, self.unk = sv
        if best is None: return self.peel(a, b, ctx, 'loop state')
        sc, bad, unk, badi, m = best
        sysm.update((sb[j], sa[i]) if not flip else (sa[i], sb[j]) for j, i in m.items())
        full = same and len(set(m.values())) == len(sa) and len(m) == len(sb)
        if not full: return self.peel(a, b, ctx, 'loop state')
        if badi:
            if not bad and not unk and all(init[x][0] == NE for x in badi):
                if self.why is None: self.why = self.flipwhy(init[badi[0]][1], flip, ['loop start %d' % badi[0][0]])
                return NE
            return self.peel(a, b, ctx, 'loop start')
        if bad:
            if self.why is None: self.why = self.flipwhy(bad[0][1], flip, [])
            return NE
        if self.unk is None: self.unk = unk[0][1] if unk else (list(self.path), a, b, 'loop')
        return self.peel(a, b, ctx, 'loop')

    def peel(self, a, b, ctx, msg):
        """loops that no state map relates: compare what they give when they stop within two iterations"""
        if self.peeling >= 2 or not (self.known(a) and self.known(b)): return self.note_unk(a, b, msg)
        x = peeled_at(a)
        y = peeled_at(b)
        if x is None or y is None or x.size + y.size > 60000: return self.note_unk(a, b, msg)
        sv = (self.why, self.unk); self.why = self.unk = None
        n, dl, bu = self.peeling, self.deadline, self.budget
        self.peeling += 1
        self.deadline = min(dl, time.time() + 15); self.budget = min(bu, self.n + 40000)
        self.path.append('peeled'); self.scopes.append((x, y))
        try: r = self.cmp(x, y, ctx)
        finally:
            self.path.pop(); self.scopes.pop()
            self.peeling, self.deadline, self.budget = n, dl, bu
        w = self.why
        self.why, self.unk = sv
        if r == NE:
            if self.why is None: self.why = w
            return NE
        return self.note_unk(a, b, msg)

    def flipwhy(self, w, flip, pre):
        if w is None: return None
        w = (pre + list(w[0]),) + tuple(w[1:])
        return (w[0], w[2], w[1]) + tuple(w[3:]) if flip else w

    def pairings(self, sa, Ea, Na, sb, Eb, Nb, ini):
        ia = {s: i for i, s in enumerate(sa)}; ib = {s: j for j, s in enumerate(sb)}
        votes = {}
        def align(x, y, seen, w):
            if x in ia and y in ib:
                votes[(ib[y], ia[x])] = votes.get((ib[y], ia[x]), 0) + w
                return
            if not (x.fv & fa) or not (y.fv & fb): return
            if x.op != y.op or (x, y) in seen: return
            seen.add((x, y))
            if len(seen) > 3000: return
            if x.op == 'poly':
                xs = [s_ for m_, _ in x.a[0] for s_, _ in m_] if isinstance(x.a[0], tuple) else []
            for p, q in zip(subterms(x), subterms(y)): align(p, q, seen, w)
        fa, fb = frozenset(sa), frozenset(sb)
        votes[(0, 0)] = 1000
        align(Ea, Eb, set(), 1)
        done = set()
        while True:
            c = [(v, k) for k, v in votes.items() if k not in done]
            if not c: break
            v, (j, i) = max(c, key=lambda z: (z[0], -z[1][0], -z[1][1]))
            done.add((j, i))
            align(Na[i], Nb[j], set(), 1 if ini(i, j) == EQ or (i, j) == (0, 0) else .01)
        out = []
        def greedy(order, inj):
            m = {}; used = set()
            for j, i in order:
                if j in m or (inj and i in used): continue
                if ini(i, j) != EQ and (i, j) != (0, 0): continue
                m[j] = i; used.add(i)
            rest = [j for j in range(len(sb)) if j not in m]
            for j in rest:
                c = [i for i in range(len(sa)) if ini(i, j) == EQ and not (inj and i in used)]
                c.sort(key=lambda i: (i in used, i != j))
                if c: m[j] = c[0]; used.add(c[0])
            if inj and len(sa) == len(sb):
                rj = [j for j in range(len(sb)) if j not in m]; ri = [i for i in range(len(sa)) if i not in used]
                if len(rj) == 1: m[rj[0]] = ri[0]
            return m
        vo = [k for k, _ in sorted(votes.items(), key=lambda z: -z[1])]
        inj = len(sa) == len(sb)
        seen = []
        def emit(m):
            if m not in seen and 0 in m:
                seen.append(m); return True
        m = greedy(vo, inj)
        if emit(m): yield m
        m = greedy([(0, 0)] + [(i, i) for i in range(1, len(sa))] + vo, inj)
        if emit(m): yield m
        if not inj:
            m = greedy(vo, True)
            if emit(m): yield m
        if inj:
            # by position in the step functions alone: the starting values differ
            m = {}; used = set()
            for j, i in [k for k, _ in sorted(votes.items(), key=lambda z: -z[1])]:
                if j in m or i in used: continue
                m[j] = i; used.add(i)
            rj = [j for j in range(len(sb)) if j not in m]; ri = [i for i in range(len(sa)) if i not in used]
            if len(rj) == 1: m[rj[0]] = ri[0]; rj = []
            if not rj and emit(m): yield m
        # remaining assignments among equal initial values
        n = [0]
        def rec(j, m, used):
            if n[0] > 24: return
            if j == len(sb):
                n[0] += 1
                yield dict(m); return
            for i in range(len(sa)):
                if inj and i in used: continue
                if (j == 0) != (i == 0) and j == 0: continue
                if ini(i, j) == EQ or (i, j) == (0, 0):
                    m[j] = i
                    yield from rec(j + 1, m, used | {i})
                    del m[j]
        if len(sb) <= 7:
            for m in rec(0, {}, frozenset()):
                if emit(m): yield m

    # ---- sequences compared extensionally
    def dropped(self, a, b, la, lb, ctx):
        """one side leaves out some of the elements, the other has all of them"""
        x, y, ly = (a, b, lb) if a.op == 'flat' else (b, a, la)
        if x.a[1] != 1 or y.op not in SEQ and y.op not in ('p', 'f', 'idx'): return False
        (i,), (n, body) = open_binder(x)
        k = ctx.copy(); k.key = ctx.key | {('b', i.id)}
        k.ints.append({((i, 1),): Fraction(1), (): Fraction(1)})
        k.ints.append(madd(to_poly(n), {((i, 1),): Fraction(-1)}))
        while body.op == 'ite' and k.value(body.a[0]) is not None: body = body.a[1] if k.value(body.a[0]) else body.a[2]
        if body.op != 'ite': return False
        c, u, v = body.a
        if i.id not in {z.id for z in nodes_of(c) if z.op == 's'} or has_eta(c) or not self.known(c): return False
        if not (u.op == 'list' and v.op == 'list' and {len(u.a), len(v.a)} == {0, 1}): return False
        if self.cmp(n, ly, ctx) != EQ: return False
        if k.assume(c, len(u.a) == 0) is None: return False
        return self.note_ne(a, b, ctx, 'elements are left out') == NE

    def seqs(self, a, b, ctx):
        if (a, b) in self.inseq: return self.note_unk(a, b, 'sequence form')
        self.inseq.add((a, b))
        try: return self.seqs_(a, b, ctx)
        finally: self.inseq.discard((a, b))

    def seqs_(self, a, b, ctx):
        if a.op == b.op and a.op in ('cat', 'slice', 'flat', 'upd', 'splice', 'fill'):
            sv = (self.why, self.unk)
            if a.op in BINDERS:
                syms = [fresh('b') for _ in range(a.a[1])]
                _, ca = open_binder(a, syms); _, cb = open_binder(b, syms)
                rs = [self.cmp(x, y, ctx) for x, y in zip(ca, cb)]
            else:
                rs = [self.cmp(x, y, ctx) for x, y in zip(a.a, b.a)]
            if all(r == EQ for r in rs): return EQ
            if a.op == 'cat' and a.a[0] is b.a[0]: return rs[1]
            if a.op == 'cat' and rs[0] == EQ: return rs[1]
            if a.op == 'flat' : return NE if NE in rs else UNK
            w = self.why
            self.why, self.unk = sv
        la, lb = len_(a), len_(b)
        r = self.cmp(la, lb, ctx)
        if r != EQ and (a.op == 'flat') != (b.op == 'flat'):
            sv2 = (self.why, self.unk); self.why = self.unk = None
            if self.dropped(a, b, la, lb, ctx): return NE
            self.why, self.unk = sv2
        if r == NE:
            if 'flat' in (a.op, b.op) or has_eta(a) != has_eta(b) :
                self.why = None
                return self.note_unk(a, b, 'sequence form')
            return NE
        i = fresh('i')
        ea, eb = idx(a, i), idx(b, i)
        if ea.op == 'idx' and ea.a[0] is a and eb.op == 'idx' and eb.a[0] is b:
            if a.op == b.op: return self.note_unk(a, b, 'sequence form')
            return self.note_unk(a, b, 'sequence form')
        k = ctx.copy(); k.key = ctx.key | {('b', i.id)}
        k.ints.append({((i, 1),): Fraction(1), (): Fraction(1)})
        k.ints.append(madd(to_poly(la), {((i, 1),): Fraction(-1)}))
        self.path.append('element')
        q = self.cmp(ea, eb, k)
        self.path.pop()
        if r == UNK and q == EQ: return UNK
        return q


_nodes = {}


def nodes_of(t):
    r = _nodes.get(t)
    if r is None:
        r = set(); st = [t]
        while st:
            x = st.pop()
            if x in r: continue
            r.add(x); st.extend(subterms(x))
        if len(_nodes) > 400: _nodes.clear()
        _nodes[t] = r
    return r


def minlen_args(t):
    if t.op == 'call' and t.a[0] == 'minlen':
        r = set()
        for x in t.a[2:]: r |= minlen_args(x)
        return r
    return {t}


def minlen_same(a, b):
    """lengths of zipped sequences: taken to agree with the length of each of them (a precondition of the code)"""
    if (a.op == 'call' and a.a[0] == 'minlen') or (b.op == 'call' and b.a[0] == 'minlen'):
        x, y = minlen_args(a), minlen_args(b)
        if not (x <= y or y <= x): return False
        # only the length of a whole sequence is taken to agree: not a constant, not one element less
        return all(t.op in ('len', 'call', 'f', 'p', 's', 'eta', 'loop', 'idx') for t in (x ^ y))
    return False


SEQ = {'list', 'build', 'fill', 'upd', 'cat', 'slice', 'splice', 'flat'}


def is_arith(t):
    return t.op == 'poly' or isnum(t) or t.op == 'sum' or t is INF or t is NAN


def is_bool(t):
    return t in (TRUE, FALSE) or t.op in ('lt', 'le', 'eq', 'is', 'not', 'isnan', 'exists')


def poly_atoms(p):
    out = []
    for m in p:
        for x, _ in m:
            if x not in out: out.append(x)
    return out


def rat_zero(d, depth=0):
    """zero test after clearing denominators"""
    if d is ZERO: return True
    if depth > 6: return False
    p = to_poly(d)
    den = None
    for m in p:
        for x, e in m:
            if e < 0 and x.op == 'poly': den = (x, -e); break
        if den: break
    if den is None: return False
    x, e = den
    e = max(-k for m in p for y, k in m if y is x and k < 0)
    q = {}
    px = to_poly(x)
    for m, c in p.items():
        k = 0
        rest = []
        for y, f in m:
            if y is x: k = f
            else: rest.append((y, f))
        t = {tuple(rest): c}
        for _ in range(e + k): t = mmul(t, px)
        q = madd(q, t)
        if len(q) > 3000: return False
    return rat_zero(from_poly(q), depth + 1)


LINOPS = {'s', 'p', 'poly', 'idx', 'f', 'len', 'firstor', 'sum', 'call', 'eta'}


def lin_equal(a, b, ctx):
    """a == b as a linear consequence of the equalities of the context"""
    if not ctx.lits or not (a.op in LINOPS or isnum(a)) or not (b.op in LINOPS or isnum(b)): return False
    rows = []
    for t, v in ctx.lits.items():
        if v and t.op == 'eq' and t.a[0] in 'IF': rows.append(to_poly(sub(t.a[1], t.a[2])))
        elif not v and t.op == 'lt' and t.a[0] == 'I' and t.a[1] is ZERO and nonneg(t.a[2]): rows.append(to_poly(t.a[2]))
    if not rows: return False
    d = to_poly(sub(a, b))
    done = []
    for r in rows:
        for m, q in done:
            if m in r: r = madd(r, {k: -v * r[m] / q[m] for k, v in q.items()})
        ms = [m for m in r if m != ()]
        if not ms: continue
        m = ms[0]
        done = [(m2, madd(q, {k: -v * q[m] / r[m] for k, v in r.items()}) if m in q else q) for m2, q in done]
        done.append((m, r))
    for m, q in done:
        if m in d: d = madd(d, {k: -v * d[m] / q[m] for k, v in q.items()})
    return not d


def eq_facts_zero(d, ctx):
    """d == 0 using equalities known in the context"""
    for t, v in ctx.lits.items():
        if v and t.op == 'eq' and t.a[0] in 'IF':
            x, y = t.a[1], t.a[2]
            for p, q in ((x, y), (y, x)):
                if p.op in ('c', 'poly'): continue
                if rat_zero(replace_terms(d, {p: q})): return True
    return False


_condmemo = {}


def conds(t, binders=True):
    """atoms of conditionals inside t; closed ones only when below binders"""
    k = (t, binders)
    r = _condmemo.get(k)
    if r is not None: return r
    out = []; seen = set()
    def at(c):
        if c.op == 'ite':
            for x in c.a: at(x)
        elif c.op == 'not': at(c.a[0])
        elif c.op != 'c':
            if c not in seen:
                seen.add(c); out.append(c)
    visited = set()
    def walk(x, top):
        if x in visited: return
        visited.add(x)
        if x.op == 'ite':
            at(x.a[0])
            walk(x.a[1], top); walk(x.a[2], top)
            for y in list(out): pass
            walk_cond(x.a[0])
            return
        if x.op in BINDERS:
            if not binders: return
        if is_bool(x) and x.op != 'c' and x.op != 'not': at(x) if top else None
        for y in subterms(x): walk(y, False)
    def walk_cond(c):
        for y in subterms(c): walk(y, False)
    walk(t, True)
    if is_bool(t):
        out = [c for c in out if c is not t] + ([t] if binders and t.op not in ('c', 'not') else [])
    out = [c for c in out if not any(f.op == 'bv' for f in c.fv)]
    if not binders: out = [c for c in out if c is not t]
    _condmemo[k] = out
    return out


_loops = {}


def loops_in(t):
    """loop nodes of t that do not depend on bound variables"""
    r = _loops.get(t)
    if r is None:
        out = []; seen = set(); st = [t]
        while st:
            x = st.pop()
            if x in seen or not has_eta(x): continue
            seen.add(x)
            if x.op == 'eta' and not any(f.op == 'bv' for f in x.fv): out.append(x)
            st.extend(subterms(x))
        r = _loops[t] = sorted(out, key=lambda x: x.id)
    return r


_eopen = {}


def open_eta(t, side):
    """opens a loop with symbols that are the same for every root of the same loop"""
    k = (t, side)
    r = _eopen.get(k)
    if r is not None: return r
    syms, (E, I, N) = open_binder(t)
    n = len(syms)
    col = [raw('s', 'col', (I[i].id,)) for i in range(n)]
    for _ in range(3):
        m = dict(zip(syms, col))
        e = replace(E, m).id
        new = [raw('s', 'col', (I[i].id, replace(N[i], m).id, e)) for i in range(n)]
        done = len(set(new)) == len(set(col))
        col = new
        if done and _ > 0: break
    names = []
    cnt = {}
    for c in col:
        cnt[c] = cnt.get(c, 0) + 1
        names.append(raw('s', side, c.a[1] + (cnt[c],)))
    r = _eopen[k] = open_binder(t, names)
    return r


def invariants(syms, E, I, N):
    """inequalities (p > 0) between the integer states and the bounds of the exit condition that hold at the start
    and are kept by every iteration (proved with linear arithmetic)"""
    S = set(syms)
    cand = []
    for c in conds(ite(E, ZERO, ONE), False):
        if c.op not in ('lt', 'eq') or c.a[0] != 'I': continue
        d = to_poly(sub(c.a[2], c.a[1])); n = {m: -v for m, v in d.items()}
        if any(len(m) > 1 or (m and m[0][1] != 1) for m in d): continue
        if not any(m and m[0][0] in S for m in d): continue
        for q in (d, n):
            for k in (0, 1, 2): cand.append(madd(q, {(): k}))
        for m in d:
            if m and m[0][0] in S: cand.append({m: Fraction(1), (): Fraction(1)})
    out = []
    for p in cand:
        if p in out: continue
        t = from_poly(p)
        if linear_false(lt_not(replace(t, dict(zip(syms, I)))), []): out.append(p)
    go = [(E, False)]
    ch = True
    while ch and out:
        ch = False
        for p in list(out):
            nx = replace(from_poly(p), dict(zip(syms, N)))
            if not all_paths(nx, go, out):
                out.remove(p); ch = True
    for s, i, n in zip(syms, I, N):         # sequences that keep their length
        if n.op not in ('upd', 'fill', 'ite', 'build', 'splice', 'eta'): continue
        l = raw('len', s); k = len_(i)
        if k.size > 40 or k.fv & S: continue
        if replace_terms(len_(n), {l: k}) is k:
            d = to_poly(sub(l, k))
            out = out + [madd(d, {(): 1}), madd({m: -v for m, v in d.items()}, {(): 1})]
    return out


def number_states(syms, I, N):
    """states that start as a number and are only ever replaced by one (a side of a comparison that holds is no NaN)"""
    def leaf(t, lits):
        if t in out or numval(t) is not None or t is INF or t is neg(INF) or nonnan(t): return True
        for c, v in lits:
            while c.op == 'not': c, v = c.a[0], not v
            if v and c.op in ('lt', 'le', 'eq') and c.a[0] == 'F' and t in c.a[1:]: return True
            if not v and c.op == 'isnan' and c.a[0] is t: return True
        return False
    def walk(t, lits, fuel):
        if fuel[0] <= 0: return False
        fuel[0] -= 1
        if t.op == 'ite': return walk(t.a[1], lits + ((t.a[0], True),), fuel) and walk(t.a[2], lits + ((t.a[0], False),), fuel)
        return leaf(t, lits)
    out = {s for s, i in zip(syms, I) if i in (INF, neg(INF)) or numval(i) is not None}
    ch = True
    while ch and out:
        ch = False
        for s, n in zip(syms, N):
            if s in out and not walk(n, (), [200]): out.discard(s); ch = True
    return out


def lt_not(t): return int_pos(madd({m: -v for m, v in to_poly(t).items()}, {(): 1}))


def linear_false(t, pos, c=None):
    """t cannot hold where the polynomials of pos are positive"""
    c = (c or Ctx()).copy(); c.ints = c.ints + list(pos)
    r = c.value(t)
    if r is not None: return r is False
    c = c.assume(t, True)
    if c is None: return True
    cons, neq = linear_facts(c)
    for p in list(c.ints):
        for m in p:
            if m and m[0][0].op == 'call' and m[0][0].a[0] == 'idiv' and isnum(m[0][0].a[3]):
                q = m[0][0]; k = q.a[3].a[1]; n = to_poly(q.a[2])
                low = madd(n, {m: -k})
                cons += [(low, False), (madd({x: -v for x, v in low.items()}, {(): k - 1}), False)]
    return infeas(cons, neq)


def infeas(cons, neq):
    if infeasible(cons): return True
    for d, integer in neq[:6]:
        n = {m: -v for m, v in d.items()}
        if all(infeasible(cons + [(madd(x, {(): -1}) if integer else x, not integer)]) for x in (d, n)): return True
    return False


def all_paths(nx, go, pos, budget=None):
    """nx > 0 on every path on which the conditions hold"""
    budget = budget or [64]
    st = [(nx, [], Ctx())]
    first = go[0][0]
    st = []
    def spread(E, want, c, k):
        if budget[0] <= 0: return False
        if E is TRUE or E is FALSE: return (E is TRUE) != want or k(c)
        if E.op == 'ite':
            for v in (True, False):
                budget[0] -= 1
                d = spread(E.a[0], v, c, lambda c2, v=v: spread(E.a[1] if v else E.a[2], want, c2, k))
                if not d: return False
            return True
        d = c.assume(E, want)
        return d is None or k(d)
    def walk(t, c):
        cs = conds(t, False)
        if not cs: return linear_false(lt_not(t), pos, c)
        x = cs[0]
        for v in (True, False):
            budget[0] -= 1
            if budget[0] <= 0: return False
            d = c.assume(x, v)
            if d is not None and not walk(replace_terms(t, {x: boolean(v)}), d): return False
        return True
    c = Ctx(); c.ints = list(pos)
    return spread(first, go[0][1], c, lambda d: walk(nx, d))


_inv = {}


def eta_invariants(t):
    """inequalities (p > 0) on the value of a loop state"""
    r = _inv.get(t)
    if r is None:
        _inv[t] = []
        syms, (E, I, N) = open_binder(t)
        r = _inv[t] = [madd({k: v for k, v in to_poly(replace(from_poly(p), {syms[0]: t})).items()}, {})
                       for p in invariants(syms, E, I, N) if from_poly(p).fv & set(syms) == {syms[0]}] if len(syms) < 9 else []
    return r


def peeled_at(t):
    if t.op == 'eta': return peeled(t)
    if t.op == 'idx' and t.a[0].op == 'eta':
        def at(x):
            if x is MORE: return x
            if x.op == 'ite': return ite(x.a[0], at(x.a[1]), at(x.a[2]))
            return idx(x, t.a[1])
        x = peeled(t.a[0])
        return at(x) if x is not None else None
    return t


MORE = raw('c', 'more', 0)
_peeled = {}


def peeled(t, n=2):
    if t in _peeled: return _peeled[t]
    syms, (E, I, N) = open_binder(t)
    st = list(I); levels = []
    r = MORE
    for i in range(n + 1):
        m = dict(zip(syms, st))
        levels.append((replace(E, m), st[0]))
        if sum(x.size for x in st) > 30000: break
        if i < n: st = [replace(x, m) for x in N]
    for e, v in reversed(levels): r = ite(e, v, r)
    _peeled[t] = r
    return r


_bindmemo = {}


def has_binder(t):
    r = _bindmemo.get(t)
    if r is None:
        r = t.op in BINDERS or any(has_binder(x) for x in subterms(t))
        _bindmemo[t] = r
    return r


_etamemo = {}


def has_eta(t):
    r = _etamemo.get(t)
    if r is None:
        r = t.op == 'eta' or any(has_eta(x) for x in subterms(t))
        _etamemo[t] = r
    return r


_ops = {}


def ops_of(t):
    r = _ops.get(t)
    if r is not None: return r
    r = set()
    if t.op == 'call': r.add(('call', t.a[0]))
    elif t.op == 'f': r.add(('f', t.a[0]))
    elif t.op == 'agg': r.add(('agg', t.a[0], t.a[1]))
    elif t.op == 'is': r.add(('is', t.a[0]))
    elif t.op == 'konst': r.add(('konst', t.a[0]))
    elif t.op == 'with':
        for n, _ in t.a[1]: r.add(('f', n))
    elif t.op in ('seq', 'closure', 'lamfn', 'fn', 'ref'): r.add(('odd', t.op))
    for x in subterms(t): r |= ops_of(x)
    r = frozenset(r)
    _ops[t] = r
    return r


NUMERIC = {'BitXor', 'BitAnd', 'BitOr', 'exp', 'ln', 'sqrt', 'abs', 'floor', 'ceil', 'round', 'trunc', 'signum', 'powi', 'powf', 'idiv', 'irem', 'frem',
           'is_finite', 'inv0', 'div0', 'minlen', 'ceildiv', 'nchunks', 'map_get', 'map_has', 'map_insert', 'map_new', 'map_extend', 'sort_by', 'sort', 'log2', 'log10', 'tanh', 'f32', 'wide',
           'cast_u16', 'cast_u8', 'cast_u32', 'cast_i32', 'unbounded', 'is_infinite', 'cbrt', 'sin', 'cos', 'min_by', 'max_by', 'bitnot', 'to_string', 'strcat', 'fits', 'rev', 'is_sign_negative'}
STDAGG = {'View', 'tuple', 'Option', 'Result', 'Ordering', 'Range', 'ControlFlow', 'RangeInclusive', 'RangeFrom', 'RangeTo', 'array'}


def unknown_ops(t, vocab):
    for o in ops_of(t):
        if o in vocab: continue
        if o[0] == 'call' and o[1] in NUMERIC: continue
        if o[0] == 'agg' and o[1] in STDAGG: continue
        if o[0] == 'f' and o[1].isdigit(): continue
        if o[0] == 'is' and o[1] in ('Some', 'Ok', 'Less', 'Greater', 'Equal', 'Continue', 'None', 'Err'): continue
        return o
    return None
