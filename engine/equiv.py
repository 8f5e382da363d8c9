"""Function-by-function comparison of the repository with the reference crate."""
import functools, collections
import sys, time
sys.setrecursionlimit(30000)
from mir import Program
from evalm import Eval, Unsupported, Diverge
from cmp import Comparator, EQ, NE, UNK, ops_of, has_eta
from terms import *
import assume


def keyed(P, crates=None):
    d = {}
    for f in P.fns.values():
        if f.derived or f.kind not in ('Fn', 'AssocFn') or '::test' in f.path: continue
        if crates and f.crate not in crates: continue
        d.setdefault(f.key, f)
    return d


def sig(f):
    import json, re
    b = f.body
    t = [b['locals'][i]['ty'] for i in range(b['argc'] + 1)]
    return re.sub(r'\b(forust_ml|specpy|spec|forust)::', '', json.dumps(t, sort_keys=True))


class Verdict:
    def __init__(self, r, outs):
        self.r = r; self.outs = outs      # outs: list of (output, result, why, unk)


def effects(P, f, outs):
    reads = {}; mods = {}
    for i in range(1, f.body['argc'] + 1):
        t = f.body['locals'][i]['ty']
        ref = t.get('k') == 'ref'
        if ref: t = t['t']
        if t.get('k') != 'adt' or t['p'] not in P.adts or P.adts[t['p']]['enum']: continue
        p = param('a%d' % i)
        rd = set()
        todo = []
        if i in outs:
            ws = writes(outs[i], p)
            if ws is None: continue
            mods[i - 1] = frozenset(ws[0]); todo += ws[1]
            if ws[2]: rd |= ws[0]
        todo += [v for o, v in outs.items() if o != i]
        if uses(todo, p, rd): reads[i - 1] = frozenset(rd)
        else: mods.pop(i - 1, None)
    return (reads, mods) if reads else None


def writes(t, p):
    """(fields written, terms evaluated, whether some field is written on some paths only)"""
    if t is p: return set(), [], False
    if t.op == 'with' and t.a[0] is p: return {n for n, _ in t.a[1]}, [v for _, v in t.a[1]], False
    if t.op == 'ite':
        a, b = writes(t.a[1], p), writes(t.a[2], p)
        if a is None or b is None: return None
        return a[0] | b[0], [t.a[0]] + a[1] + b[1], a[2] or b[2] or a[0] != b[0]
    return None


def uses(ts, p, rd):
    seen = set(); st = list(ts)
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t is p: return False
        if t.op == 'f' and t.a[1] is p:
            rd.add(t.a[0]); continue
        st.extend(subterms(t))
    return True


PLAIN = {'exp', 'ln', 'f32', 'map_new'}


def nodes(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st.extend(subterms(x))
    return seen


# functions whose only panic is a refusal that users rely on: that they refuse the same inputs is an output like any other
REFUSE = ('is_missing', 'GradientBooster::predict_contributions')


class Equiv:
    def __init__(self, R, S):
        self.R, self.S = R, S
        self.kr, self.ks = keyed(R), keyed(S)
        self.anchors = {k for k in set(self.kr) & set(self.ks) if sig(self.kr[k]) == sig(self.ks[k])}
        self.sigdiff = {k for k in set(self.kr) & set(self.ks)} - self.anchors
        self._ev = {}
        self._vocab = None
        self._base = None
        self._sum = {}; self._open = set(); self._cyclic = set()
        self.seconds = 120
        self.deep_seconds = 60
        self._len = {}
        self._idem = {}
        LENHOOK[0] = self.length
        IDEMHOOK[0] = self.idempotent

    def eval(self, side, k, opaque):
        key = (side, k, opaque)
        if key not in self._ev:
            P = self.R if side == 'r' else self.S
            f = (self.kr if side == 'r' else self.ks)[k]
            e = Eval(P, opaque=opaque - {k}, summary=self.summary)
            try:
                self._ev[key] = (e.function(f), e, None)
            except (Unsupported, Diverge) as x:
                self._ev[key] = (None, e, '%s: %s' % (type(x).__name__, x))
            except RecursionError as x:
                self._ev[key] = (None, e, 'recursion')
        return self._ev[key]

    def length(self, t):
        """the length of what a function of the reference returns, where it depends on the arguments in a simple way"""
        k = t.a[0]
        if k not in self.anchors or k not in self.ks: return None
        if k not in self._len:
            self._len[k] = None
            o = self.ks[k].body['locals'][0]['ty']
            if o.get('k') == 'adt' and o['p'].endswith('vec::Vec'):
                r, e, err = self.eval('s', k, frozenset(self.anchors))
                if r is not None and set(r) == {'ret'}:
                    n = len_(r['ret'])
                    if n.size < 12 and all(x.op in ('p', 'f', 'poly', 'c', 'num') or x.op == 'len' and x.a[0].op in ('p', 'f') for x in nodes(n)): self._len[k] = n
        n = self._len[k]
        if n is None or n.op == 'c': return n
        return replace_terms(n, {param('a%d' % (i + 1)): x for i, x in enumerate(t.a[2:])})

    def idempotent(self, k):
        """in the reference, a second call with the same arguments returns the same and leaves its first argument as it is"""
        if k not in self.anchors or k not in self.ks: return False
        if k not in self._idem:
            self._idem[k] = False
            r, e, err = self.eval('s', k, frozenset(self.anchors))
            if r is not None and set(r) == {'ret', 1} and sum(t.size for t in r.values()) < 60 and not any(has_eta(t) for t in r.values()):
                m = {param('a1'): r[1]}
                self._idem[k] = all(Comparator(self.vocab(), seconds=5).compare(replace_terms(r[o], m), r[o]) == EQ for o in r)
        return self._idem[k]

    def summary(self, k):
        """({parameter: fields read}, {parameter: fields written}) of a function of the reference, for its record parameters"""
        if k not in self.anchors or k in self._cyclic: return None
        if k in self._sum: return self._sum[k]
        if k in self._open:
            self._cyclic.add(k)
            return None
        self._open.add(k)
        r, e, err = self.eval('s', k, frozenset(self.anchors))
        self._open.discard(k)
        self._sum[k] = None if r is None or k in self._cyclic else effects(self.S, self.ks[k], r)
        return self._sum[k]

    def base(self):
        """the functions that stay uninterpreted: all but constructors, setters and formulas without branches"""
        if self._base is None:
            def plain(side, k):
                r, e, err = self.eval(side, k, frozenset(self.anchors))
                if r is None or sum(t.size for t in r.values()) > 25: return False
                return all(x.op in ('p', 'c', 'num', 'f', 'agg', 'with', 'poly', 'list') or
                           (x.op == 'call' and x.a[0] not in self.anchors and x.a[0] in PLAIN) or x is UNIT
                           for t in r.values() for x in nodes(t))
            t = {k for k in self.anchors if k.split('::')[0] not in ('Splitter', 'Sampler', 'Grower') and plain('s', k) and plain('r', k)}
            self._base = frozenset(self.anchors) - t
        return self._base

    def vocab(self):
        if self._vocab is None:
            v = set()
            for k in sorted(self.ks):
                r, e, err = self.eval('s', k, frozenset(self.anchors))
                if r:
                    for t in r.values(): v |= ops_of(t)
            for k in self.anchors: v.add(('call', k))
            for n in TURN: v.add(('call', n))
            for a in self.S.adts.values():          # every field and variant of the model's types
                if a['local']:
                    for w in a['v']:
                        if a['enum']: v.add(('is', w['n']))
                        for x in w['f']: v.add(('f', x['n']))
            self._vocab = v
        return self._vocab

    def compare(self, k, opaque, seconds=None):
        a, ea, xa = self.eval('r', k, opaque)
        b, eb, xb = self.eval('s', k, opaque)
        if a is None and b is not None and xa.startswith('Diverge'):
            return Verdict(NE, [('all', NE, ([], UNDEF, UNDEF, {}, 'a loop without an exit: the function does not return'), None)])
        if a is None or b is None: return Verdict(UNK, [('all', UNK, None, xa or xb)])
        outs = []; worst = EQ
        rw = assume.rewriting(k, self.ks[k]); fa = assume.facts(k)
        assume.ON[0] = 'validate' not in k
        assume.bounds(k)
        for o in sorted(set(a) | set(b), key=str):
            if o not in a or o not in b:
                outs.append((o, UNK, None, 'no such output')); worst = worst if worst == NE else UNK
                continue
            C = Comparator(self.vocab(), seconds=seconds or self.seconds, req=[replace_terms(q, rw) for q in eb.req] if rw else eb.req)
            try:
                x, y = (replace_terms(a[o], rw), replace_terms(b[o], rw)) if rw else (a[o], b[o])
                r = C.compare(x, y, fa)
            except RecursionError: r = UNK
            outs.append((o, r, C.why if r == NE else None, C.unk if r == UNK else None))
            if r == NE: worst = NE
            elif r == UNK and worst == EQ: worst = UNK
        if k in REFUSE:
            x, y = functools.reduce(and_, ea.req, TRUE), functools.reduce(and_, eb.req, TRUE)
            if x is not y:
                C = Comparator(self.vocab(), seconds=10)
                r = C.compare(x, y, fa)
                if r == NE and (ea.dropped or eb.dropped or not all(n.op in ('ite', 'is', 'isnan', 'not', 'p', 'f', 'c', 'eq') for n in nodes(x))): r = UNK
                outs.append(('refusal', r, C.why if r == NE else None, C.unk if r == UNK else None))
                if r == NE: worst = NE
                elif r == UNK and worst == EQ: worst = UNK
        odd = (ea.recursive | eb.recursive) - self.anchors
        if worst == NE and odd:          # a recursive function without a counterpart: its own calls can not be matched
            worst = UNK; outs = [(o, UNK if r == NE else r, None, 'recursive without a counterpart: ' + ', '.join(sorted(odd))) for o, r, w, u in outs]
        return Verdict(worst, outs)

    def onesided(self, why, op):
        """the difference is one between the result of a call and another expression"""
        if why is None: return False
        c = [{x.a[0] for x in nodes(t) if x.op == 'call' and x.a[0] in op} for t in why[1:3]]
        return bool(c[0]) != bool(c[1])

    def loopfree(self, k):
        from mir import CFG
        for side, d in (('r', self.kr), ('s', self.ks)):
            f = d[k]
            if 'cfg' not in f.body: f.body['cfg'] = CFG(f.body)
            if len(f.body['blocks']) > 80: return False
            if f.body['cfg'].loops:          # or loops that have a closed form
                r, e, err = self.eval(side, k, frozenset(self.anchors))
                if r is None or sum(t.size for t in r.values()) > 80 or any(has_eta(t) for t in r.values()): return False
        return True

    def callees(self, k, opaque):
        out = set()
        for s in 'rs':
            _, e, _ = self.eval(s, k, opaque)
            out |= {c[0] for c in e.calls}
        return out

    def mentions(self, side, k):
        """keys of functions named in the body (function values)"""
        import json
        P = self.R if side == 'r' else self.S
        f = (self.kr if side == 'r' else self.ks)[k]
        c = self.__dict__.setdefault('_ment', {})
        if (side, k) not in c:
            t = json.dumps(f.body)
            d = self.kr if side == 'r' else self.ks
            c[side, k] = {x for x, g in d.items() if '"%s"' % g.path in t}
        return c[side, k]

    def verdict(self, k):
        r, h = self.verdict_(k)
        if r != EQ and k.startswith('VecDeque::') and self.mirrored():
            h.append(('queue turned round', Verdict(EQ, [])))
            return EQ, h
        return r, h

    def mirrored(self):
        """the queue of the depth wise policy, which only these functions touch, is turned round in all of them"""
        ks = [k for k in self.anchors if k.startswith('VecDeque::')]
        op = frozenset(self.anchors)
        for k in ks:
            a, _, _ = self.eval('r', k, op); b, _, _ = self.eval('s', k, op)
            if a is None or b is None or set(a) != set(b): return False
            for o in a:
                if Comparator(self.vocab(), seconds=10).compare(turned(a[o]), b[o]) != EQ: return False
        return True

    def verdict_(self, k):
        """-> (result, list of (level, Verdict))"""
        op0 = self.base()
        v = self.compare(k, op0)
        hist = [('callees opaque', v)]
        if v.r == EQ: return EQ, hist
        op = op0
        n = [collections.Counter(c[0] for c in set(self.eval(s, k, op)[1].calls)) for s in 'rs']
        d = {c for c in n[0] if c in n[1] and n[0][c] != n[1][c] and c in op and c != k}
        if d:                        # as is one that it names more often
            v = self.compare(k, op - d)
            hist.append(('callees named more often on one side ' + ','.join(sorted(d)), v))
            if v.r == EQ: return EQ, hist
        for _ in range(3):           # a callee that only one side names is part of the difference
            cs = []
            for s in 'rs':
                _, e, _ = self.eval(s, k, op)
                cs.append({c[0] for c in e.calls} & op)
            d = (cs[0] ^ cs[1]) - {k}
            if not d: break
            op = op - d
            v = self.compare(k, op)
            hist.append(('one-sided callees ' + ','.join(sorted(d)), v))
            if v.r == EQ: return EQ, hist
        bv = [h for h in hist if 'more often' not in h[0]][-1][1]; base = bv.r
        def deeper(op):
            for lev in (1, 2):
                c = {x for x in self.callees(k, op) & op if x != k and self.loopfree(x)}
                if not c: break
                op = op - c
                w = self.compare(k, op)
                hist.append(('inlined ' + ','.join(sorted(c)), w))
                if w.r == EQ: return
        try:
            if base == NE: limit(self.deep_seconds, deeper, op)
            else: deeper(op)
        except TimeoutError: hist.append(('time limit of the deeper levels', Verdict(UNK, [])))
        rs = [h[1].r for h in hist]
        if EQ in rs: return EQ, hist
        # both sides name the same callees there: a difference at that level is one of arguments or order,
        # unless putting the bodies in shows otherwise
        if base == NE and rs[-1] == UNK and 'time' not in hist[-1][0] and all(self.onesided(x[2], op) for x in bv.outs if x[1] == NE):
            return UNK, hist
        return (NE if base == NE or rs[-1] == NE else UNK), hist


TURN = {'push_front': 'push_back', 'pop_front': 'pop_back', 'front': 'back', 'front_mut': 'back_mut'}
TURN.update({v: k for k, v in list(TURN.items())})


def turned(t):
    if t.op == 'call' and isinstance(t.a[0], str):
        h, _, r = t.a[0].partition('#'); q = h.split('::'); n = TURN.get(q[-1], q[-1])
        return call('::'.join(q[:-1] + [n]) + _ + r, *[turned(x) for x in t.a[2:]])
    return replace_terms(t, {x: turned(x) for x in subterms(t)}) if subterms(t) else t


def limit(seconds, f, *a):
    import signal
    def h(*_): raise TimeoutError()
    left = signal.alarm(0)
    old = signal.signal(signal.SIGALRM, h)
    t = time.time()
    signal.alarm(max(1, int(min(seconds, left) if left else seconds)))
    try: return f(*a)
    finally:
        signal.alarm(0); signal.signal(signal.SIGALRM, old)
        if left: signal.alarm(max(1, int(left - (time.time() - t))))
