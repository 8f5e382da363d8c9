"""Feasibility of a conjunction of linear constraints (Fourier-Motzkin elimination with exact rationals)."""
from fractions import Fraction


def infeasible(cons, limit=160):
    """cons: list of (poly {monomial: coefficient}, strict); poly > 0 when strict, else poly >= 0"""
    cur = {}
    def put(p, s):
        p = {m: Fraction(v) for m, v in p.items() if v}
        ms = [m for m in p if m != ()]
        if not ms:
            c = p.get((), Fraction(0))
            return c < 0 or (s and c == 0)
        k = max(abs(p[m]) for m in ms)
        lin = frozenset((m, p[m] / k) for m in ms); c = p.get((), Fraction(0)) / k
        o = cur.get(lin)
        if o is None or (c, not s) < (o[0], not o[1]): cur[lin] = (c, s)
        return False
    for p, s in cons:
        if put(p, s): return True
    while cur:
        cnt = {}
        for lin in cur:
            for m, v in lin:
                a = cnt.setdefault(m, [0, 0]); a[0 if v > 0 else 1] += 1
        m = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1])
        pos = []; neg = []; rest = []
        for lin, (c, s) in cur.items():
            d = dict(lin); d[()] = c
            (pos if d.get(m, 0) > 0 else neg if d.get(m, 0) < 0 else rest).append((d, s))
        if len(pos) * len(neg) + len(rest) > limit: return False
        cur = {}
        for d, s in rest:
            if put(d, s): return True
        for p, s in pos:
            for q, t in neg:
                a, b = -q[m], p[m]
                r = {}
                for k in set(p) | set(q):
                    v = p.get(k, 0) * a + q.get(k, 0) * b
                    if v: r[k] = v
                if put(r, s or t): return True
    return False
