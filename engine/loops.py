"""Loop abstraction: closed forms for counted loops (sum / build / flat / exists / fill), fixed-point nodes otherwise."""
from terms import *
from bdd import BDD


def diff(old, new, path, out):
    if old is new: return
    if old.op == 'closure' and new.op == 'closure' and old.a[:2] == new.a[:2]:
        for i, (x, y) in enumerate(zip(old.a[2:], new.a[2:])): diff(x, y, path + (('f', str(i)),), out)
        return
    if new.op == 'ite':
        o2 = []
        diff(old, new.a[1], path, o2); diff(old, new.a[2], path, o2)
        if all(len(p) > len(path) for p in o2):
            out.extend(p for p in o2 if p not in out)
            return
    bo, mo = with_parts(old); bn, mn = with_parts(new)
    if bo is bn:
        for n in sorted(set(mo) | set(mn)): diff(field(old, n), field(new, n), path + (('f', n),), out)
        return
    if old.op == 'agg' and new.op == 'agg' and old.a[:3] == new.a[:3] and old.a[1] != 'Some':
        for n, x, y in zip(old.a[2], old.a[3:], new.a[3:]): diff(x, y, path + (('f', n),), out)
        return
    out.append(path)


def solve(ev, body, st):
    from evalm import Unsupported, Diverge
    mods = {}
    nokind = set()
    for rnd in range(24):
        s0 = dict(st)
        for (cell, path), sym in mods.items():
            s0[cell] = ev.set(s0[cell], path, sym)
        ev.guards.append([])
        ex = body(dict(s0))
        guards = ev.guards.pop()
        back = [e for e in ex if e[0] == 'back']
        if not back:
            outs = [e for e in ex if e[0] != 'back']
            if not mods or True:
                return [(t, c, s) for t, c, s in outs]
        _, bc, sb = back[0]
        new = False
        for cell in st:
            if cell not in sb: continue
            ps = []
            diff(s0[cell], sb[cell], (), ps)
            for p in ps:
                if any(c == cell and p[:len(q)] == q for (c, q) in mods): continue
                for (c, q) in [k for k in mods if k[0] == cell and k[1][:len(p)] == p]: del mods[(c, q)]
                mods[(cell, p)] = fresh('m'); new = True
                if hasattr(ev, 'kind'): ev.setkind(mods[(cell, p)], ev.kind(ev.get(st[cell], p)) if (cell, p) not in nokind else None)
        if not new:
            if not hasattr(ev, 'kind'): break
            # what the state was taken to be (list, map) has to stay so
            wrong = [k for k, sym in mods.items() if ev.kind(sym) and ev.kind(ev.get(sb[k[0]], k[1])) != ev.kind(sym)]
            if not wrong: break
            nokind.update(wrong); mods = {}
    else:
        raise Unsupported('loop fixpoint')
    exits = [e for e in ex if e[0] != 'back']
    if not exits: raise Diverge()
    syms = {}
    for (cell, path), sym in mods.items():
        syms[sym] = (ev.get(st[cell], path), ev.get(sb[cell], path))
    exempt = set()
    for G, B0, it in guards:
        # iterations whose element is filtered out change nothing but the iterator position
        base = B0.a[0] if B0.op == 'not' else B0
        pol = B0.op != 'not'
        ex_sym = set()
        for (cell, path), sym in mods.items():
            if it.op == 'ref' and it.a[0] == cell and path[:len(it.a[1])] == it.a[1]: ex_sym.add(sym)
        syms = {s: (i, n if s in ex_sym else ite(G, n, s)) for s, (i, n) in syms.items()}
        exits = [(t, ite(B0, and_(G, replace_terms(c, {base: boolean(pol)})), replace_terms(c, {base: boolean(not pol)})), s) for t, c, s in exits]
        bc = ite(B0, ite(G, replace_terms(bc, {base: boolean(pol)}), TRUE), FALSE)
    for s, (i, n) in syms.items():
        if i.op == 'ref' or n.op == 'ref' or ev.contains_ref(n):
            # a mutable reference that changes inside the loop and is live: give up only if it is used
            pass
    bdd = BDD()
    cb = bdd.of(bc); ce = [bdd.of(c) for _, c, _ in exits]
    call_ = ce[0]
    for c in ce[1:]: call_ = bdd.or_(call_, c)
    sel = bdd.selector([cb, call_])
    E = bdd.select(sel, [FALSE, TRUE])
    sel2 = bdd.selector(ce)
    econds = [bdd.select(sel2, [boolean(j == i) for j in range(len(ce))]) for i in range(len(ce))]
    # the next state only matters where the loop goes on
    for x in set(atoms(bc)):
        for val in (True, False):
            if bdd.and_(cb, bdd.of(x if val else not_(x))) is bdd.F:
                m = {x: boolean(not val)}
                syms = {y: (i, replace_terms(n, m) if n.op in ('ite', 'cat', 'call', 'agg') else n) for y, (i, n) in syms.items()}
                break
    # ---------------- closed forms
    it = fresh('n')
    unsolved = dict(syms)
    solved = {}
    # vectors whose length is preserved by every iteration: len(sym) = len(init)
    lenmap = {}
    for s, (i, n) in syms.items():
        if n.op in ('upd', 'splice', 'ite', 'fill') and len_chk(n, s): lenmap[raw('len', s)] = len_(i)
    for x in len_terms([E] + econds + [n for _, n in syms.values()]):
        r = x
        while r.op in ('f', 'as'): r = r.a[1]
        if r not in syms or raw('len', x) in lenmap: continue
        i, n = syms[r]
        try: y = len_(replace(x, {r: n}))
        except Exception: continue
        if y is raw('len', x): lenmap[raw('len', x)] = len_(replace(x, {r: i}))
    if lenmap:
        unsolved = {s: (i, replace_terms(n, lenmap)) for s, (i, n) in unsolved.items()}
        E = replace_terms(E, lenmap)
        econds = [replace_terms(c, lenmap) for c in econds]
    progress = True
    while progress:
        progress = False
        for s in list(unsolved):
            init, nx = unsolved[s]
            nx = replace(nx, solved) if solved else nx
            others = (nx.fv & frozenset(unsolved)) - {s}
            if others:
                # may still be solvable if s itself is simple and others do not matter
                continue
            c = closed(s, init, nx, it)
            if c is not None:
                solved[s] = c; del unsolved[s]; progress = True
    # a state that walks over the elements of an unchanging sequence is the index it stands at
    for s in list(unsolved):
        init, nx = unsolved[s]
        if init.op != 'idx' or (init.a[0].fv & frozenset(syms)): continue
        X = init.a[0]
        k = fresh('k'); at = idx(X, k)
        def pos(t):
            if t is s: return k
            if t.op == 'ite':
                a, b = pos(t.a[1]), pos(t.a[2])
                return None if a is None or b is None else ite(t.a[0], a, b)
            return t.a[1] if t.op == 'idx' and t.a[0] is X else None
        e = pos(nx)
        if e is None: continue
        solved = {y: replace(v, {s: at}) for y, v in solved.items()}
        solved[s] = at; del unsolved[s]
        unsolved[k] = (init.a[1], e)
    # a count or a total kept beside a growing sequence
    for s in list(unsolved):
        init, nx = unsolved[s]
        if not is_number(init): continue
        for y in list(unsolved):
            yi, yn = unsolved[y]
            if y is s or yn.op not in ('cat', 'ite') or yi.op not in ('list', 'f', 'p', 'cat', 'build'): continue
            for F in (len_, total):
                if F(yi) is init and replace(nx, {s: F(y)}) is F(yn):
                    solved = {x: replace(v, {s: F(y)}) for x, v in solved.items()}
                    solved[s] = F(y); del unsolved[s]
                    break
            if s in solved: break
    # resolve chains between solved forms
    if solved:
        E = replace(E, solved)
        econds = [replace(c, solved) for c in econds]
        unsolved = {s: (i, replace(n, solved)) for s, (i, n) in unsolved.items()}
    us = frozenset(unsolved)
    n, b = bound(E, it)
    istar = None
    if not (E.fv & us):
        if n is None:
            n, b = call('unbounded'), E
        istar = n if b is FALSE else firstor([it], n, b)
    res = []
    etas = {}

    def eta(s):
        if s in etas: return etas[s]
        # reachable subsystem
        need = []
        def visit(t):
            for x in sorted(t.fv & (us | {it}), key=lambda y: y.id):
                if x not in need:
                    need.append(x)
                    if x is not it: visit(unsolved[x][1])
        visit(s); visit(E)
        if s not in need: need.insert(0, s)
        # canonical order: target first, then discovery order
        need.remove(s); need.insert(0, s)
        inits = tuple(ZERO if x is it else unsolved[x][0] for x in need)
        nexts = tuple(add(it, ONE) if x is it else unsolved[x][1] for x in need)
        etas[s] = mk_eta(need, E, inits, nexts)
        return etas[s]

    def final(t):
        m = {}
        for x in t.fv:
            if x in us: m[x] = eta(x)
            elif x is it: m[x] = istar if istar is not None else eta(it)
        return replace(t, m) if m else t

    for (t, c, s), ec in zip(exits, econds):
        ns = {}
        for k, v in s.items():
            if lenmap: v = replace_terms(v, lenmap)
            if v.fv:
                v = replace(v, solved)
                if istar is not None and istar is not n and b.op != 'ite':      # where the loop stops early, the condition holds
                    x = b.a[0] if b.op == 'not' else b
                    w = firstor_exists(istar) if istar.op == 'firstor' else None
                    if w is not None and x in conds_of(v): v = replace_terms(v, {x: w if b.op != 'not' else not_(w)})
                v = final(v)
            ns[k] = v
        cc = TRUE if len(exits) == 1 else final(ec)
        res.append((t, cc, ns))
    return res


def len_chk(n, s):
    if n is s: return True
    if n.op == 'upd' or n.op == 'splice': return len_chk(n.a[0], s)
    if n.op == 'fill': return len_chk(n.a[2], s)
    if n.op == 'ite': return len_chk(n.a[1], s) and len_chk(n.a[2], s)
    if n.op == 'eta':
        # inner loop over the same vector: every next preserves the length
        syms, (E, inits, nexts) = open_binder(n)
        return len_chk(inits[0], s) and len_chk(nexts[0], syms[0])
    return False


def bisection(syms, E, inits, nexts):
    """the search for the first index at which a (monotone) condition fails, by halving the interval that starts at 0"""
    for L, H in ((0, 1), (1, 0)):
        l, h = syms[L], syms[H]
        if inits[L] is not ZERO: continue
        if not any(E is x for x in (eq('I', l, h), le('I', h, l), not_(lt('I', l, h)))): continue
        nl, nh = nexts[L], nexts[H]
        if nl.op != 'ite' or nh.op != 'ite' or nl.a[0] is not nh.a[0]: continue
        mid = call('idiv', add(l, h), num(2)); P = nl.a[0]
        if nl.a[1] is add(mid, ONE) and nl.a[2] is l and nh.a[1] is h and nh.a[2] is mid: pass
        elif nl.a[2] is add(mid, ONE) and nl.a[1] is l and nh.a[2] is h and nh.a[1] is mid: P = not_(P)
        else: continue
        k = fresh('k')
        P = replace_terms(P, {mid: k})
        if l in P.fv or h in P.fv: continue
        return firstor([k], inits[H], not_(P))
    return None


def mk_eta(syms, E, inits, nexts):
    if len(syms) == 2:
        r = bisection(syms, E, inits, nexts)
        if r is not None: return r
    return binder('eta', syms, E, inits, nexts)


def len_terms(ts):
    out = []; seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == 'len' and t.a[0].op in ('f', 'as'): out.append(t.a[0])
        st.extend(subterms(t))
    return sorted(set(out), key=lambda x: x.id)


def bound(E, it):
    """E <=> it >= n  or  ite(it < n, b, true): returns (n, b)"""
    if it not in E.fv: return None, None
    if E.op == 'ite' and it not in E.a[0].fv:
        n1, b1 = bound(E.a[1], it); n2, b2 = bound(E.a[2], it)
        if n1 is not None and n2 is not None:
            return ite(E.a[0], n1, n2), ite(E.a[0], b1, b2)
        return None, None
    for a in atoms(E):
        if it not in a.fv: continue
        for pol in (True, False):
            if replace_terms(E, {a: boolean(pol)}) is TRUE:
                # E holds when a==pol ; loop continues only if a != pol
                cont = not_(a) if pol else a
                d = int_d(cont)
                if d is None:
                    if a.op == 'eq' and a.a[0] == 'I' and pol:
                        df = to_poly(sub(a.a[2], a.a[1]))
                        c = df.get(((it, 1),), 0)
                        if abs(c) == 1:
                            n = add(mul(num(-1 / c), from_poly(df)), it)
                            if it not in n.fv: return n, replace_terms(E, {a: boolean(not pol)})
                    continue
                c = d.get(((it, 1),), 0)
                if c >= 0: continue
                # c*it + r > 0  <=> it < r/(-c)
                r = madd(d, {((it, 1),): -c})
                n = from_poly(r)
                if it in n.fv: continue
                if c == -1: nn = n
                else: nn = ceildiv(n, num(-c))
                b = replace_terms(E, {a: boolean(not pol)})
                return nn, b
    return None, None


def total(v):
    if v.op == 'list':
        r = ZERO
        for x in v.a: r = add(r, x)
        return r
    if v.op == 'ite': return ite(v.a[0], total(v.a[1]), total(v.a[2]))
    j = fresh('b')
    return sum_([j], len_(v), idx(v, j))


def is_number(t): return isnum(t) or t.op in ('poly', 'len', 'sum', 'f', 'p')


def conds_of(t):
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'ite': out.update(atoms(x.a[0]))
        st.extend(subterms(x))
    return out


def atoms(E, out=None):
    if out is None: out = []
    if E.op == 'ite':
        for x in E.a: atoms(x, out)
    elif E.op == 'not': atoms(E.a[0], out)
    elif E.op != 'c':
        if E not in out: out.append(E)
    return out


def strip_add(nx, s):
    """nx = s + e with e free of s -> e"""
    if nx is s: return ZERO
    if nx.op == 'ite':
        if s in nx.a[0].fv: return None
        a = strip_add(nx.a[1], s); b = strip_add(nx.a[2], s)
        if a is None or b is None: return None
        return ite(nx.a[0], a, b)
    p = to_poly(nx)
    if p.get(((s, 1),)) == 1:
        q = {m: c for m, c in p.items() if m != ((s, 1),)}
        e = from_poly(q)
        return e if s not in e.fv else None
    # one ite atom containing s with coefficient one
    hits = [m for m in p if any(s in x.fv for x, _ in m)]
    if len(hits) == 1 and p[hits[0]] == 1 and len(hits[0]) == 1 and hits[0][0][1] == 1 and hits[0][0][0].op == 'ite' and nx.op != 'ite':
        inner = strip_add(hits[0][0][0], s)
        if inner is None: return None
        return add(inner, from_poly({m: c for m, c in p.items() if m != hits[0]}))
    return None


def strip_cat(nx, s):
    if nx is s: return lst()
    if nx.op == 'ite':
        if s in nx.a[0].fv: return None
        a = strip_cat(nx.a[1], s); b = strip_cat(nx.a[2], s)
        if a is None or b is None: return None
        return ite(nx.a[0], a, b)
    if nx.op == 'cat' and nx.a[0] is s and s not in nx.a[1].fv: return nx.a[1]
    if nx.op == 'cat' and s not in nx.a[1].fv:
        a = strip_cat(nx.a[0], s)
        return None if a is None else cat(a, nx.a[1])
    return None


def strip_ins(nx, s):
    """nx = s with entries inserted: the list of those entries"""
    if nx is s: return lst()
    if nx.op == 'ite':
        if s in nx.a[0].fv: return None
        a = strip_ins(nx.a[1], s); b = strip_ins(nx.a[2], s)
        if a is None or b is None: return None
        return ite(nx.a[0], a, b)
    if nx.op == 'call' and nx.a[0] == 'map_insert' and s not in nx.a[3].fv and s not in nx.a[4].fv:
        a = strip_ins(nx.a[2], s)
        return None if a is None else cat(a, lst(tup(nx.a[3], nx.a[4]) if nx.a[4] is not UNIT else nx.a[3]))
    if nx.op == 'call' and nx.a[0] == 'map_extend' and s not in nx.a[3].fv:
        a = strip_ins(nx.a[2], s)
        return None if a is None else cat(a, nx.a[3])
    return None


def closed(s, init, nx, it):
    if nx is s: return init
    if nx.op in ('call', 'ite'):
        x = strip_ins(nx, s)
        if x is not None:
            j = fresh('b')
            return call('map_extend', init, flat([j], it, replace(x, {it: j})))
    e = strip_add(nx, s)
    if e is not None:
        j = fresh('b')
        return add(init, sum_([j], it, replace(e, {it: j})))
    x = strip_cat(nx, s)
    if x is not None:
        j = fresh('b')
        return cat(init, flat([j], it, replace(x, {it: j})))
    if s not in nx.fv:
        prev = replace(nx, {it: sub(it, ONE)})
        return ite(lt('I', ZERO, it), prev, init)
    if nx.op == 'upd' and nx.a[0] is s:
        i, e = nx.a[1], nx.a[2]
        if s in i.fv: return None
        lo = sub(i, it)
        if it in lo.fv: return None
        # e may look at s only at index i
        cur = fresh('cur')
        e2 = replace_terms(e, {raw('idx', s, i): cur})
        if s in e2.fv: return None
        e2 = replace(e2, {cur: idx(init, i)})
        j = fresh('b')
        return fill([j], init, lo, it, replace(e2, {it: j}))
    if is_boolean(nx) or init in (TRUE, FALSE):
        t = replace(nx, {s: TRUE}); f = replace(nx, {s: FALSE})
        j = fresh('b')
        if t is TRUE: return or_(init, exists([j], it, replace(f, {it: j})))
        if f is FALSE: return and_(init, not_(exists([j], it, replace(not_(t), {it: j}))))
    return None


def is_boolean(t):
    return t in (TRUE, FALSE) or t.op in ('lt', 'le', 'eq', 'not', 'is', 'isnan', 'exists') or (t.op == 'ite' and is_boolean(t.a[1]) and is_boolean(t.a[2]))
