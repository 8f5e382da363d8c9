"""Rules about what a function may call, and about trait methods that replace provided ones."""
import re
import rules
from equiv import nodes
from cmp import Comparator, EQ, NE, UNK
from terms import replace_terms, show, call, subterms, raw


def consts(x):
    """function items named in a body"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if y.get('c') in ('fn', 'closure') or 'closure' in y: yield y
            st.extend(y.values())
        elif isinstance(y, list): st.extend(y)


def text_of(body):
    import json
    return json.dumps(body)


_graph = {}


def graph(P):
    """{path: (paths of the functions and closures of the crate it names, [(callee, type arguments, line)] of others)}"""
    if id(P) in _graph: return _graph[id(P)]
    out = {}
    for f in P.fns.values():
        loc = set(); ext = []
        t = text_of(f.body)
        for m in re.finditer(r'"(?:p|res)": "((?:[^"\\]|\\.)*)"', t):
            q = m.group(1)
            if q in P.fns and q != f.path: loc.add(q)
        for m in re.finditer(r'"((?:[^"\\]|\\.)*\{closure#\d+\}(?:[^"\\]|\\.)*)"', t):
            if m.group(1) in P.fns: loc.add(m.group(1))
        for c in consts(f.body):
            if c.get('c') == 'fn' and not c.get('local'):
                ext.append((c.get('res') or c.get('p'), text_of(c.get('resa') or c.get('a') or [])))
        out[f.path] = (loc, ext)
    _graph[id(P)] = out
    return out


def reach(P, roots):
    g = graph(P); seen = set(); st = list(roots); via = {r: None for r in roots}
    tr = {}
    for f in P.fns.values():
        # a call of a trait method may run any implementation
        if f.j.get('impl_trait'): tr.setdefault((f.j['impl_trait'], f.j['name']), []).append(f.path)
    while st:
        p = st.pop()
        if p in seen or p not in g: continue
        seen.add(p)
        nx = set(g[p][0])
        for q, _ in g[p][1]:
            for k in tr.get(tuple(q.rsplit('::', 1)) if '::' in q else (), []): nx.add(k)
        for q in list(nx):
            f = P.fns.get(q)
            if f is not None and f.j.get('in_trait'):
                nx |= set(tr.get((f.j['in_trait'], f.j['name']), []))
        for q in nx:
            if q not in via: via[q] = p
            st.append(q)
    return seen, via


def chain(P, via, p):
    out = []
    while p is not None and len(out) < 12:
        out.append(P.fns[p].key if p in P.fns else p); p = via.get(p)
    return list(reversed(out))


ENTROPY = re.compile(r'thread_rng|ThreadRng|from_entropy|from_os_rng|try_from_os_rng|OsRng|getrandom|rand::random|rand::rng\b(?!::Rng)|fastrand|'
                     r'SystemTime|time::Instant|chrono|thread::current|thread::current_id|current_thread_index|process::id|'
                     r'RandomState::(new|build_hasher|hash_one)|env::var|hint::black_box')


def roots(P, pats):
    return [f.path for f in P.fns.values() if f.key and re.match(pats, f.key) and '::test' not in f.path and not f.derived]


@rules.rule('C03', name='no source that varies between runs is reachable from training or prediction')
def entropy(prop, D):
    P = D['R']
    seen, via = reach(P, roots(P, r'GradientBooster::(fit|predict|value_partial|new|default|set_)'))
    g = graph(P); out = []
    for p in sorted(seen):
        for q, a in g[p][1]:
            m = ENTROPY.search(q) or ENTROPY.search(a if 'SeedableRng' in q or 'rng' in q.lower() else '')
            if m: out.append(rules.finding(prop, 'entropy', P.fns[p].key or p, P.fns[p].where, dict(callee=q, path=chain(P, via, p))))
    return len(seen), out


HIDDEN = re.compile(r'sync::atomic::|\*mut ')


@rules.rule('C03', 'C04', name='no result depends on a variable that outlives the call')
def hidden(prop, D):
    """a counter in a static whose value reaches what a function returns or leaves behind"""
    P = D['R']; E = D['E']
    seen, via = reach(P, roots(P, r'GradientBooster::(fit|predict|value_partial|new|default|set_)'))
    out = []; n = 0
    for k in sorted(E.kr):
        f = E.kr[k]
        if f.path not in seen: continue
        n += 1
        if not re.search(HIDDEN, text_of(f.body)): continue
        r, e, err = E.eval('r', k, frozenset(E.anchors))
        if not r: continue
        for o, t in r.items():
            c = [x for x in nodes(t) if x.op == 'konst' and HIDDEN.search(str(x.a[0]))]
            if c:
                out.append(rules.finding(prop, 'hidden state', k, f.where, dict(output=str(o), variable=str(c[0].a[0])[:200], path=chain(P, via, f.path)))); break
    return n, out


ORDER = re.compile(r'rayon::.*::(reduce|reduce_with|try_reduce|sum|product|fold|fold_with|fold_chunks|try_fold|find_any|position_any|find_map_any|for_each_with|for_each_init|par_bridge|collect_into_linked_list)$')
SHARED = re.compile(r'sync::(poison::)?(mutex|rwlock|Mutex|RwLock)|sync::(poison::)?(mutex::)?Mutex|atomic::Atomic|mpsc|parking_lot|crossbeam|cell::UnsafeCell|static_mut|thread_local')
PAR = re.compile(r'^<?.*rayon::')


@rules.rule('C02', name='parallel code has no shared state and no reduction in scheduling order')
def schedule(prop, D):
    P = D['R']; g = graph(P); out = []; n = 0
    par = set()
    for p, (loc, ext) in g.items():
        f = P.fns[p]
        if '::test' in p: continue
        if any(PAR.search(q) for q, _ in ext):
            # closures named in a function with parallel iterators may run in parallel
            par |= {q for q in loc if 'closure' in q}
        for q, a in ext:
            n += 1
            if ORDER.search(q) and (re.search(r'f32|f64', a) or not re.search(r'usize|u64|u32|bool|i64|i32', a)) :
                out.append(rules.finding(prop, 'order', f.key or p, f.where, dict(callee=q, arguments=a[:200], difference='the order of the operations is chosen by the scheduler')))
    seen, via = reach(P, par)
    for p in sorted(seen):
        for q, a in g[p][1]:
            n += 1
            if SHARED.search(q): out.append(rules.finding(prop, 'shared', P.fns[p].key or p, P.fns[p].where, dict(callee=q, path=chain(P, via, p), difference='state shared between parallel tasks')))
    return n, out


PROVIDED = {'core::cmp::PartialOrd': ('lt', 'le', 'gt', 'ge'), 'core::cmp::PartialEq': ('ne',), 'core::cmp::Ord': ('max', 'min', 'clamp')}


def override(prop, D):
    """a method that now replaces the provided one of its trait has to do what the provided one does"""
    import propmap
    E = D['E']; R, S = D['R'], D['S']; n = 0; out = []
    traits = {}
    for f in R.fns.values():
        if f.j.get('in_trait') and f.body: traits.setdefault(f.j['in_trait'], set()).add(f.j['name'])
    for k, f in sorted(E.kr.items()):
        t = f.j.get('impl_trait')
        if not t: continue
        n += 1
        if k in E.ks: continue
        nm = f.j['name']; ty = k.rsplit('::', 1)[0]
        if nm in traits.get(t, ()):
            ref = '%s::%s' % (t.rsplit('::', 1)[1], nm)
            if ref not in E.ks: continue
            if prop not in propmap.properties_of(k) and prop not in propmap.properties_of(ref): continue
            v, why = pair(E, k, ref, {ty: t.rsplit('::', 1)[1]})
        elif nm in PROVIDED.get(t, ()):
            ref = '%s::%s__' % (ty, nm)
            if ref not in E.ks: continue
            if prop not in propmap.properties_of('%s::partial_cmp' % ty): continue
            v, why = pair(E, k, ref, {})
        else: continue
        if v == NE: out.append(rules.finding(prop, 'override', k, f.where, dict(provided=ref, difference=str(why)[:800])))
    return n, out


def pair(E, kr, ks, names):
    """the function kr of the repository against the function ks of the reference, first with opaque callees, then with
    the ones of the type put in"""
    ty = kr.rsplit('::', 1)[0]
    v, why = pair_(E, kr, ks, names, frozenset(E.anchors))
    if v != NE: return v, why
    return pair_(E, kr, ks, names, frozenset(k for k in E.anchors if not k.startswith(ty + '::')))


def pair_(E, kr, ks, names, op):
    import runner
    a, ea, xa = E.eval('r', kr, op); b, eb, xb = E.eval('s', ks, op)
    if a is None or b is None: return UNK, None
    def ren(t):
        m = {}; st = [t]; seen = set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st.extend(subterms(x))
            if x.op == 'call' and isinstance(x.a[0], str) and '::' in x.a[0]:
                h, l = x.a[0].rsplit('::', 1)
                if h in names: m[x] = raw('call', names[h] + '::' + l, *x.a[1:])
        return replace_terms(t, m) if m else t
    worst = EQ; why = None
    for o in sorted(set(a) | set(b), key=str):
        if o not in a or o not in b: return UNK, None
        C = Comparator(E.vocab(), seconds=30, req=eb.req)
        try: r = C.compare(ren(a[o]), ren(b[o]))
        except RecursionError: r = UNK
        if r == NE: worst = NE; why = why or runner.text(C.why)
        elif r == UNK and worst == EQ: worst = UNK
    return worst, why


for _p in ('C03', 'C08', 'C11', 'C12', 'C13', 'C14', 'C16', 'C20', 'C21', 'C24', 'C25', 'C18', 'C19', 'C10', 'C31', 'C32'):
    rules.rule(_p, name='methods that replace provided trait methods')(override)
