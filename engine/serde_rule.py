"""What the derived (de)serialisers of the model types do, read off the expanded program: for every type the names
written, the field behind each name, the names accepted and what a missing name becomes."""
import re, signal
from equiv import Eval, Comparator, Unsupported, Diverge, EQ, NE, UNK
from terms import show, subterms, ZERO, FALSE
import rules


def norm(s):
    return re.sub(r'\b(forust_ml|spec)::', '', s)


def tystr(t):
    k = t['k']
    if k == 'adt': return norm(t['p']) + ('<%s>' % ','.join(tystr(x) for x in t['a'] if x.get('p') not in ('alloc::alloc::Global', 'std::hash::random::RandomState')) if t['a'] else '')
    if k == 'prim': return t['p']
    if k == 'ref': return '&' + tystr(t['t'])
    if k in ('tuple', 'slice', 'array'): return k + '(' + ','.join(tystr(x) for x in (t.get('a') or ([t['t']] if 't' in t else []))) + ')'
    return norm(str(t.get('p') or t.get('s') or k))


def find(P, trait, ty, name, tail=''):
    r = []
    for p, f in P.fns.items():
        q = norm(p)
        if name == 'serialize':
            ok = re.search(r"<impl serde_core::ser::Serialize for %s(<.*>)?>::serialize$" % re.escape(ty), q)
        else:
            ok = re.search(r"Deserialize<'de> for %s(<.*>)?>::deserialize::%s.*>::%s$" % (re.escape(ty), tail, name), q) and '__DeserializeWith' not in q
        if ok: r.append(f)
    return r[0] if len(r) == 1 else None


def evalf(P, f, seconds=30):
    def h(*_): raise TimeoutError
    old = signal.signal(signal.SIGALRM, h); signal.alarm(seconds)
    try: return Eval(P, opaque=frozenset()).function(f)
    except (Unsupported, Diverge, TimeoutError, RecursionError): return None
    finally: signal.alarm(0); signal.signal(signal.SIGALRM, old)


def walk(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id); yield x
        st += list(subterms(x))


def callname(t):
    return t.a[0] if t.op == 'call' else None


def const(o):
    if o[0] == 'const' and o[1].get('c') == 'val' and o[1]['v'][0] in ('str', 'int'): return o[1]['v'][-1]
    return None


def strconst(o, body):
    """the string constant an operand holds, followed through single definitions"""
    for _ in range(6):
        c = const(o)
        if c is not None: return c
        if o[0] not in ('copy', 'move') or any(e[0] != 'deref' for e in o[1][1:]): return None
        ds = [s[2] for b in body['blocks'] for s in b['s'] if s[0] == '=' and s[1] == [o[1][0]]]
        if len(ds) != 1: return None
        if ds[0][0] == 'use': o = ds[0][1]
        elif ds[0][0] == 'ref': o = ['copy', ds[0][2]]
        else: return None
    return None


def calls(f):
    for i, b in enumerate(f.body['blocks']):
        if b['cleanup']: continue
        t = b['t']
        if t[0] == 'call' and t[1][0] == 'const' and t[1][1].get('c') == 'fn': yield i, t[1][1], t[2], t[3], t[4]


def defs(f, l):
    out = []
    for b in f.body['blocks']:
        if b['cleanup']: continue
        for s in b['s']:
            if s[0] == '=' and s[1] == [l]: out.append(('s', s[2]))
        t = b['t']
        if t[0] == 'call' and t[3] == [l]: out.append(('c', t))
    return out


def fieldof(f, o):
    """field of *self an operand refers to"""
    for _ in range(6):
        if o[0] not in ('copy', 'move'): return None
        p = o[1]
        fs = [e[1] for e in p[1:] if e[0] == 'field']
        if fs: return '.'.join(fs)
        ds = defs(f, p[0])
        if len(ds) != 1 or ds[0][0] != 's': return None
        r = ds[0][1]
        if r[0] == 'ref': o = ['copy', r[2]]
        elif r[0] == 'use': o = r[1]
        elif r[0] == 'agg': return None
        else: return None
    return None


def written(P, ty):
    """name -> (field, how, conditional)"""
    f = find(P, None, ty, 'serialize')
    if f is None: return None
    out = {}
    skips = set()
    for i, c, a, d, n in calls(f):
        nm = c.get('name')
        if nm == 'serialize_field': 
            k = strconst(a[1], f.body)
            t = c['a'][-1]
            fl = fieldof(f, a[2])
            out[k] = dict(field=fl, how='__SerializeWith' if '__SerializeWith' in tystr(t) else 'plain', skipped=False, where=f.where)
        if nm == 'skip_field': skips.add(strconst(a[-1], f.body))
        if nm in ('serialize_map', 'serialize_entry', 'collect_map', 'serialize_newtype_struct', 'collect_str', 'into'): return None
    when = {c['p'].split('::')[-1] for i, c, a, d, n in calls(f) if not c.get('name') and 'size_of' not in c['p']}
    for x in out.values(): x['when'] = when
    for k in skips:
        out.setdefault(k, dict(field=None, how='plain', where=f.where))['skipped'] = True
    return out


def accepted(P, ty):
    """name -> index of the field or variant"""
    f = find(P, None, ty, 'visit_str', '__FieldVisitor')
    if f is None: return None
    r = evalf(P, f)
    if r is None or 'ret' not in r: return None
    t = r['ret']; out = {}
    for x in walk(t):
        if x.op == 'ite':
            c = x.a[0]
            ss = [y.a[1] for y in subterms(c) if y.op == 'c' and y.a[0] == 'str']
            m = re.search(r'__field(\d+)', show(x.a[1], 4))
            if len(ss) == 1 and m and x.a[1].op == 'agg': out[ss[0]] = int(m.group(1))
    return out


def positions(P, ty):
    """index -> (field, type read, what a missing value becomes)"""
    f = find(P, None, ty, 'visit_seq', '__Visitor')
    if f is None: return None
    loc = {}
    for i, l in enumerate(f.body['locals']):
        m = re.match(r'__field(\d+)$', l['n'] or '')
        if m: loc[i] = int(m.group(1))
    fields = None
    agg = {}
    for b in f.body['blocks']:
        if b['cleanup']: continue
        for s in b['s']:
            if s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' and norm(s[2][1][1]) == ty:
                for name, o in zip(s[2][1][3], s[2][2]):
                    for _ in range(6):
                        if o[0] not in ('copy', 'move') or len(o[1]) != 1: break
                        if o[1][0] in loc: agg[loc[o[1][0]]] = name; break
                        ds = defs(f, o[1][0])
                        if len(ds) != 1 or ds[0][0] != 's' or ds[0][1][0] != 'use': break
                        o = ds[0][1][1]
    errs = set(); 
    for i, c, a, d, n in calls(f):
        if c.get('name') == 'invalid_length': errs.add(int(const(a[0])))
    out = {}
    nread = 0
    for l in sorted(loc, key=lambda x: loc[x]):
        i = loc[l]
        todo = [x for x in defs(f, l)]; miss = None; read = False; seen = set()
        while todo:
            k, d = todo.pop()
            if k == 's' and d[0] == 'use' and d[1][0] in ('copy', 'move'):
                p = d[1][1]
                if any(e[0] == 'as' for e in p[1:]): read = True; continue
                if len(p) == 1 and p[0] not in seen: seen.add(p[0]); todo += defs(f, p[0]); continue
                if any(e[0] == 'field' for e in p[1:]): read = True; continue
            if k == 'c':
                c = d[1][1]
                miss = ('fn', c.get('res', c['p']), d[2]); continue
            if k == 's' and d[0] == 'use' and d[1][0] == 'const': miss = ('const', str(d[1][1].get('v'))); continue
            miss = ('other', str(d)[:80])
        ty_ = tystr(f.body['locals'][l]['ty'])
        if miss is None and read:
            if ty_.startswith('core::option::Option<'): miss = ('none',)
            else: miss = ('error',)
        out[i] = dict(field=agg.get(i), type=ty_, missing=miss, read=read, where=f.where)
    # how each is read
    return out


def missvalue(P, m):
    """the value of a default: a term, or a tag"""
    if m is None: return 'absent'
    if m[0] == 'none': return 'None'
    if m[0] == 'fn':
        f = P.fns.get(m[1])
        if f is not None:
            r = evalf(P, f)
            if r is not None:
                t = r.get('ret')
                if t is not None and t.op == 'agg' and show(t, 3) == 'Option::None{}': return 'None'
                return t
        q = m[1]
        if q.endswith('Default>::default'):
            if '<core::option::Option<' in q: return 'None'
            if re.match(r'<(f32|f64|u\d+|i\d+|usize|isize) as', q): return ZERO
            if q.startswith('<bool as'): return FALSE
        return 'call ' + norm(q)
    if m[0] == 'const': return m[1]
    return m[0]


def same(a, b):
    if a == 'error' or b == 'error': return a == b
    if isinstance(a, str) or isinstance(b, str):
        if a == 'None' and isinstance(b, str) or b == 'None' and isinstance(a, str): return a == b if not (a + b).count('call ') else None
        return True if isinstance(a, str) and isinstance(b, str) and a == b else None
    try: r = Comparator(set(), seconds=10).compare(a, b)
    except Exception: return None
    return {EQ: True, NE: False}.get(r)


def with_fns(P, ty):
    r = []
    for p, f in P.fns.items():
        q = norm(p)
        if re.search(r"Deserialize<'de> for %s(<.*>)?>::deserialize::.*visit_seq::__DeserializeWith.*>::deserialize$" % re.escape(ty), q): r.append(f)
    return r


STRUCTS = ['gradientbooster::GradientBooster', 'tree::Tree', 'node::Node', 'data::RowMajorMatrix']
ENUMS = ['objective::ObjectiveType', 'sampler::SampleMethod', 'gradientbooster::GrowPolicy', 'gradientbooster::MissingNodeTreatment',
         'metric::Metric', 'constraints::Constraint', 'gradientbooster::ContributionsMethod', 'gradientbooster::ImportanceMethod']


def describe(v):
    return v if isinstance(v, str) else show(v, 5)[:200]


def structs(prop, D, types=STRUCTS):
    R, S = D['R'], D['S']
    n = 0; out = []
    for ty in types:
        wr, ws = written(R, ty), written(S, ty)
        ar, as_ = accepted(R, ty), accepted(S, ty)
        pr, ps = positions(R, ty), positions(S, ty)
        if ws is None or as_ is None or ps is None: raise RuntimeError('reference serialiser of %s not recognised' % ty)
        if wr is None or ar is None or pr is None: continue          # written by hand: not decided
        fn = '%s (derived serialisation)' % ty
        for name, w in sorted(ws.items()):
            n += 1
            x = wr.get(name)
            bad = None
            if x is None: bad = 'the name %r is not written' % name
            elif x['field'] is not None and w['field'] is not None and x['field'] != w['field'] and x['field'] in {v['field'] for v in ws.values()}: bad = 'the name %r holds the field %s instead of %s' % (name, x['field'], w['field'])
            elif x['skipped'] and not w['skipped']:
                i = ar.get(name)
                if not (x.get('when') == {'is_none'} and i in pr and missvalue(R, pr[i]['missing']) == 'None'): bad = 'the name %r is not always written' % name
            elif x['how'] != w['how']: bad = 'the name %r is written through another function' % name
            if bad: out.append(rules.finding(prop, 'serialised-names', '%s.%s' % (ty, name), (list(wr.values()) or [dict(where=ty)])[0]['where'], dict(function=fn, difference=bad)))
        for name, i in sorted(as_.items()):
            n += 1
            s = ps[i]
            bad = None
            if name not in ar: bad = 'the name %r is not read' % name
            else:
                r = pr.get(ar[name])
                if r is None: bad = 'the name %r is not read' % name
                else:
                    renamed = r['field'] not in {v['field'] for v in ps.values()}
                    if r['field'] != s['field'] and not renamed: bad = 'the name %r fills the field %s instead of %s' % (name, r['field'], s['field'])
                    elif not r['read']: bad = 'the value of %r is not used' % name
                    else:
                        a, b = missvalue(R, r['missing']), missvalue(S, s['missing'])
                        # a model that could be read before must still be read, with the same value
                        if b != 'error' and same(a, b) is False:
                            bad = 'a model without %r is read as %s instead of %s' % (name, describe(a), describe(b))
            if bad: out.append(rules.finding(prop, 'serialised-names', '%s.%s:read' % (ty, name), (list(pr.values()) or [dict(where=ty)])[0]['where'], dict(function=fn, difference=bad)))
        # fields that are not in the reference must be recoverable from models without them
        known = {v['field'] for v in ps.values()}
        lost = {v['field'] for v in ps.values()} - {v['field'] for v in pr.values()}
        for i, r in sorted(pr.items()):
            n += 1
            names = [k for k, v in ar.items() if v == i]
            if r['field'] in known or lost or not names: continue
            if not (set(names) & set(as_)) and missvalue(R, r['missing']) == 'error':
                out.append(rules.finding(prop, 'serialised-names', '%s.%s:read' % (ty, names[0]), r['where'], dict(function=fn, difference='models written without %r can no longer be read' % names[0])))
        # values read through a function of their own
        fr, fs = with_fns(R, ty), with_fns(S, ty)
        for f in fs:
            n += 1
            b = evalf(S, f)
            if not fr:
                out.append(rules.finding(prop, 'serialised-values', '%s:deserialize_with' % ty, list(pr.values())[0]['where'], dict(function=fn, difference='a value is no longer read through its own function (%s)' % show(b['ret'], 4)[:200])))
                continue
            vs = [same((evalf(R, g) or {}).get('ret') or 'x', b['ret']) for g in fr]
            if all(v is False for v in vs):
                out.append(rules.finding(prop, 'serialised-values', '%s:deserialize_with' % ty, fr[0].where, dict(function=fn, difference='read through another function')))
    return n, out


def enums(prop, D, types=ENUMS):
    R, S = D['R'], D['S']
    n = 0; out = []

    def variants(P, ty):
        for p, a in P.adts.items():
            if norm(p) == ty: return [v['n'] for v in a['v']]

    def names(P, ty):
        f = find(P, None, ty, 'serialize')
        if f is None: return None, None
        r = evalf(P, f)
        if r is None: return None, None
        out = {}
        vs = variants(P, ty)
        def go(t, alive):
            if t.op == 'ite':
                m = re.search(r' is (\w+)\)?$', show(t.a[0], 3))
                if m and m.group(1) in vs:
                    go(t.a[1], [m.group(1)]); go(t.a[2], [v for v in alive if v != m.group(1)])
                    return
            ss = [y.a[1] for y in subterms(t) if y.op == 'c' and y.a[0] == 'str']
            if len(ss) == 2:
                for v in alive: out[v] = ss[1]
        go(r['ret'], list(vs))
        return out, f.where
    for ty in types:
        (nr, wr), (ns, _) = names(R, ty), names(S, ty)
        ar, as_ = accepted(R, ty), accepted(S, ty)
        vr, vs = variants(R, ty), variants(S, ty)
        if ns is None or as_ is None or len(ns) != len(vs) or len(as_) < len(vs): raise RuntimeError('reference serialiser of %s not recognised' % ty)
        if nr is None or ar is None or vr is None: continue
        # serde numbers the variants that can be read in order; none is skipped unless fewer names than variants exist
        for name, i in sorted(as_.items()):
            n += 1
            v = vs[i]
            bad = None
            if name not in ar: bad = 'the name %r is not accepted' % name
            elif len(set(ar.values())) == len(vr) and ar[name] < len(vr) and v in vr and vr[ar[name]] != v: bad = 'the name %r is read as %s instead of %s' % (name, vr[ar[name]], v)
            if bad: out.append(rules.finding(prop, 'names', '%s.%s' % (ty, name), wr, dict(difference=bad)))
        for v, name in sorted(ns.items()):
            n += 1
            if v in vr and nr.get(v) is not None and nr.get(v) != name: out.append(rules.finding(prop, 'names', '%s::%s' % (ty, v), wr, dict(difference='%s is written as %r instead of %r' % (v, nr.get(v), name))))
            elif v in vr and nr.get(v) is None: out.append(rules.finding(prop, 'names', '%s::%s' % (ty, v), wr, dict(difference='%s can not be written' % v)))
    return n, out


rules.rule('C06', 'C27', name='derived serialisation keeps every field of the model')(structs)
rules.rule('C01', 'C06', 'C26', name='the names of options')(enums)
