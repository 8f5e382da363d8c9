"""Names that the program chooses freely: a private type or a field called something else than in the reference is given the
reference's name everywhere in the repository's dump (a consistent renaming of types and fields changes no behaviour; names
that reach a file are string constants of the serialisers and are not touched)."""
import json, re


def strip(p): return re.sub(r'\b(?:forust_ml|spec)::', '~::', p)


def shape(t): return strip(json.dumps(t, sort_keys=True))


def local(d):
    return {strip(p): (p, a) for p, a in d['adts'].items() if a['local'] and '<' not in p and 'span' in a}


def fields_map(a, b):
    """old name -> reference name for one variant, or {}"""
    fa, fb = a['f'], b['f']
    na = {x['n'] for x in fa}; nb = {x['n'] for x in fb}
    ra = [x for x in fa if x['n'] not in nb]; rb = [x for x in fb if x['n'] not in na]
    m = {}
    by = {}
    for x in rb: by.setdefault(shape(x['ty']), []).append(x['n'])
    ca = {}
    for x in ra: ca.setdefault(shape(x['ty']), []).append(x['n'])
    for t, xs in ca.items():
        ys = by.get(t, [])
        if len(xs) == len(ys): m.update(zip(xs, ys))
    return m


def types_map(R, S):
    """types only the repository has and types only the reference has, of the same module and the same contents"""
    A, B = local(R), local(S)
    ra = {p: v for p, v in A.items() if p not in B}; rb = {p: v for p, v in B.items() if p not in A}
    m = {}
    for p, (full, a) in sorted(ra.items()):
        mod = p.rsplit('::', 1)[0]
        name = p.rsplit('::', 1)[1]
        cand = []
        for q, (qfull, b) in sorted(rb.items()):
            if q in m.values() or a['enum'] != b['enum'] or len(a['v']) != len(b['v']): continue
            qn = q.rsplit('::', 1)[1]
            ok = True
            for va, vb in zip(a['v'], b['v']):
                sa = sorted(shape(x['ty']).replace(p, q) for x in va['f']); sb = sorted(shape(x['ty']) for x in vb['f'])
                if sa != sb or (a['enum'] and va['n'] != vb['n']): ok = False
            if ok:
                names = sum(1 for va, vb in zip(a['v'], b['v']) for x in va['f'] if x['n'] in {y['n'] for y in vb['f']})
                cand.append((q.rsplit('::', 1)[0] == mod, names, q))
        if not cand: continue
        cand.sort(reverse=True)
        if len(cand) > 1 and cand[0][:2] == cand[1][:2]: continue
        if not any(v['f'] for v in a['v']): continue
        m[p] = cand[0][2]
    return {ra[p][0]: 'forust_ml' + q[1:] for p, q in m.items()}


def rename_types(d, tm):
    if not tm: return d
    t = json.dumps(d)
    for p, q in tm.items(): t = re.sub(r'\b' + re.escape(p) + r'\b', q, t)
    d = json.loads(t)
    for p, q in tm.items():          # a struct's only variant carries the struct's name
        a = d['adts'].get(q)
        o, n = p.rsplit('::', 1)[1], q.rsplit('::', 1)[1]
        if a and not a['enum']: a['v'][0]['n'] = n
    return d


def align(R, S, B):
    tm = {}
    while True:          # a type may contain another renamed one
        m = types_map(R, S)
        if not m: break
        R = rename_types(R, m); B = rename_types(B, m)
        tm.update(m)
    fm = {}
    ref = local(S)
    for p, (full, a) in local(R).items():
        if p not in ref: continue
        b = ref[p][1]
        vb = {v['n']: v for v in b['v']}
        for v in a['v']:
            w = vb.get(v['n']) if a['enum'] else b['v'][0]
            if w is None: continue
            m = fields_map(v, w)
            if m: fm[(full, v['n'])] = m
    struct = {q: p.rsplit('::', 1)[1] for p, q in tm.items()}

    def walk(x):
        if isinstance(x, list):
            if x and x[0] == 'field' and len(x) == 4 and isinstance(x[1], str):
                v = x[3]
                if struct.get(x[2]) == v: v = x[2].rsplit('::', 1)[1]
                m = fm.get((x[2], v))
                return ['field', m.get(x[1], x[1])] if m else ['field', x[1]]
            if len(x) == 5 and x[0] == 'adt' and isinstance(x[3], list):
                v = x[2]
                if struct.get(x[1]) == v: v = x[1].rsplit('::', 1)[1]
                m = fm.get((x[1], v)) or {}
                return [x[0], x[1], v, [m.get(n, n) for n in x[3]], x[4]]
            return [walk(y) for y in x]
        if isinstance(x, dict): return {k: walk(y) for k, y in x.items()}
        return x
    if not fm and not tm: return R, B
    for d in (R, B):
        for f in d['fns']:
            f['body'] = walk(f['body'])
            f['promoted'] = walk(f['promoted'])
    for p, (full, a) in local(R).items():
        for v in a['v']:
            m = fm.get((full, v['n']))
            if m:
                for x in v['f']: x['n'] = m.get(x['n'], x['n'])
    return R, B
