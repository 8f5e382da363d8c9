"""Decides one property: comparison of the value graphs of its functions with the reference, plus its own rules."""
import os, sys, time, json, traceback, multiprocessing as mp, signal
import project
from equiv import Equiv, EQ, NE, UNK
from terms import show
import propmap

ROOT = project.ROOT
E = None            # shared with the forked workers
EB = None           # the Python bindings (py-forust/src)
OPT = {}


def text(w, L=6, n=600):
    try: return text_(w, L, n)
    except Exception as x: return 'difference (not printable: %s)' % x


def text_(w, L, n):
    if not isinstance(w, tuple): return str(w)[:n]
    path, a, b = w[0], w[1], w[2]
    s = {'at': [str(x) for x in path][-12:], 'repository': show(a, L)[:n], 'reference': show(b, L)[:n], 'note': str(w[-1])[:200]}
    if len(w) > 4 and isinstance(w[3], dict):
        s['when'] = [('' if v else 'not ') + show(c, 4)[:120] for c, v in list(w[3].items())[:12]]
    return s


class Timeout(Exception):
    pass


def guard(seconds, f, *a):
    def h(*_): raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(max(1, int(seconds)))
    try: return f(*a)
    finally:
        signal.alarm(0); signal.signal(signal.SIGALRM, old)


def work(k):
    if k.startswith('bind:'): return work_(EB, k, k[5:])
    return work_(E, k, k)


def work_(E, key, k):
    t = time.time()
    d = {'key': key, 'levels': [], 'why': None, 'unk': None, 'outputs': 0}
    try:
        r, hist = guard(OPT['fn_seconds'], E.verdict, k)
        d['result'] = r
        for lev, v in hist:
            d['levels'].append([lev[:200], v.r]); d['outputs'] = max(d['outputs'], len(v.outs))
        for lev, v in hist:
            for o, rr, why, unk in v.outs:
                if rr == NE and d['why'] is None: d['why'] = dict(output=str(o), **(text(why) if isinstance(text(why), dict) else {'note': text(why)}))
                if rr == UNK and d['unk'] is None: d['unk'] = str(text(unk))[:800]
        d['calls'] = sorted({c[0] for c in E.eval('r', k, frozenset(E.anchors))[1].calls} & E.anchors)
    except Timeout:
        d['result'] = UNK; d['unk'] = 'time limit'
    except RecursionError:
        d['result'] = UNK; d['unk'] = 'recursion limit'
    except Exception as x:
        d['result'] = UNK; d['unk'] = 'internal: ' + traceback.format_exc()[-600:]
    d['seconds'] = round(time.time() - t, 2)
    return d


def calls_of(k):
    try:
        _, e, _ = guard(60, E.eval, 'r', k, frozenset(E.anchors))
        return k, sorted({c[0] for c in e.calls} & E.anchors)
    except (Timeout, RecursionError): return k, None


def joint(a):
    """caller c compared with the changed callees fs inlined on both sides"""
    c, fs = a
    try:
        return c, guard(OPT['fn_seconds'], E.compare, c, frozenset(E.anchors - set(fs))).r
    except (Timeout, RecursionError): return c, UNK


def bindings(bind):
    """alarms of the bindings; a helper whose callers are all unchanged once it is put in is no alarm"""
    out = []
    for k in sorted(bind):
        d = bind[k]
        if d['result'] != NE: continue
        f = k[5:]
        op = frozenset(EB.anchors - {f})
        callers = [c for c in EB.anchors if c != f and f in {x[0] for x in EB.eval('r', c, frozenset(EB.anchors))[1].calls}]
        js = []
        for c in callers:
            try: js.append(guard(60, EB.compare, c, op).r)
            except (Timeout, RecursionError): js.append(UNK)
        if js and all(x == EQ for x in js): d['absorbed'] = True; continue
        out.append(k)
    return out


def python_layer(prop, thorough):
    """the functions of the Python package that carry the property"""
    from pyequiv import PyEquiv
    P = PyEquiv(os.path.join(project.REPO, 'py-forust', 'forust'), os.path.join(ROOT, 'spec_python'))
    P.seconds = 120 if thorough else 40
    res = {}; lost = []
    want = propmap.pyfunctions(prop, sorted(P.ks))
    for k in want:
        if k not in P.anchors: lost.append(k); continue
        t = time.time()
        d = dict(key=k, levels=[], why=None, unk=None, outputs=0, where=P.where(k))
        try:
            r, hist = guard(180, P.verdict, k)
            d['result'] = r
            for lev, v in hist:
                d['levels'].append([lev, v.r]); d['outputs'] = max(d['outputs'], len(v.outs))
                for o, rr, why, unk in v.outs:
                    if rr == NE and d['why'] is None: d['why'] = dict(output=str(o), **(text(why) if isinstance(text(why), dict) else {'note': text(why)}))
                    if rr == UNK and d['unk'] is None: d['unk'] = str(text(unk))[:800]
        except Timeout: d.update(result=UNK, unk='time limit')
        except RecursionError: d.update(result=UNK, unk='recursion limit')
        except Exception: d.update(result=UNK, unk='internal: ' + traceback.format_exc()[-600:])
        d['seconds'] = round(time.time() - t, 2)
        res[k] = d
    return P, res, lost


def pmap(f, xs):
    xs = list(xs)
    if not xs: return []
    ctx = mp.get_context('fork')
    with ctx.Pool(min(OPT['jobs'], len(xs))) as p:
        return list(p.imap_unordered(f, xs, 1))


def functions_for(prop, thorough):
    """the functions to decide, with those that have no counterpart replaced by their callers"""
    want = set(propmap.functions(prop, E.ks))
    followed = {}
    todo = sorted(want - E.anchors)
    seen = set(todo)
    while todo:
        k = todo.pop()
        cs = {c for c in E.ks if k in {x[0] for x in E.eval('s', c, frozenset(E.anchors))[1].calls}
              or k in E.mentions('s', c)}
        followed[k] = sorted(cs)
        for c in cs:
            if c in E.anchors: want.add(c)
            elif c not in seen: seen.add(c); todo.append(c)
    return sorted(want & E.anchors), followed


def decide(prop, thorough=False):
    global E, EB
    t0 = time.time()
    project.dump()
    t1 = time.time()
    R, S, B, SB = project.load()
    E = Equiv(R, S)
    OPT.update(jobs=min(8, os.cpu_count() or 4), fn_seconds=600 if thorough else 200)
    E.seconds = 240 if thorough else 70
    if len(E.kr) < 120 or len(E.anchors) < 120:
        raise SystemExit('only %d functions of the crate were recognised' % len(E.anchors))
    E.vocab()
    keys, followed = functions_for(prop, thorough)
    EB = Equiv(B, SB); EB.seconds = E.seconds
    bkeys = ['bind:' + k for k in propmap.bindfunctions(prop, sorted(EB.ks)) if k in EB.anchors]
    if bkeys: EB.vocab()
    res = {d['key']: d for d in pmap(work, keys + bkeys)}
    bind = {k: res.pop(k) for k in bkeys}
    for k, d in bind.items(): d['where'] = EB.kr[k[5:]].where
    balarms = bindings(bind)
    # a changed helper is judged by what its callers make of it
    alarms = []
    ne = sorted(k for k, d in res.items() if d['result'] == NE)
    if ne:
        allcalls = dict(pmap(calls_of, sorted(E.anchors)))
        for k in ne:
            d = res[k]
            callers = sorted(c for c, cs in allcalls.items() if c != k and cs and k in cs)
            missing = [c for c in callers if c not in res]
            for x in pmap(work, missing): res[x['key']] = x
            changed = [c for c in callers if res[c]['result'] != EQ]
            d['callers'] = callers; d['changed_callers'] = changed
            if changed and not E.kr[k].j.get('trait_entry'):
                j = dict(pmap(joint, [(c, (k,)) for c in changed]))
                d['joint'] = j
                if all(v != NE for v in j.values()) and changed == callers and any(v == EQ for v in j.values()):
                    d['absorbed'] = True
                    continue
            alarms.append(k)
    P, py, lost = python_layer(prop, thorough)
    return dict(prop=prop, bind=bind, balarms=balarms, py=py, pylost=lost, P=P, res=res, keys=keys, followed=followed, alarms=alarms, R=R, S=S, B=B, E=E, t_build=t1 - t0, t0=t0)
