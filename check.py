#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property of /repo statically (see DESIGN.md).
exit 0: no violation; exit 1 and VIOLATION lines: violated; exit 2: the analysis could not run."""
import os, sys, json, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(30000)


def main():
    import resource, threading
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    prop = a[0]
    import project, runner, rules
    t0 = time.time()
    try:
        D = runner.decide(prop, thorough)
    except project.BuildError as x:
        print('ERROR: the program could not be analysed: %s' % x); return 2
    findings = []
    for k in D['alarms']:
        d = D['res'][k]; f = D['E'].kr[k]
        findings.append(dict(key='%s:%s' % (prop, k), where=f.where, function=f.path, rule='value graph differs from the reference definition', detail=d['why']))
    for k in D['balarms']:
        d = D['bind'][k]
        findings.append(dict(key='%s:%s' % (prop, k), where=d['where'], function='bindings ' + k[5:], rule='value graph differs from the reference definition', detail=d['why']))
    for k, d in D['py'].items():
        if d['result'] == 'NE':
            findings.append(dict(key='%s:%s' % (prop, k), where=d['where'], function=k[3:], rule='value graph differs from the reference definition', detail=d['why']))
    rr = rules.run(prop, D)
    findings += rr['findings']
    known = {}
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        for e in json.load(open(kf))['known']: known[e['key']] = e
    new = []
    for f in findings:
        if f['key'] in known: print('KNOWN-FINDING: property=%s %s' % (prop, known[f['key']]['what']))
        else: new.append(f)
    res = D['res']
    cnt = {r: sum(1 for k in D['keys'] if res[k]['result'] == r) for r in ('EQ', 'NE', 'UNK')}
    outs = sum(res[k]['outputs'] for k in D['keys'])
    py = dict(D['bind'], **D['py'])
    pcnt = {r: sum(1 for d in py.values() if d['result'] == r) for r in ('EQ', 'NE', 'UNK')}
    ev = dict(property=prop, tier='thorough' if thorough else 'quick', seed=int(os.environ.get('VERIF_SEED', '1')), level='other',
              coverage=dict(
                  explanation='Static: the MIR of /repo (type-checked, callees resolved) was turned into value graphs and each function listed was compared, output by output, with the reference definition; the rules listed were decided on the same program and on the Python sources.',
                  functions_analysed=len(D['keys']), outputs_compared=outs, equal=cnt['EQ'], different=cnt['NE'], undecided=cnt['UNK'],
                  functions={k: res[k]['result'] for k in D['keys']},
                  undecided_reasons={k: res[k]['unk'] for k in D['keys'] if res[k]['result'] == 'UNK'},
                  followed_through_callers=D['followed'],
                  absorbed_in_callers=[k for k in res if res[k].get('absorbed')],
                  python_and_binding_functions={k: d['result'] for k, d in py.items()},
                  python_undecided_reasons={k: d['unk'] for k, d in py.items() if d['result'] == 'UNK'}, python_not_found=D['pylost'],
                  rules=rr['rules'], rule_instances=sum(r['instances'] for r in rr['rules']),
                  repository_functions=len(D['E'].kr), samples=[dict(function=k, where=D['E'].kr[k].where, levels=res[k]['levels'], seconds=res[k]['seconds']) for k in D['keys'][:5]]),
              assumptions=['the reference definitions in /verif/spec state the intended behaviour (reviewed against the documentation)',
                           'models of std, rayon and rand operations in engine/models.py', 'sums and products of floats are compared up to association in real arithmetic'],
              violations=len(new), wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d functions (%d equal, %d different, %d undecided), %d functions of the bindings and the Python package (%d/%d/%d), %d rule instances, %.0f s' % (prop, len(D['keys']), cnt['EQ'], cnt['NE'], cnt['UNK'], len(py), pcnt['EQ'], pcnt['NE'], pcnt['UNK'], sum(r['instances'] for r in rr['rules']), time.time() - t0))
    for k in D['keys']:
        if res[k]['result'] == 'UNK': print('  undecided: %s (%s)' % (k, str(res[k]['unk'])[:160]))
    for k, d in py.items():
        if d['result'] == 'UNK': print('  undecided: %s (%s)' % (k, str(d['unk'])[:160]))
    if new:
        rp = os.path.join(HERE, 'evidence', prop + '.violations.json')
        json.dump(new, open(rp, 'w'), indent=1, default=str)
        for f in new:
            print('  %s: %s: %s' % (f['where'], f['rule'], f['function']))
            print('    ' + json.dumps(f['detail'], default=str)[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    import resource, traceback
    if os.environ.get('CHECK_STACK') != '1':
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        want = 1 << 30
        if hard != resource.RLIM_INFINITY: want = min(want, hard)
        try: resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
        except Exception: pass
        os.environ['CHECK_STACK'] = '1'
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    try: rc = main()
    except SystemExit as x:
        print('ERROR', x); rc = 2
    except BaseException:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    os._exit(rc)
