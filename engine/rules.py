"""Rules over the resolved program that are not comparisons with the reference."""
RULES = {}


def rule(*props, name):
    def d(f):
        for p in props: RULES.setdefault(p, []).append((name, f))
        return f
    return d


def finding(prop, rule, fn, where, detail):
    return dict(key='%s:%s:%s' % (prop, rule, fn), where=where, function=fn, rule=rule, detail=detail)


def run(prop, D):
    import serde_rule, rules2
    out = []; info = []
    for name, f in RULES.get(prop, []):
        n, fs = f(prop, D)
        info.append(dict(rule=name, instances=n, findings=len(fs))); out += fs
    return dict(rules=info, findings=out)
