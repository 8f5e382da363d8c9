#!/usr/bin/env python3
"""pyrefmut.py SEED [names]: each Python rewrite of pyrefactors.py with one small mistake in it; results other than NE are listed."""
import ast, sys, os, random, shutil, subprocess, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pyrefactors as P

def sites(tree):
    """[(description, function that changes the node in place)]"""
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            c = m.get(type(n.ops[0]))
            if c: out.append(('compare ' + ast.unparse(n), lambda n=n, c=c: n.ops.__setitem__(0, c())))
        if isinstance(n, ast.Constant) and type(n.value) is int: out.append(('const %d' % n.value, lambda n=n: setattr(n, 'value', n.value + 1)))
        if isinstance(n, ast.Constant) and type(n.value) is str and len(n.value) < 25 and n.value.isidentifier(): out.append(('str ' + n.value, lambda n=n: setattr(n, 'value', n.value + 'x')))
        if isinstance(n, ast.Constant) and type(n.value) is bool: out.append(('bool %s' % n.value, lambda n=n: setattr(n, 'value', not n.value)))
        if isinstance(n, ast.BoolOp): out.append(('boolop ' + ast.unparse(n)[:50], lambda n=n: setattr(n, 'op', ast.And() if isinstance(n.op, ast.Or) else ast.Or())))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)): out.append(('binop ' + ast.unparse(n)[:50], lambda n=n: setattr(n, 'op', ast.Sub() if isinstance(n.op, ast.Add) else ast.Add())))
        if isinstance(n, ast.Call) and len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args): out.append(('swap args ' + ast.unparse(n)[:50], lambda n=n: n.args.reverse()))
        if isinstance(n, ast.Call) and n.keywords and n.keywords[0].arg and len(n.keywords) > 1 and n.keywords[1].arg:
            def sw(n=n): n.keywords[0].value, n.keywords[1].value = n.keywords[1].value, n.keywords[0].value
            out.append(('swap kw ' + ast.unparse(n)[:50], sw))
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list) and len(b) > 1:
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name): continue
                        if 'warn' in ast.unparse(s): continue
                        out.append(('drop ' + ast.unparse(s)[:60], lambda b=b, i=i: b.__setitem__(i, ast.Pass())))
    return out

def one(a):
    wid, names, seed = a
    d = '/tmp/pyrm%d' % wid
    for n in names:
        qual, new, helper = P.R[n]
        src = (helper or '') + '\n\n' + new
        import textwrap
        t0 = ast.parse(textwrap.dedent(helper or '').strip('\n') + '\n\n' + new.strip('\n'))
        k = len(sites(t0))
        if not k: continue
        i = random.Random(n + str(seed)).randrange(k)
        desc, f = sites(t0)[i]; 
        s = sites(t0); desc, f = s[i]; f()
        ast.fix_missing_locations(t0)
        P.R[n + '!'] = (qual, ast.unparse(t0), '')
        try: P.apply(n + '!', d)
        except SyntaxError: continue
        r = subprocess.run([sys.executable, '-c', P.CHILD, d, P.HERE + '/../engine'], capture_output=True, text=True)
        o = (r.stdout.strip() or r.stderr[-300:])[:300]
        v = 'NE' if 'NE ' in o else 'UNK' if 'UNK' in o else 'EQ' if o == 'ok' else 'ERR'
        print('%-24s %-4s %s%s' % (n, v, desc, '' if v in ('NE', 'EQ') else '  ## ' + o[:120]), flush=True)
    shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    seed = int(sys.argv[1]); ns = sys.argv[2:] or list(P.R)
    with mp.Pool(2) as p: p.map(one, [(i, ns[i::2], seed) for i in range(2)], 1)
