"""Value graphs of the Python layer: the syntax tree of a function is turned into the same terms as the MIR.

Nothing is imported or run.  Functions, methods and properties of the module are put in where they are used; numpy,
pandas and the compiled booster are uninterpreted operations; loops and comprehensions go through loops.solve."""
import ast, itertools, os
from terms import *
from evalm import Eval, Unsupported, Diverge
import loops
from bdd import BDD

_n = itertools.count()

# parameters of the compiled class (py-forust/src/lib.rs), to name positional arguments
CRATE = {
    'fit': ('flat_data', 'rows', 'cols', 'y', 'sample_weight', 'evaluation_data'),
    'predict': ('flat_data', 'rows', 'cols', 'parallel'),
    'predict_contributions': ('flat_data', 'rows', 'cols', 'method', 'parallel'),
    'predict_leaf_indices': ('flat_data', 'rows', 'cols'),
    'calculate_feature_importance': ('method', 'normalize'),
    'value_partial_dependence': ('feature', 'value'),
    'text_dump': (), 'json_dump': (), 'get_params': (), 'get_evaluation_history': (),
    'save_booster': ('path',), 'insert_metadata': ('key', 'value'), 'get_metadata': ('key',),
    'load_booster': ('path',), 'from_json': ('json_str',),
}
IMPURE = {'fit', 'insert_metadata', 'save_booster'}
MUTATORS = {'append', 'extend', 'pop', 'update', 'add', 'setdefault', 'insert', 'remove', 'clear', 'sort', 'discard', 'popleft'}
IGNORED = {'warnings.warn', 'warnings.simplefilter', 'warnings.filterwarnings', 'print', 'logging.getLogger'}


class Mod:
    """a module: functions, classes, constants by name"""
    def __init__(self, path):
        self.path = path
        self.tree = ast.parse(open(path).read())
        self.funcs = {}; self.classes = {}; self.consts = {}; self.imports = {}
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef): self.funcs[n.name] = n
            elif isinstance(n, ast.ClassDef): self.classes[n.name] = Cls(n)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name): self.consts[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name): self.consts[n.target.id] = n.value
            elif isinstance(n, ast.Import):
                for a in n.names: self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names: self.imports[a.asname or a.name] = (n.module or '') + '.' + a.name


class Cls:
    def __init__(self, n):
        self.node = n; self.methods = {}; self.attrs = {}; self.fields = []
        self.bases = [ast.unparse(b).split('[')[0] for b in n.bases]
        self.dataclass = any(ast.unparse(d).split('(')[0].split('.')[-1] == 'dataclass' for d in n.decorator_list)
        for x in n.body:
            if isinstance(x, ast.FunctionDef): self.methods[x.name] = x
            elif isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name): self.attrs[x.targets[0].id] = x.value
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                if x.value is not None: self.attrs[x.target.id] = x.value
                self.fields.append(x.target.id)


def decorators(f):
    return {ast.unparse(d).split('(')[0] for d in f.decorator_list}


class Frame:
    def __init__(self, name, parent=None):
        self.id = next(_n); self.name = name; self.parent = parent


SHORT = {'numpy': 'np', 'pandas': 'pd'}


class PyEval(Eval):
    def __init__(self, mods):
        self.mods = mods           # list of Mod, the first one is looked up first
        self.guards = []
        self.variant_of = {}
        self.stack = []
        self.cls_of = {}           # heap cell -> class name
        self.steps = 0
        self.used = set()          # functions put in
        self.trying_now = 0        # depth of try blocks being evaluated
        self.raise_now = []        # (condition, exception) of calls evaluated since the last statement

    # ---------------------------------------------------------------- lookup
    def find(self, what, name):
        for m in self.mods:
            d = getattr(m, what)
            if name in d: return d[name]
        return None

    def dotted(self, name):
        for m in self.mods:
            if name in m.imports:
                p = m.imports[name]
                h = p.split('.')[0]
                return SHORT.get(h, h) + p[len(h):]
        return None

    def method(self, cls, name):
        c = self.find('classes', cls)
        seen = 0
        while c is not None and seen < 6:
            if name in c.methods: return c.methods[name]
            c = next((self.find('classes', b) for b in c.bases if self.find('classes', b)), None); seen += 1
        return None

    # ---------------------------------------------------------------- values
    def alloc(self, st, v, cls=None):
        k = ('heap', next(_n))
        st[k] = v
        if cls: self.cls_of[k] = cls
        return raw('ref', k, ())

    def val(self, t, st, d=0):
        """content of a value: references are replaced by what they point to"""
        if d > 12: return t
        if t.op == 'ref':
            v = self.get(st[t.a[0]], t.a[1]) if t.a[0] in st else UNDEF
            return self.val(v, st, d + 1)
        if t.op == 'pyfn': return self.lamval(t, st)
        if t.op in ('agg', 'list', 'ite', 'cat', 'call', 'with', 'upd') and self.has(t):
            m = {}
            for x in self.refs_in(t): m[x] = self.val(x, st, d + 1)
            return replace_terms(t, m)
        return t

    def refs_in(self, t, out=None):
        if out is None: out = []
        if t.op in ('ref', 'pyfn'):
            if t not in out: out.append(t)
        elif self.has(t):
            for x in subterms(t): self.refs_in(x, out)
        return out

    _hasref = {}

    def has(self, t):
        r = self._hasref.get(t)
        if r is None:
            r = t.op in ('ref', 'pyfn') or any(self.has(x) for x in subterms(t))
            self._hasref[t] = r
        return r

    def hasref(self, t): return self.has(t)

    def lamval(self, t, st):
        node, fr = t.a[0].node, t.a[0].fr
        syms = [fresh('a') for _ in node.args.args]
        s = dict(st)
        before = list(self.raise_now)
        try: r = self.val(self.call_def(node, fr, list(syms), {}, s), s)
        except (Unsupported, Diverge): return call('lambda?')
        finally: self.raise_now = before
        return binder('lam', syms, r)

    # ---------------------------------------------------------------- truth and comparison
    def isbool(self, t):
        return t in (TRUE, FALSE) or t.op in ('lt', 'le', 'eq', 'not', 'is', 'isnan', 'exists') or \
            (t.op == 'ite' and self.isbool(t.a[1]) and self.isbool(t.a[2])) or \
            (t.op == 'call' and t.a[0] in ('isinstance', 'hasattr', 'map_has', 'in', 'np.issubdtype', 'np.isnan', 'raises', 'truth', 'np.array_equal', 'callable'))

    def isseq(self, t):
        return t.op in ('list', 'cat', 'build', 'flat', 'slice') or (t.op == 'ite' and self.isseq(t.a[1]) and self.isseq(t.a[2])) or \
            (t.op == 'call' and t.a[0] in ('aslist', 'sorted', 'map_new', 'map_insert', 'set_new', 'items', 'keys', 'values')) or (t.op == 'agg' and t.a[0] == 'tuple') or self.ismap(t) or self.isset(t) or (t.op == 's' and t in KIND) or self.kind(t) is not None

    def ismap(self, t):
        if t.op == 'call': return t.a[0] in ('map_new', 'map_insert', 'map_remove', 'map_update', 'collect_HashMap', 'map_extend', 'booster.calculate_feature_importance', 'booster.get_params')
        if t.op == 'ite': return self.ismap(t.a[1]) and self.ismap(t.a[2])
        if t.op == 'eta': return self.ismap(t.a[3][0])
        if t.op == 's': return KIND.get(t) == 'map'
        return False

    def isset(self, t):
        if t.op == 'call': return t.a[0] in ('set_new', 'set_add', 'set')
        if t.op == 'ite': return self.isset(t.a[1]) and self.isset(t.a[2])
        if t.op == 'eta': return self.isset(t.a[3][0])
        if t.op == 's': return KIND.get(t) == 'set'
        return False

    def kind(self, t):
        if self.ismap(t): return 'map'
        if self.isset(t): return 'set'
        if t.op in ('list', 'cat', 'build', 'flat', 'slice'): return 'list'
        if t.op == 'call' and t.a[0] in ('aslist', 'sorted'): return 'list'
        if t.op == 's': return KIND.get(t)
        if t.op == 'ite':
            a = self.kind(t.a[1])
            return a if a and a == self.kind(t.a[2]) else None
        return None

    def setkind(self, t, k):
        if k: KIND[t] = k

    def truth(self, t, st):
        t = self.val(t, st)
        if self.isbool(t): return t
        if t.op == 'ite': return ite(t.a[0], self.truth(t.a[1], st), self.truth(t.a[2], st))
        if t is NONE: return FALSE
        if t.op == 'c':
            if t.a[0] == 'num': return boolean(t.a[1] != 0)
            if t.a[0] == 'str': return boolean(t.a[1] != '')
        if self.isseq(t): return lt('I', ZERO, self.length(t))
        if t.op in ('len', 'poly'): return not_(eq('I', t, ZERO))
        if t.op == 'lam' or t.op == 'agg': return TRUE
        return call('truth', t)

    def length(self, t):
        if t.op == 'ite': return ite(t.a[0], self.length(t.a[1]), self.length(t.a[2]))
        if t.op == 'agg' and t.a[0] == 'tuple': return num(len(t.a) - 3)
        if t.op == 'call' and t.a[0] in ('aslist', 'keys', 'items', 'values', 'rev', 'sorted'): return self.length(t.a[2])
        if t.op == 'call' and t.a[0] == 'map_new': return ZERO
        return len_(t)

    def isnone(self, t):
        if t is NONE: return TRUE
        if t.op == 'f' and t.a[0] == 'feature_names_in_': return FALSE
        if t.op in ('c', 'list', 'lam', 'build', 'flat', 'cat', 'poly', 'len', 'with') or (t.op == 'agg' and t.a[0] != 'Option'): return FALSE
        if t.op == 'ite': return ite(t.a[0], self.isnone(t.a[1]), self.isnone(t.a[2]))
        if t.op == 'call' and t.a[0] in ('set_new', 'set', 'set_add', 'map_new', 'map_insert', 'aslist', 'sorted', 'collect_HashMap', 'map_remove', 'np.full', 'str', 'concat', 'GradientBooster'): return FALSE
        return is_('None', t, 'Option')

    def compare(self, op, a, b, st):
        a, b = self.val(a, st), self.val(b, st)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if b is NONE: r = self.isnone(a)
            elif a is NONE: r = self.isnone(b)
            elif f64(b) and a.op in ('f', 'ite') and dtype_like(a): r = dtype64(a)
            else:
                k = 'I' if self.isint(a) or self.isint(b) else ('B' if self.isbool(a) and self.isbool(b) else 'O')
                r = eq(k, a, b)
            return not_(r) if isinstance(op, (ast.IsNot, ast.NotEq)) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return not_(r) if isinstance(op, ast.NotIn) else r
        k = 'I' if self.isint(a) or self.isint(b) else 'F'
        if isinstance(op, ast.Lt): return lt(k, a, b)
        if isinstance(op, ast.LtE): return le(k, a, b)
        if isinstance(op, ast.Gt): return lt(k, b, a)
        if isinstance(op, ast.GtE): return le(k, b, a)
        raise Unsupported('comparison')

    def contains(self, c, x):
        if c.op == 'list' or (c.op == 'agg' and c.a[0] == 'tuple'):
            r = FALSE
            for y in (c.a if c.op == 'list' else c.a[3:]): r = or_(r, eq('O', x, y))
            return r
        if c.op == 'call' and c.a[0] in ('keys', 'aslist', 'set'): return self.contains(c.a[2], x)
        if self.ismap(c): return call('map_has', c, x)
        if c.op == 'ite': return ite(c.a[0], self.contains(c.a[1], x), self.contains(c.a[2], x))
        return call('map_has', c, x)

    def isint(self, t):
        if t.op == 'ite': return self.isint(t.a[1]) or self.isint(t.a[2])
        if t.op == 'len' or t.op == 'firstor': return True
        if t.op == 'poly': return any(self.isint(x) for m, _ in t.a[0] for x, _ in m)
        if t.op == 'call': return t.a[0] in ('len', 'minlen')
        if t.op == 's': return t.a[0] in ('n', 'b', 'k')
        return False

    # ---------------------------------------------------------------- statements
    def block(self, body, st, fr):
        """-> list of (kind, condition, state); exclusive conditions"""
        outs = []; cond = TRUE
        for x in body:
            res = self.stmt(x, st, fr)
            nx = []
            for k, c, s in res:
                c2 = and_(cond, c)
                if c2 is FALSE: continue
                if k == 'next': nx.append((c, s))
                else: outs.append((k, c2, s))
            if not nx: return outs
            st = self.join(nx)
            t = nx[0][0]
            for c, _ in nx[1:]: t = or_(t, c)
            cond = and_(cond, t)
        outs.append(('next', cond, st))
        return outs

    def join(self, xs):
        if 1 < len(xs) <= 8:
            # which of them it is, where it is one of them at all
            B = BDD()
            cs = [B.of(c) for c, _ in xs]
            if len(B.vars) <= 16:
                sel = B.selector(cs)
                keys = {}
                for _, s in xs:
                    for k in s: keys[k] = 1
                out = {}
                for k in keys:
                    vs = [s.get(k, UNDEF) for _, s in xs]
                    out[k] = vs[0] if all(v is vs[0] for v in vs) else B.select(sel, vs)
                return out
        c, s = xs[-1]
        out = dict(s)
        for c, s in reversed(xs[:-1]):
            if s is out: continue
            for k in set(out) | set(s):
                a, b = s.get(k, UNDEF), out.get(k, UNDEF)
                out[k] = a if a is b else ite(c, a, b)
        return out

    def stmt(self, x, st, fr):
        self.steps += 1
        if self.steps > 60000: raise Unsupported('budget')
        N = lambda s: [('next', TRUE, s)]
        if isinstance(x, ast.Expr):
            if isinstance(x.value, ast.Constant): return N(st)
            s = dict(st); self.expr(x.value, s, fr); return self.after(s, fr, st)
        if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if x.__class__ is ast.AnnAssign and x.value is None: return N(st)
            s = dict(st)
            if isinstance(x, ast.AugAssign):
                import copy
                tgt = copy.copy(x.target); tgt.ctx = ast.Load()
                v = self.binop(x.op, self.expr(tgt, s, fr), self.expr(x.value, s, fr), s)
                self.assign(x.target, v, s, fr)
            else:
                v = self.expr(x.value, s, fr)
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]): self.assign(t, v, s, fr)
            return self.after(s, fr, st)
        if isinstance(x, ast.Return):
            s = dict(st)
            v = self.expr(x.value, s, fr) if x.value is not None else NONE
            s[('ret', fr.id)] = v
            return [('ret' if k == 'next' else k, c, z) for k, c, z in self.after(s, fr, st)]
        if isinstance(x, ast.Raise):
            s = dict(st)
            e = x.exc
            if e is None: n = 'reraise'
            else: n = ast.unparse(e.func if isinstance(e, ast.Call) else e).split('.')[-1]
            s[('exc', 0)] = string(n)
            return [('raise', TRUE, s)]
        if isinstance(x, ast.If):
            s = dict(st)
            c = self.truth(self.expr(x.test, s, fr), s)
            pre = self.after(s, fr, st)
            out = []
            for k, pc, ps in pre:
                if k != 'next': out.append((k, pc, ps)); continue
                for cc, b in ((c, x.body), (not_(c), x.orelse)):
                    if cc is FALSE: continue
                    for k2, c2, s2 in self.block(b, dict(ps), fr): out.append((k2, and_(pc, and_(cc, c2)), s2))
            return out
        if isinstance(x, (ast.For, ast.While)):
            if x.orelse: raise Unsupported('loop else')
            return self.loopstmt(x, st, fr)
        if isinstance(x, ast.Pass): return N(st)
        if isinstance(x, ast.Break): return [('break', TRUE, st)]
        if isinstance(x, ast.Continue): return [('continue', TRUE, st)]
        if isinstance(x, ast.With):
            s = dict(st)
            for i in x.items:
                v = self.expr(i.context_expr, s, fr)
                if i.optional_vars is not None: self.assign(i.optional_vars, v, s, fr)
            return self.block(x.body, s, fr)
        if isinstance(x, ast.Try): return self.trystmt(x, st, fr)
        if isinstance(x, ast.FunctionDef):
            s = dict(st); s[('v', fr.id, x.name)] = raw('pyfn', PyFn(x, fr)); return N(s)
        if isinstance(x, ast.Delete):
            s = dict(st)
            for t in x.targets:
                if isinstance(t, ast.Subscript):
                    b = self.expr(t.value, s, fr); k = self.val(self.expr(t.slice, s, fr), s)
                    self.store_loc(t.value, map_remove(self.val(b, s), k), s, fr)
                elif isinstance(t, ast.Attribute):
                    self.store_loc(t.value, call('delattr', self.val(self.expr(t.value, s, fr), s), string(t.attr)), s, fr)
                else: pass
            return N(s)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            return N(st)
        if isinstance(x, ast.Assert): return N(st)
        if isinstance(x, (ast.Global, ast.Nonlocal)): raise Unsupported('global')
        raise Unsupported(type(x).__name__)

    def after(self, s, fr, before):
        """outcomes of a statement whose expressions may raise inside a try block"""
        r, self.raise_now = self.raise_now, []
        if not self.trying_now: r = [x for x in r if not (x[0].op == 'call' and x[0].a[0] == 'raises')]
        if not r: return [('next', TRUE, s)]
        out = []; ok_ = TRUE
        for c, exc in r:
            b = dict(before); b[('exc', 0)] = exc
            out.append(('raise', and_(ok_, c), b)); ok_ = and_(ok_, not_(c))
        out.append(('next', ok_, s))
        return out

    def trystmt(self, x, st, fr):
        if x.finalbody: raise Unsupported('finally')
        self.trying_now += 1
        try: res = self.block(x.body, dict(st), fr)
        finally: self.trying_now -= 1
        if x.orelse:
            r2 = []
            for k, c, s in res:
                if k != 'next': r2.append((k, c, s, False)); continue
                for k2, c2, s2 in self.block(x.orelse, s, fr): r2.append((k2, and_(c, c2), s2, True))
        else: r2 = [(k, c, s, False) for k, c, s in res]
        out = []
        for k, c, s, late in r2:
            if k != 'raise' or late: out.append((k, c, s)); continue
            rest = TRUE
            for h in x.handlers:
                names = None
                if h.type is not None:
                    names = [ast.unparse(n).split('.')[-1] for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                e = s[('exc', 0)]
                if names is None or 'Exception' in names or 'BaseException' in names: m = TRUE
                else:
                    m = FALSE
                    for n in names: m = or_(m, eq('O', e, string(n)))
                m2 = and_(rest, m)
                if m2 is not FALSE:
                    s3 = dict(s); s3.pop(('exc', 0), None)
                    if h.name: s3[('v', fr.id, h.name)] = call('exception', e)
                    for k2, c2, s2 in self.block(h.body, s3, fr):
                        if k2 == 'raise' and s2.get(('exc', 0)) is string('reraise'): s2 = dict(s2); s2[('exc', 0)] = e
                        out.append((k2, and_(and_(c, m2), c2), s2))
                rest = and_(rest, not_(m))
            if rest is not FALSE: out.append(('raise', and_(c, rest), s))
        return out

    def loopstmt(self, x, st, fr):
        s = dict(st)
        if isinstance(x, ast.For):
            S = self.seq(self.expr(x.iter, s, fr), s)
            if S.op == 'list' and len(S.a) <= 12: return self.unroll(x, S.a, s, fr)
            bind = lambda z, i: self.assign(x.target, self.elem(S, i), z, fr)
            return self.loop(lambda z, i: lt('I', i, self.length(S)), bind, lambda z: self.block(x.body, z, fr), s, fr)
        return self.loop(lambda z, i: self.truth(self.expr(x.test, z, fr), z), None, lambda z: self.block(x.body, z, fr), s, fr)

    def unroll(self, x, elems, s, fr):
        out = []; cur = s; cond = TRUE
        for e in elems:
            z = dict(cur); self.assign(x.target, e, z, fr)
            nx = []
            for k, c, s2 in self.block(x.body, z, fr):
                if k in ('next', 'continue'): nx.append((c, s2))
                elif k == 'break': out.append(('next', and_(cond, c), s2))
                else: out.append((k, and_(cond, c), s2))
            if not nx: return out
            cur = self.join(nx)
            t = nx[0][0]
            for c, _ in nx[1:]: t = or_(t, c)
            cond = and_(cond, t)
        out.append(('next', cond, cur))
        return out

    def loop(self, test, bind, body, st, fr):
        it = ('it', next(_n))
        st = dict(st); st[it] = ZERO
        def step(s):
            i = s[it]
            c = test(s, i)
            out = []
            if c is not TRUE: out.append(('exit', not_(c), dict(s)))
            z = dict(s)
            if bind: bind(z, i)
            back = []
            groups = {}
            for k, c2, s2 in body(z):
                c3 = and_(c, c2)
                if c3 is FALSE: continue
                if k in ('next', 'continue'):
                    s2 = dict(s2); s2[it] = add(i, ONE); back.append((c3, s2))
                else: groups.setdefault('exit' if k == 'break' else k, []).append((c3, s2))
            for k, xs in groups.items():
                out.append((k if k != 'exit' else 'brk', self.orall(xs), self.join(xs)))
            if back: out.append(('back', self.orall(back), self.join(back)))
            return out
        res = loops.solve(self, step, st)
        out = []
        for k, c, s in res:
            s = {n: mapeta(v) if v.op == 'eta' or v.op == 'call' and v.a[0] in ('collect_HashMap', 'map_extend') else v for n, v in s.items()}; s.pop(it, None)
            out.append(('next' if k in ('exit', 'brk') else k, c, s))
        return out

    def orall(self, xs):
        t = FALSE
        for c, _ in xs: t = or_(t, c)
        return t

    # ---------------------------------------------------------------- sequences
    def seq(self, t, st):
        t = self.val(t, st)
        if t.op == 'call':
            if t.a[0] == 'aslist': return self.seq(t.a[2], st)
            if t.a[0] == 'set' and t.a[2].op in ('list',): return t
        if t.op == 'agg' and t.a[0] == 'tuple': return lst(*t.a[3:])
        if self.ismap(t):
            ks = const_items(t)
            if ks is not None: return lst(*[k for k, _ in ks])
            return call('keys', t)
        if t.op == 'call' and t.a[0] in ('keys', 'items', 'values'):
            ks = const_items(t.a[2])
            if ks is not None: return lst(*[(k if t.a[0] == 'keys' else v if t.a[0] == 'values' else tup(k, v)) for k, v in ks])
        return t

    def elem(self, S, i):
        if S.op == 'call' and S.a[0] == 'items':
            e = idx(S, i)
            return tup(raw('f', '0', e), raw('f', '1', e))
        if S.op == 'call' and S.a[0] == 'keys': return raw('f', '0', idx(call('items', S.a[2]), i))
        if S.op == 'call' and S.a[0] == 'values': return raw('f', '1', idx(call('items', S.a[2]), i))
        if S.op == 'agg' and S.a[0] == 'tuple' and isnum(i): return S.a[3 + int(i.a[1])]
        if S.op == 'call' and S.a[0] == 'aslist': return self.elem(S.a[2], i)
        if S.op == 'call' and S.a[0] == 'rev': return self.elem(S.a[2], sub(sub(self.length(S.a[2]), ONE), i))
        if S.op == 'f' and S.a[0] == 'shape':
            x = self.unwrap_rows(S.a[1])
            return len_(x) if i is ZERO else idx(field(x, 'shape'), i)
        if S.op == 'ite': return ite(S.a[0], self.elem(S.a[1], i), self.elem(S.a[2], i))
        return idx(S, i)

    def unwrap_rows(self, x):
        """conversions that keep the number of rows"""
        while x.op == 'call' and x.a[0] in ('.to_numpy', 'astype') : x = x.a[2]
        if x.op == 'ite':
            a, b = self.unwrap_rows(x.a[1]), self.unwrap_rows(x.a[2])
            return a if a is b else ite(x.a[0], a, b)
        return x

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name): st[('v', fr.id, t.id)] = v; return
        if isinstance(t, (ast.Tuple, ast.List)):
            w = self.val(v, st)
            if any(isinstance(e, ast.Starred) for e in t.elts): raise Unsupported('starred')
            for i, e in enumerate(t.elts): self.assign(e, self.elem(w, num(i)) if not (w.op == 'list' and i < len(w.a)) else w.a[i], st, fr)
            return
        if isinstance(t, ast.Attribute):
            o = self.expr(t.value, st, fr)
            if o.op == 'ref':
                cur = self.get(st[o.a[0]], o.a[1])
                st[o.a[0]] = self.set(st[o.a[0]], o.a[1], self.setattr_(cur, t.attr, self.val(v, st) if not (v.op == 'ref' and v.a[0] in self.cls_of) else v))
                return
            self.store_loc(t.value, self.setattr_(self.val(o, st), t.attr, self.val(v, st)), st, fr); return
        if isinstance(t, ast.Subscript):
            o = self.expr(t.value, st, fr); k = self.val(self.expr(t.slice, st, fr), st)
            w = self.setitem(self.val(o, st), k, self.val(v, st))
            self.store_loc(t.value, w, st, fr); return
        raise Unsupported('assignment target')

    def setattr_(self, o, n, v):
        if o.op == 'ite': return ite(o.a[0], self.setattr_(o.a[1], n, v), self.setattr_(o.a[2], n, v))
        return with_(o, {n: v})

    def setitem(self, o, k, v):
        if o.op == 'ite': return ite(o.a[0], self.setitem(o.a[1], k, v), self.setitem(o.a[2], k, v))
        if o.op == 'list' and isnum(k): return upd(o, k, v)
        return call('map_insert', o, k, v)

    def store_loc(self, e, v, st, fr):
        """write v where expression e lives"""
        o = self.expr(e, st, fr)
        if o.op == 'ref':
            st[o.a[0]] = self.set(st[o.a[0]], o.a[1], v); return
        if isinstance(e, ast.Name):
            f = fr
            while f is not None:
                if ('v', f.id, e.id) in st: st[('v', f.id, e.id)] = v; return
                f = f.parent
            raise Unsupported('store to ' + e.id)
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            self.assign(e, v, st, fr); return
        # a temporary: no effect to keep

    # ---------------------------------------------------------------- expressions
    def expr(self, e, st, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression ' + type(e).__name__)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        v = e.value
        if v is None: return NONE
        if v is True: return TRUE
        if v is False: return FALSE
        if isinstance(v, (int, float)): return num(Fraction(v)) if v == v and abs(v) != float('inf') else (NAN if v != v else INF)
        if isinstance(v, str): return string(v)
        return raw('konst', repr(v))

    def e_Name(self, e, st, fr):
        f = fr
        while f is not None:
            k = ('v', f.id, e.id)
            if k in st: return st[k]
            f = f.parent
        if self.find('funcs', e.id): return raw('pyfn', PyFn(self.find('funcs', e.id), None))
        if self.find('consts', e.id) is not None and not self.dotted(e.id):
            return self.const(e.id, st)
        if self.find('classes', e.id): return raw('class', e.id)
        d = self.dotted(e.id)
        if d: return raw('mod', d)
        return raw('mod', e.id)

    def const(self, n, st):
        return self.val(self.expr(self.find('consts', n), st, Frame('module')), st)

    def e_Attribute(self, e, st, fr):
        return self.getattr_(self.expr(e.value, st, fr), e.attr, st, fr)

    def getattr_(self, o, n, st, fr):
        if o.op == 'mod':
            d = o.a[0] + '.' + n
            if d in ('np.nan', 'np.NaN', 'math.nan'): return NAN
            if d in ('np.inf', 'math.inf'): return INF
            return raw('mod', d)
        if o.op == 'class':
            c = self.find('classes', o.a[0])
            if n in c.methods:
                m = c.methods[n]
                if 'classmethod' in decorators(m): return raw('bound', PyFn(m, None), o)
                return raw('pyfn', PyFn(m, None))
            if n in c.attrs: return self.val(self.expr(c.attrs[n], st, Frame('class')), st)
            return field(o, n)
        if o.op == 'ref':
            cell = o.a[0]
            v = self.get(st[cell], o.a[1])
            cls = self.cls_of.get(cell) if not o.a[1] else None
            if cls:
                return self.objattr(cls, v, o, n, st, fr)
            return self.fieldval(self.val(o, st), n)
        if o.op == 'call' and o.a[0] == 'new' and o.a[2].op == 'class':
            return self.objattr(o.a[2].a[0], o, o, n, st, fr)
        return self.fieldval(self.val(o, st), n)

    def objattr(self, cls, v, o, n, st, fr):
        if n == '__class__': return raw('class', cls)
        m = self.method(cls, n)
        if m is not None:
            d = decorators(m)
            if d & {'property', 'cached_property', 'functools.cached_property'}: return self.call_def(m, None, [o], {}, st)
            if 'staticmethod' in d: return raw('pyfn', PyFn(m, None))
            if 'classmethod' in d: return raw('bound', PyFn(m, None), raw('class', cls))
            return raw('bound', PyFn(m, None), o)
        c = self.find('classes', cls)
        if n == 'booster' and o.op == 'ref' and not o.a[1]: return raw('ref', o.a[0], (('f', n),))
        if n in c.attrs and n not in with_parts(v)[1]: return self.val(self.expr(c.attrs[n], st, Frame('class')), st)
        return field(v, n)

    def fieldval(self, v, n):
        if n == 'values' and v.op != 'agg': return self.opmethod(v, 'to_numpy', [], {})
        if n == 'T': return transpose(v)
        if v.op == 'ite': return ite(v.a[0], self.fieldval(v.a[1], n), self.fieldval(v.a[2], n))
        return field(v, n)

    def e_Subscript(self, e, st, fr):
        o = self.expr(e.value, st, fr)
        if o.op == 'mod': return raw('mod', o.a[0] + '[]')
        k = self.val(self.expr(e.slice, st, fr), st)
        return self.getitem(self.val(o, st), k, st)

    def getitem(self, o, k, st):
        if o.op == 'ite': return ite(o.a[0], self.getitem(o.a[1], k, st), self.getitem(o.a[2], k, st))
        if o.op == 'eta' or o.op == 'call' and o.a[0] == 'collect_HashMap':
            r = counted(o, k)
            if r is not None: return r
        if k.op == 'f' and k.a[0] == '0' and k.a[1].op == 'idx' and k.a[1].a[0] is call('items', o): return raw('f', '1', k.a[1])
        if self.ismap(o) or (k.op == 'c' and k.a[0] == 'str'):
            ci = const_items(o) if self.ismap(o) else None
            if ci is not None and k.op != 'c':
                r = UNDEF
                for a, b in reversed(ci): r = ite(eq('O', k, a), b, r)
                return r
            return call('map_get', o, k)
        if k.op == 'pyslice':
            lo, hi, sp = k.a
            if sp is NONE and self.isseq(o): return slice_(o, ZERO if lo is NONE else lo, self.length(o) if hi is NONE else hi)
            return call('getitem', o, k)
        full = raw('pyslice', NONE, NONE, NONE)
        if k.op == 'agg' and k.a[0] == 'tuple':
            if o.op == 'f' and o.a[0] in ('loc', 'iloc') and k.a[3] is full: return call(o.a[0], o.a[1], k.a[4])
            return call('getitem', o, k)
        if o is param('X'): return call('loc', o, k)
        if self.isbool(k) or (k.op == 'call' and k.a[0] in ('~', '|', '&')): return call('getitem', o, k)
        return self.elem(o, k)

    def e_Slice(self, e, st, fr):
        g = lambda x: NONE if x is None else self.val(self.expr(x, st, fr), st)
        return raw('pyslice', g(e.lower), g(e.upper), g(e.step))

    def e_Tuple(self, e, st, fr):
        return tup(*[self.expr(x, st, fr) for x in e.elts]) if e.elts else UNIT

    def e_List(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = lst()
            for x in e.elts:
                if isinstance(x, ast.Starred): r = cat(r, self.seq(self.expr(x.value, st, fr), st))
                else: r = cat(r, lst(self.val(self.expr(x, st, fr), st)))
            return self.alloc(st, r)
        return self.alloc(st, lst(*[self.val(self.expr(x, st, fr), st) for x in e.elts]))

    def e_Set(self, e, st, fr):
        v = call('set_new')
        for x in e.elts: v = call('set_add', v, self.val(self.expr(x, st, fr), st))
        return self.alloc(st, v)

    def e_Dict(self, e, st, fr):
        v = call('map_new')
        for k, x in zip(e.keys, e.values):
            if k is None: v = self.update(v, self.val(self.expr(x, st, fr), st))
            else:
                kk = self.val(self.expr(k, st, fr), st)
                v = call('map_insert', v, kk, self.val(self.expr(x, st, fr), st))
        return self.alloc(st, v)

    def update(self, m, o):
        if m is call('map_new'): return o
        ci = const_items(o)
        if ci is not None:
            for k, v in ci: m = call('map_insert', m, k, v)
            return m
        return call('map_update', m, o)

    def e_Lambda(self, e, st, fr): return raw('pyfn', PyFn(e, fr))

    def e_IfExp(self, e, st, fr):
        c = self.truth(self.expr(e.test, st, fr), st)
        if c is TRUE: return self.expr(e.body, st, fr)
        if c is FALSE: return self.expr(e.orelse, st, fr)
        s1 = dict(st); s2 = dict(st)
        a = self.expr(e.body, s1, fr); b = self.expr(e.orelse, s2, fr)
        a, b = self.val(a, s1), self.val(b, s2)
        j = self.join([(c, s1), (TRUE, s2)]); st.clear(); st.update(j)
        return ite(c, a, b)

    def e_BoolOp(self, e, st, fr):
        vs = [self.expr(x, st, fr) for x in e.values]      # operands are pure in this code base
        r = None
        for v in reversed(vs):
            v = self.val(v, st)
            if r is None: r = v
            elif isinstance(e.op, ast.And): r = ite(self.truth(v, st), r, v if not self.isbool(v) else FALSE)
            else: r = ite(self.truth(v, st), v if not self.isbool(v) else TRUE, r)
        return r

    def e_UnaryOp(self, e, st, fr):
        v = self.val(self.expr(e.operand, st, fr), st)
        if isinstance(e.op, ast.Not): return not_(self.truth(v, st))
        if isinstance(e.op, ast.USub): return neg(v)
        if isinstance(e.op, ast.UAdd): return v
        return invert(v, self)

    def e_Compare(self, e, st, fr):
        l = self.expr(e.left, st, fr); r = TRUE
        for op, c in zip(e.ops, e.comparators):
            x = self.expr(c, st, fr)
            r = and_(r, self.compare(op, l, x, st)); l = x
        return r

    def e_BinOp(self, e, st, fr):
        return self.binop(e.op, self.expr(e.left, st, fr), self.expr(e.right, st, fr), st)

    def isstr(self, t):
        return (t.op == 'c' and t.a[0] == 'str') or (t.op == 'call' and t.a[0] in ('concat', 'str'))

    def binop(self, op, a, b, st):
        a, b = self.val(a, st), self.val(b, st)
        if isinstance(op, ast.Add):
            if self.isstr(a) or self.isstr(b): return concat(a, b)
            if self.isseq(a) or self.isseq(b): return cat(a, b)
            return add(a, b)
        if isinstance(op, ast.Sub): return sub(a, b)
        if isinstance(op, ast.Mult): return mul(a, b)
        if isinstance(op, ast.Div): return div(a, b)
        if isinstance(op, ast.BitOr) and self.ismap(a): return self.update(a, b)
        n = {ast.BitOr: '|', ast.BitAnd: '&', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitXor: '^'}.get(type(op))
        if n is None: raise Unsupported('operator')
        if n in ('|', '&') and b.id < a.id: a, b = b, a
        return call(n, a, b)

    def e_JoinedStr(self, e, st, fr):
        r = string('')
        for x in e.values:
            if isinstance(x, ast.Constant): r = concat(r, string(x.value))
            else:
                v = self.val(self.expr(x.value, st, fr), st)
                if x.format_spec is not None or x.conversion not in (-1, 115): v = call('format', v, string(ast.unparse(x.format_spec) if x.format_spec else str(x.conversion)))
                r = concat(r, tostr(v))
        return r

    def e_NamedExpr(self, e, st, fr):
        v = self.expr(e.value, st, fr); self.assign(e.target, v, st, fr); return v

    def e_Starred(self, e, st, fr): raise Unsupported('starred')

    # comprehensions are loops over a fresh container
    def comp(self, gens, emit, init, st, fr):
        out = self.alloc(st, init)
        f2 = Frame('comp', fr); before = list(self.raise_now)
        def rec(i, s):
            if i == len(gens):
                z = dict(s); emit(z, f2, out); return self.after(z, f2, s)
            g = gens[i]
            S = self.seq(self.expr(g.iter, s, f2 if i else fr), s)
            def body(z):
                c = TRUE
                for t in g.ifs: c = and_(c, self.truth(self.expr(t, z, f2), z))
                r = []
                if c is not TRUE: r.append(('next', not_(c), dict(z)))
                if c is not FALSE: r += [(k, and_(c, c2), s2) for k, c2, s2 in rec(i + 1, dict(z))]
                return r
            if S.op == 'list' and len(S.a) <= 12:
                cur = dict(s); bad = []; cond = TRUE
                for e in S.a:
                    z = dict(cur); self.assign(g.target, e, z, f2)
                    r = body(z)
                    bad += [(and_(cond, c), x) for k, c, x in r if k == 'raise']
                    nx = [(c, x) for k, c, x in r if k != 'raise']
                    if not nx: break
                    cond = and_(cond, self.orall(nx))
                    cur = self.join(nx)
                return [('raise', c, x) for c, x in bad] + [('next', cond, cur)]
            return self.loop(lambda z, i_: lt('I', i_, self.length(S)), lambda z, i_: self.assign(g.target, self.elem(S, i_), z, f2), body, s, f2)
        self.raise_now = []
        res = rec(0, dict(st))
        self.raise_now = before + [(c, x[('exc', 0)]) for k, c, x in res if k == 'raise']
        ok_ = [(c, x) for k, c, x in res if k != 'raise']
        if not ok_: raise Diverge()
        s = self.join(ok_)
        keep = {k: v for k, v in s.items() if not (k[0] == 'v' and k[1] == f2.id)}
        st.clear(); st.update(keep)
        return out

    def e_ListComp(self, e, st, fr):
        def emit(s, f, out): s[out.a[0]] = push(s[out.a[0]], self.val(self.expr(e.elt, s, f), s))
        return self.comp(e.generators, emit, lst(), st, fr)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, fr):
        def emit(s, f, out): s[out.a[0]] = call('set_add', s[out.a[0]], self.val(self.expr(e.elt, s, f), s))
        return self.comp(e.generators, emit, call('set_new'), st, fr)

    def e_DictComp(self, e, st, fr):
        def emit(s, f, out):
            k = self.val(self.expr(e.key, s, f), s)
            s[out.a[0]] = call('map_insert', s[out.a[0]], k, self.val(self.expr(e.value, s, f), s))
        return self.comp(e.generators, emit, call('map_new'), st, fr)

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        f = e.func
        base = None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super': raise Unsupported('super')
            base = self.expr(f.value, st, fr)
            if base.op not in ('mod', 'class') and not (base.op == 'ref' and base.a[0] in self.cls_of and not base.a[1]) and not (base.op == 'call' and base.a[0] == 'new'):
                return self.methodcall(e, base, f, st, fr)
            fn = self.getattr_(base, f.attr, st, fr)
        else:
            fn = self.expr(f, st, fr)
        if fn.op == 'mod' and fn.a[0] in IGNORED or (fn.op == 'mod' and fn.a[0].startswith('warnings.')): return NONE
        if fn.op == 'mod' and fn.a[0].split('.')[-1] == 'cast' and len(e.args) == 2: return self.expr(e.args[1], st, fr)
        if fn.op == 'mod' and fn.a[0] in ('set', 'frozenset', 'list', 'tuple', 'dict', 'sorted', 'sum', 'any', 'all') and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], ast.GeneratorExp):
            g = e.args[0]
            if fn.a[0] in ('set', 'frozenset'): return self.e_SetComp(g, st, fr)
            if fn.a[0] == 'dict' and isinstance(g.elt, ast.Tuple) and len(g.elt.elts) == 2:
                d = ast.DictComp(g.elt.elts[0], g.elt.elts[1], g.generators); return self.e_DictComp(d, st, fr)
            if fn.a[0] == 'any':
                v = self.val(self.e_ListComp(g, st, fr), st)
                return self.anyof(v, st)
            if fn.a[0] == 'all':
                v = self.val(self.e_ListComp(ast.ListComp(ast.UnaryOp(ast.Not(), g.elt), g.generators), st, fr), st)
                return not_(self.anyof(v, st))
        args, kw, star = self.arguments(e, st, fr)
        return self.callany(fn, args, kw, star, st, fr, e)

    def arguments(self, e, st, fr):
        args = []; kw = {}; star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.seq(self.expr(a.value, st, fr), st)
                if v.op != 'list': raise Unsupported('starred argument')
                args += list(v.a)
            else: args.append(self.expr(a, st, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.val(self.expr(k.value, st, fr), st)
                ci = const_items(v)
                if ci is not None and all(x.op == 'c' and x.a[0] == 'str' for x, _ in ci):
                    for x, y in ci: kw[x.a[1]] = y
                else: star = v if star is None else call('map_update', star, v)
            else: kw[k.arg] = self.expr(k.value, st, fr)
        return args, kw, star

    def anyof(self, v, st):
        if v.op == 'list':
            r = FALSE
            for x in v.a: r = or_(r, self.truth(x, st))
            return r
        if v.op == 'build':
            syms, (n, b) = open_binder(v)
            return exists(syms, n, self.truth(b, st))
        return call('any', v)

    def callany(self, fn, args, kw, star, st, fr, e=None):
        if fn.op == 'ite':
            s1, s2 = dict(st), dict(st)
            a = self.val(self.callany(fn.a[1], args, kw, star, s1, fr), s1); b = self.val(self.callany(fn.a[2], args, kw, star, s2, fr), s2)
            j = self.join([(fn.a[0], s1), (TRUE, s2)]); st.clear(); st.update(j)
            return ite(fn.a[0], a, b)
        if fn.op == 'pyfn':
            node = fn.a[0].node
            if getattr(node, 'name', '') == '__init__':
                v = args[0]
                new = self.opaque('GradientBooster.__init__', [self.val(v, st)], kw, star, st)
                self.storeref(st, v, new) if v.op == 'ref' else None
                return NONE
            return self.call_def(node, fn.a[0].fr, args, kw, st, star)
        if fn.op == 'bound' and fn.a[0].node.name == '__init__' and star is not None:
            return self.callany(raw('pyfn', fn.a[0]), [fn.a[1]] + args, kw, star, st, fr)
        if fn.op == 'bound': return self.call_def(fn.a[0].node, None, [fn.a[1]] + args, kw, st, star)
        if fn.op == 'class':
            c = self.find('classes', fn.a[0])
            if c.dataclass:
                for n, a in zip(c.fields, args): kw[n] = a
                return self.opaque(fn.a[0], [], kw, star, st)
            if '__init__' not in c.methods and not args and not kw: return raw('call', 'new', (), fn)
            return self.alloc(st, self.opaque(fn.a[0], args, kw, star, st), fn.a[0])
        if fn.op == 'mod': return self.builtin(fn.a[0], args, kw, star, st, fr)
        return self.opaque('apply', [fn] + args, kw, star, st)

    def opaque(self, key, args, kw, star, st, ref=False):
        vals = [self.val(a, st) for a in args]
        if kw:
            ns = sorted(kw)
            vals.append(agg('kw', 'kw', ns, [self.val(kw[n], st) for n in ns]))
        if star is not None: vals.append(call('**', star))
        return call(key, *vals)

    def call_def(self, node, pfr, args, kw, st, star=None):
        if star is not None: raise Unsupported('** into a known function')
        if len(self.stack) > 25 or self.stack.count(id(node)) > 0: raise Unsupported('recursion')
        fr = Frame(getattr(node, 'name', 'lambda'), pfr)
        self.used.add(fr.name)
        a = node.args
        if a.vararg or a.kwarg: raise Unsupported('varargs')
        names = [x.arg for x in a.posonlyargs + a.args]
        s = dict(st)
        bound = {}
        for n, v in zip(names, args): bound[n] = v
        for n, v in kw.items(): bound[n] = v
        ds = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None: ds[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in bound: s[('v', fr.id, n)] = bound[n]
            elif n in ds: s[('v', fr.id, n)] = self.expr(ds[n], s, Frame('default', pfr))
            else: raise Unsupported('missing argument ' + n)
        self.stack.append(id(node))
        try:
            if isinstance(node, ast.Lambda):
                v = self.expr(node.body, s, fr)
                res = [('ret', TRUE, dict(s, **{}))]; res[0][2][('ret', fr.id)] = v
            else: res = self.block(node.body, s, fr)
        finally: self.stack.pop()
        rets = []; raises = []
        for k, c, z in res:
            if k == 'raise': raises.append((c, z[('exc', 0)]))
            else:
                z = dict(z)
                if k == 'next': z[('ret', fr.id)] = NONE
                rets.append((c, z))
        self.raise_now += raises
        if not rets: raise Diverge()
        z = self.join(rets)
        v = z.pop(('ret', fr.id))
        for k in [k for k in z if k[0] == 'v' and k[1] == fr.id]:
            if not self.captured(v, fr): del z[k]
        z.pop(('exc', 0), None)
        st.clear(); st.update(z)
        return v

    def captured(self, v, fr): return v.op == 'pyfn' and v.a[0].fr is fr

    def builtin(self, n, args, kw, star, st, fr):
        v = [self.val(a, st) for a in args]
        kv = {k: self.val(x, st) for k, x in kw.items()}
        tail = n.split('.')[-1]
        if star is None and not kw:
            if n == 'len': return self.length(v[0])
            if n in ('set', 'frozenset'): return self.alloc(st, call('set_new') if not v else (v[0] if self.isset(v[0]) else call('set', strip_list(v[0]))))
            if n == 'list' : return self.alloc(st, lst() if not v else aslist(v[0]))
            if n == 'tuple': return UNIT if not v else aslist(v[0])
            if n == 'dict' and v and v[0].op in ('build', 'list', 'cat'):
                out = self.alloc(st, call('map_new')); S = v[0]
                def ins(z, e): z[out.a[0]] = call('map_insert', z[out.a[0]], self.elem(e, ZERO), self.elem(e, ONE))
                if S.op == 'list':
                    for e in S.a: ins(st, e)
                    return out
                def body(z): ins(z, z[('v', 'dict', 'e')]); return [('next', TRUE, z)]
                res = self.loop(lambda z, i: lt('I', i, self.length(S)), lambda z, i: z.update({('v', 'dict', 'e'): self.elem(S, i)}), body, dict(st), fr)
                z = self.join([(c, x) for _, c, x in res]); z.pop(('v', 'dict', 'e'), None)
                st.clear(); st.update(z)
                return out
            if n == 'dict': return self.alloc(st, call('map_new') if not v else v[0])
            if n in ('min', 'max') and len(v) == 2:
                return ite(lt('F', v[1], v[0]) if n == 'min' else lt('F', v[0], v[1]), v[1], v[0])
            if n == 'str': return tostr(v[0])
            if n == 'range':
                lo, hi = (ZERO, v[0]) if len(v) == 1 else (v[0], v[1])
                if len(v) > 2: return call('range', *v)
                i = fresh('b'); return build([i], sub(hi, lo), add(lo, i)) if not isnum(sub(hi, lo)) else lst(*[add(lo, num(k)) for k in range(max(0, int(sub(hi, lo).a[1])))])
            if n == 'enumerate':
                S = self.seq(v[0], st)
                if S.op == 'list': return lst(*[tup(num(i), x) for i, x in enumerate(S.a)])
                i = fresh('b'); off = v[1] if len(v) > 1 else ZERO
                return binder('build', [i], self.length(S), tup(add(i, off), self.elem(S, i)))
            if n == 'zip' and len(v) == 2:
                A, B = self.seq(v[0], st), self.seq(v[1], st)
                i = fresh('b'); la, lb = self.length(A), self.length(B)
                ln = la if la is lb else call('minlen', *sorted((la, lb)))
                return binder('build', [i], ln, tup(self.elem(A, i), self.elem(B, i)))
            if n == 'reversed': return call('rev', self.seq(v[0], st))
            if n == 'isinstance': return self.isinstance_(v[0], v[1], st)
            if n == 'hasattr' and v[1].op == 'c': return self.hasattr_(v[0], v[1].a[1])
            if n == 'getattr' and v[1].op == 'c' and len(v) == 2: return self.getattr_(args[0], v[1].a[1], st, fr)
            if n == 'getattr' and v[1].op == 'c':
                return ite(self.hasattr_(v[0], v[1].a[1]), self.val(self.getattr_(args[0], v[1].a[1], st, fr), st), v[2])
            if n == 'setattr' and args[0].op == 'ref':
                cur = self.loadref(st, args[0])
                self.storeref(st, args[0], self.setattr_(cur, v[1].a[1], v[2]) if v[1].op == 'c' else call('setattr', cur, v[1], v[2]))
                return NONE
            if n == 'vars' and len(v) == 1: return field(v[0], '__dict__')
            if n == 'bool': return self.truth(v[0], st)
            if n in ('int', 'float') and isnum(v[0]) and (n == 'float' or v[0].a[1].denominator == 1): return v[0]
            if n == 'map' and len(args) == 2:
                S = self.seq(v[1], st); i = fresh('b')
                return binder('build', [i], self.length(S), self.val(self.callany(args[0], [self.elem(S, i)], {}, None, st, fr), st))
        if n == 'dict' and not args and star is None:
            m = call('map_new')
            for k, x in kv.items(): m = call('map_insert', m, string(k), x)
            return self.alloc(st, m)
        if n == 'sorted' and star is None and 'reverse' not in kv: return call('sorted', strip_list(v[0]), kv.get('key', NONE))
        if n.startswith('np.') and star is None: return self.npcall(n, v, kv)
        if n.startswith('forust.forust.GradientBooster') or n.endswith('CrateGradientBooster'):
            if tail in CRATE:
                for p, x in zip(CRATE[tail], v): kv[p] = x
                return self.opaque('crate.' + tail, [], kv, star, st)
            if args: raise Unsupported('positional constructor arguments')
            return self.opaque('crate.GradientBooster', [], kv, star, st)
        return self.opaque(n, args, kw, star, st)

    def npcall(self, n, v, kv):
        m = n[3:]
        if m in ('array', 'asarray', 'ascontiguousarray') and f64(kv.get('dtype') or (v[1] if len(v) > 1 else None)): return astype(v[0])
        if m in ('reshape', 'ravel', 'sort', 'astype') and v: return self.opmethod(v[0], m, v[1:], kv)
        if m == 'float32' or m == 'float64': return call(n, *v)
        if m in ('ones', 'ones_like', 'full', 'zeros', 'zeros_like', 'full_like'):
            val = ZERO if m[0] == 'z' else ONE
            if m[0] == 'f':
                if len(v) < 2 and 'fill_value' not in kv: return self.opaque(n, v, kv, None, {})
                val = v[1] if len(v) > 1 else kv['fill_value']
            s = v[0] if v else kv.get('shape', UNDEF)
            if m.endswith('_like'): s = field(s, 'shape')
            if s.op == 'agg' and s.a[0] == 'tuple' and len(s.a) == 4: s = s.a[3]
            if s.op == 'f' and s.a[0] == 'shape': s = len_(self.unwrap_rows(s.a[1]))
            elif s.op == 'len': s = len_(self.unwrap_rows(s.a[0]))
            dt = kv.get('dtype') or (v[1] if len(v) > 1 and m[0] != 'f' else None)
            return call('np.full', s, val) if dt is None or f64(dt) else call('np.full', s, val, dt)
        if m == 'unique' and not kv: return call('np.unique', v[0])
        if m == 'issubdtype' and len(v) == 2:
            return dtype64(v[0]) if f64(v[1]) else call(n, *v)
        if m in ('vstack', 'column_stack', 'stack', 'concatenate', 'hstack'): return self.opaque(n, v, kv, None, {})
        return self.opaque(n, v, kv, None, {})

    def isinstance_(self, x, c, st):
        if c.op == 'agg' and c.a[0] == 'tuple':
            r = FALSE
            for y in c.a[3:]: r = or_(r, self.isinstance_(x, y, st))
            return r
        n = c.a[0] if c.op in ('mod', 'class') else show(c)
        if x.op == 'ite': return ite(x.a[0], self.isinstance_(x.a[1], c, st), self.isinstance_(x.a[2], c, st))
        if x.op == 'call' and x.a[0] in ('np.full', 'np.ones', 'np.zeros', 'np.array', '.to_numpy') and n in ('pd.Series', 'pd.DataFrame', 'np.ndarray'): return boolean(n == 'np.ndarray')
        if x.op == 'c' and n in ('str', 'int'):
            return boolean((n == 'str') == (x.a[0] == 'str'))
        if n == 'np.ndarray' and x.op == 'p':       # the other kind of input the interface accepts
            return not_(call('isinstance', x, string('pd.DataFrame' if x is param('X') else 'pd.Series')))
        return call('isinstance', x, string(n))

    def hasattr_(self, o, n):
        if o.op == 'ite': return ite(o.a[0], self.hasattr_(o.a[1], n), self.hasattr_(o.a[2], n))
        b, m = with_parts(o)
        if n in m:
            def there(v):
                if v.op == 'ite': return ite(v.a[0], there(v.a[1]), there(v.a[2]))
                return self.hasattr_(b, n) if v.op == 'f' and v.a[0] == n and v.a[1] is b else TRUE
            return there(m[n])
        if b.op == 'call' and self.find('classes', b.a[0]):
            init = self.method(b.a[0], '__init__')
            if init is not None and not any(isinstance(x, ast.Constant) and x.value == n or isinstance(x, ast.Attribute) and x.attr == n for x in ast.walk(self.find('classes', b.a[0]).node)
                                            if not isinstance(x, ast.FunctionDef)) : return FALSE
            if init is not None and n == 'feature_names_in_' and not any(isinstance(x, ast.Attribute) and x.attr == n or isinstance(x, ast.Constant) and x.value == n for x in ast.walk(init)): return FALSE
        if b is not o: return self.hasattr_(b, n)
        return call('hasattr', o, string(n))

    def methodcall(self, e, base, f, st, fr):
        n = f.attr
        args, kw, star = self.arguments(e, st, fr)
        if base.op in ('pyfn', 'bound'): return self.callany(base, args, kw, star, st, fr)
        o = self.val(base, st)
        v = [self.val(a, st) for a in args]
        kv = {k: self.val(x, st) for k, x in kw.items()}
        if n in MUTATORS and not (n == 'sort' and o.op == 'call'):
            r, w = self.mutate(o, n, v, kv)
            if w is not None: self.store_loc(f.value, w, st, fr)
            return r
        if n in IMPURE or n in CRATE:
            for p, x in zip(CRATE[n], v): kv[p] = x
            if n == 'predict' or n == 'predict_contributions': kv.setdefault('parallel', NONE)
            if n == 'fit': kv.setdefault('evaluation_data', NONE)
            t = self.opaque('booster.' + n, [o], kv, star, st)
            if n in IMPURE: self.store_loc(f.value, raw('out', 0, t), st, fr)
            if n == 'get_metadata': self.raise_now.append((call('raises', t), string('KeyError')))
            return t
        if n == 'get' and len(v) in (1, 2) and not kv:
            d = v[1] if len(v) == 2 else NONE
            return self.mapget(o, v[0], d)
        if n in ('items', 'keys', 'values') and not v and not kv: return call(n, o)
        if n == 'copy' and not v: return o if not self.isseq(o) else self.alloc(st, o)
        if n in ('to_list', 'tolist') and not v: return aslist(o)
        if n == 'index' and len(v) == 1:
            f2 = Frame('index'); st[('v', f2.id, 'L')] = o; st[('v', f2.id, 'f')] = v[0]
            r = self.val(self.expr(ast.parse('[i for i, x in enumerate(L) if x == f]', mode='eval').body, st, f2), st)
            return self.elem(r, ZERO)
        return self.opmethod(o, n, v, kv, star, st)

    def mapget(self, o, k, d):
        if o.op == 'ite': return ite(o.a[0], self.mapget(o.a[1], k, d), self.mapget(o.a[2], k, d))
        ci = const_items(o) if self.ismap(o) else None
        if ci is not None:
            r = d
            for a, b in reversed(ci): r = ite(eq('O', k, a), b, r)
            return r
        return ite(call('map_has', o, k), call('map_get', o, k), d)

    def opmethod(self, o, n, v, kv, star=None, st=None):
        if o.op == 'ite' and n in ('to_numpy', 'astype', 'ravel'): return ite(o.a[0], self.opmethod(o.a[1], n, v, kv, star, st), self.opmethod(o.a[2], n, v, kv, star, st))
        if n == 'astype' and star is None:
            dt = kv.get('dtype') or (v[0] if v else None)
            if f64(dt): return astype(o)
            return call('.astype', o, dt)
        if n == 'to_numpy' and star is None:
            dt = kv.pop('dtype', None) or (v[0] if v else None)
            kv.pop('copy', None)
            r = call('.to_numpy', o)
            return astype(r) if dt is not None and f64(dt) else (r if dt is None else call('.astype', r, dt))
        if n == 'sort' and o.op == 'call' and o.a[0] == 'np.unique' and not v and not kv: return o
        if n == 'sort': return call('np.sort', o, *([kv['axis']] if 'axis' in kv else v))
        order = kv.get('order', string('C'))
        if n in ('ravel', 'flatten') and star is None:
            if v: order = v[0]
            return ravel(o, order)
        if n == 'reshape' and star is None:
            shape = v
            if len(v) == 1 and v[0].op == 'agg' and v[0].a[0] == 'tuple': shape = list(v[0].a[3:])
            if 'shape' in kv: shape = list(kv['shape'].a[3:]) if kv['shape'].op == 'agg' else [kv['shape']]
            if 'newshape' in kv: shape = list(kv['newshape'].a[3:]) if kv['newshape'].op == 'agg' else [kv['newshape']]
            if len(shape) == 1 and shape[0] is num(-1): return ravel(o, order)
            return call('reshape', o, tup(*[call('auto_dim') if isnum(x) and x.a[1] < 0 else x for x in shape]), order)
        if n == 'transpose' and not v: return transpose(o)
        return self.opaque('.' + n, [o] + v, kv, star, st or {})

    def mutate(self, o, n, v, kv):
        """-> (result, new content)"""
        if n == 'append': return NONE, push(o, v[0])
        if n == 'extend': return NONE, cat(o, v[0] if v[0].op != 'call' or v[0].a[0] != 'aslist' else v[0].a[2])
        if n == 'add': return NONE, call('set_add', o, v[0])
        if n == 'update':
            r = o
            if v: r = self.update(r, v[0])
            for k, x in kv.items(): r = call('map_insert', r, string(k), x)
            return NONE, r
        if n in ('pop', 'popleft'):
            if n == 'popleft' or (v and v[0] is ZERO): return self.elem(o, ZERO), slice_(o, ONE, self.length(o))
            if not v: return self.elem(o, sub(self.length(o), ONE)), slice_(o, ZERO, sub(self.length(o), ONE))
            if v[0].op == 'c' and v[0].a[0] == 'str':
                g = call('map_get', o, v[0])
                return (g if len(v) == 1 else ite(call('map_has', o, v[0]), g, v[1])), map_remove(o, v[0])
        if n == 'setdefault' and len(v) == 2:
            h = call('map_has', o, v[0])
            return ite(h, call('map_get', o, v[0]), v[1]), ite(h, o, call('map_insert', o, v[0], v[1]))
        if n == 'sort' and not v: return NONE, call('sorted', o, kv.get('key', NONE))
        t = self.opaque('.' + n, [o] + v, kv, None, {})
        return t, raw('out', 0, t)

    # ---------------------------------------------------------------- entry
    def function(self, cls, name):
        node = self.method(cls, name) if cls else self.find('funcs', name)
        st = {}
        fr = Frame(name)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        d = decorators(node)
        for i, n in enumerate(names):
            if cls and i == 0 and 'staticmethod' not in d:
                if 'classmethod' in d: st[('v', fr.id, n)] = raw('class', cls)
                else:
                    k = ('arg', 0); st[k] = param('self'); self.cls_of[k] = cls
                    st[('v', fr.id, n)] = raw('ref', k, ())
            else: st[('v', fr.id, n)] = param(n)
        if a.kwarg: st[('v', fr.id, a.kwarg.arg)] = param(a.kwarg.arg)
        if a.vararg: st[('v', fr.id, a.vararg.arg)] = param(a.vararg.arg)
        self.stack.append(id(node))
        res = self.block(node.body, st, fr)
        self.stack.pop()
        rets = []; rs = []; out = NONE
        for k, c, z in res:
            if k == 'raise': rs.append((c, agg('Outcome', 'Raise', ('0',), (z[('exc', 0)],))))
            else:
                v = z.get(('ret', fr.id), NONE) if k == 'ret' else NONE
                z = dict(z); z[('$', 0)] = self.val(v, z)
                rets.append((c, z))
        o = {}
        if rets:
            z = self.join(rets)
            rv = self.val(z[('$', 0)], z)
            if rv.op == 'ref': rv = self.val(rv, z)
            t = agg('Outcome', 'Return', ('0',), (rv,))
            o['value'] = rv
            if ('arg', 0) in z: o['self'] = self.val(z[('arg', 0)], z)
        raised = FALSE
        for c, x in rs: raised = or_(raised, c)
        o['raises'] = raised
        exc = UNDEF
        for c, x in reversed(rs): exc = ite(c, x, exc)
        o['exception'] = exc
        o['signature'] = signature(self, node, bool(cls) and 'staticmethod' not in d)
        o['kind'] = string(','.join(sorted(d & {'property', 'classmethod', 'staticmethod'})))
        return o


class PyFn:
    _tab = {}

    def __new__(cls, node, fr):
        k = (id(node), fr.id if fr else None)
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls); o.node = node; o.fr = fr; cls._tab[k] = o
        return o

    def __repr__(self): return getattr(self.node, 'name', 'lambda')


KIND = {}


def signature(ev, node, method):
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args][1 if method else 0:]
    kwo = [x.arg for x in a.kwonlyargs]
    st = {}
    ds = {}
    allp = [x.arg for x in a.posonlyargs + a.args]
    for n, d in zip(allp[len(allp) - len(a.defaults):], a.defaults): ds[n] = ev.val(ev.expr(d, st, Frame('default')), st)
    for n, d in zip(kwo, a.kw_defaults):
        if d is not None: ds[n] = ev.val(ev.expr(d, st, Frame('default')), st)
    req = raw('konst', 'required')
    ps = [tup(string(n), ds.get(n, req)) for n in pos]
    ks = [tup(string(n), ds.get(n, req)) for n in sorted(kwo)]
    return tup(lst(*ps), lst(*ks), boolean(bool(a.vararg)), boolean(bool(a.kwarg)))


def const_items(m):
    """entries of a map built from constant keys, else None"""
    out = []
    while m.op == 'call' and m.a[0] == 'map_insert':
        if m.a[3].op != 'c': return None
        if not any(k is m.a[3] for k, _ in out): out.append((m.a[3], m.a[4]))
        m = m.a[2]
    if m.op == 'call' and m.a[0] == 'map_new': return out[::-1]
    return None


def map_remove(m, k):
    """m without k; what a loop over the items of another map puts in under its
    own keys is not affected when k is a dunder name, which is no parameter"""
    if m.op == 'call' and m.a[0] == 'map_insert' and k.op == 'c' and m.a[3].op == 'c':
        r = map_remove(m.a[2], k)
        return r if m.a[3] is k else call('map_insert', r, m.a[3], m.a[4])
    if m.op == 'eta' and m.a[1] == 2 and k.op == 'c' and k.a[0] == 'str' and k.a[1].startswith('__'):
        (x, i), (E, inits, nexts) = open_binder(m)
        ok = x not in fvs(E) and x not in fvs(nexts[1])
        def own(t):
            if t is x: return True
            if t.op == 'ite': return own(t.a[1]) and own(t.a[2]) and (x not in fvs(t.a[0]) or t.a[0].op == 'call' and t.a[0].a[0] == 'map_has' and t.a[0].a[2] is x and key(t.a[0].a[3]))
            return t.op == 'call' and t.a[0] == 'map_insert' and own(t.a[2]) and key(t.a[3]) and x not in fvs(t.a[4])
        def key(t): return t.op == 'f' and t.a[0] == '0' and t.a[1].op == 'idx' and t.a[1].a[0].op == 'call' and t.a[1].a[0].a[0] == 'items' and x not in fvs(t)
        if ok and own(nexts[0]):
            return binder('eta', [x, i], E, (map_remove(inits[0], k), inits[1]), nexts)
    return call('map_remove', m, k)


def mapparts(t):
    """a map built by a loop that counts from zero: (map, counter, exit condition, body)"""
    if t.op == 'call' and t.a[0] == 'collect_HashMap' and t.a[2].op in ('build', 'flat') and t.a[2].a[1] == 1:
        m = fresh('m'); (i,), (n, b) = open_binder(t.a[2])
        def ins(x):
            if x.op == 'ite':
                l, r = ins(x.a[1]), ins(x.a[2])
                return None if l is None or r is None else raw('ite', x.a[0], l, r)
            if x.op == 'list' and not x.a: return m
            if x.op == 'list' and len(x.a) == 1 and x.a[0].op == 'agg' and x.a[0].a[0] == 'tuple': return call('map_insert', m, x.a[0].a[3], x.a[0].a[4])
        b = ins(b if t.a[2].op == 'flat' else lst(b))
        return None if b is None else (m, i, lt('I', n, add(i, ONE)), b)
    if t.op != 'eta' or t.a[1] != 2: return None
    (m, i), (E, inits, nexts) = open_binder(t)
    if inits[0] is not call('map_new') or inits[1] is not ZERO or nexts[1] is not add(i, ONE): return None
    b = nexts[0]
    while b.op == 'ite' and b.a[0] is E: b = b.a[2]
    return m, i, E, b


def counted(t, k):
    """{i: f(i) for i in ...}[k] is f(k), for a key that is there"""
    p = mapparts(t)
    if p is None: return None
    m, i, E, b = p
    if b.op == 'call' and b.a[0] == 'map_insert' and b.a[2] is m and b.a[3] is i and m not in fvs(b.a[4]): return replace(b.a[4], {i: k})
    return None


def fvs(t):
    return set(t.fv)


def mapeta(t):
    """{k: v for k, v in M.items() if k != c ...} is M without c"""
    if t.op == 'call' and t.a[0] == 'map_extend' and t.a[3].op == 'build':
        (i,), (n, b) = open_binder(t.a[3])
        if b.op == 'agg' and b.a[0] == 'tuple' and len(b.a) == 5 and b.a[3].op == 'f' and b.a[3].a[0] == '0' and b.a[4].op == 'f' and b.a[4].a[0] == '1' and b.a[3].a[1] is b.a[4].a[1]:
            e = b.a[3].a[1]
            if e.op == 'idx' and e.a[1] is i and e.a[0].op == 'call' and e.a[0].a[0] == 'items' and n is len_(e.a[0].a[2]): return call('map_update', t.a[2], e.a[0].a[2])
    p = mapparts(t)
    if p is None: return t
    m, i, E, b = p
    drop = []
    while b.op == 'ite' and b.a[1] is m and b.a[0].op == 'eq':
        x = [y for y in b.a[0].a[1:] if y.op == 'c']
        if not x: return t
        drop.append((b.a[0], x[0])); b = b.a[2]
    if b.op != 'call' or b.a[0] != 'map_insert' or b.a[2] is not m: return t
    k, v = b.a[3], b.a[4]
    if k.op != 'f' or v.op != 'f' or k.a[0] != '0' or v.a[0] != '1' or k.a[1] is not v.a[1]: return t
    e = k.a[1]
    if e.op != 'idx' or e.a[1] is not i or e.a[0].op != 'call' or e.a[0].a[0] != 'items': return t
    M = e.a[0].a[2]
    if E not in (lt('I', len_(M), add(i, ONE)), not_(lt('I', i, len_(M)))): return t
    if any(k not in d.a for d, _ in drop): return t
    for _, c in drop: M = map_remove(M, c)
    return M


def strip_list(t):
    return t.a[2] if t.op == 'call' and t.a[0] == 'aslist' else t


def aslist(t):
    if t.op in ('list', 'build', 'flat', 'cat', 'slice') or (t.op == 'call' and t.a[0] in ('aslist', 'sorted')): return t
    if t.op == 'agg' and t.a[0] == 'tuple': return lst(*t.a[3:])
    if t.op == 'ite': return ite(t.a[0], aslist(t.a[1]), aslist(t.a[2]))
    return call('aslist', t)


def tostr(v):
    if v.op == 'c' and v.a[0] == 'str': return v
    if v.op == 'call' and v.a[0] in ('str', 'concat'): return v
    return call('str', v)


def concat(a, b):
    xs = list(a.a[2:]) if a.op == 'call' and a.a[0] == 'concat' else [a]
    ys = list(b.a[2:]) if b.op == 'call' and b.a[0] == 'concat' else [b]
    out = []
    for x in xs + ys:
        if x.op == 'c' and x.a[0] == 'str':
            if x.a[1] == '': continue
            if out and out[-1].op == 'c' and out[-1].a[0] == 'str':
                out[-1] = string(out[-1].a[1] + x.a[1]); continue
        out.append(x)
    if not out: return string('')
    if len(out) == 1 and (out[0].op == 'c' or out[0].op == 'call' and out[0].a[0] == 'str'): return out[0]
    return call('concat', *out)


def f64(t):
    return t is not None and ((t.op == 'c' and t.a in (('str', 'float64'), ('str', 'float'), ('str', 'f8'), ('str', 'd'))) or (t.op == 'mod' and t.a[0] in ('float', 'np.float64', 'np.double', 'np.float_')))


def dtype_like(d):
    return (d.op == 'f' and d.a[0] == 'dtype') or (d.op == 'ite' and dtype_like(d.a[1]) and dtype_like(d.a[2]))


def dtype64(d):
    if d.op == 'ite': return ite(d.a[0], dtype64(d.a[1]), dtype64(d.a[2]))
    if d.op == 'f' and d.a[0] == 'dtype': return isf64(d.a[1])
    return call('dtype64', d)


def isf64(x):
    if x.op == 'call' and x.a[0] == 'np.full' and len(x.a) == 4: return TRUE
    if x.op == 'ite': return ite(x.a[0], isf64(x.a[1]), isf64(x.a[2]))
    if x.op == 'call' and x.a[0] == 'astype': return TRUE
    return call('isf64', x)


def astype(x):
    if x.op == 'ite': return ite(x.a[0], astype(x.a[1]), astype(x.a[2]))
    if x.op == 'call' and x.a[0] == 'astype': return x
    return ite(isf64(x), x, call('astype', x))


def invert(v, ev):
    """element-wise negation"""
    if v.op == 'call' and v.a[0] == '~': return v.a[2]
    if v.op == 'call' and v.a[0] in ('|', '&'):
        a, b = invert(v.a[2], ev), invert(v.a[3], ev)
        if b.id < a.id: a, b = b, a
        return call('&' if v.a[0] == '|' else '|', a, b)
    return not_(v) if ev.isbool(v) and v.op != 'call' else call('~', v)


def transpose(o):
    if o.op == 'ite': return ite(o.a[0], transpose(o.a[1]), transpose(o.a[2]))
    if o.op == 'call' and o.a[0] == '.T': return o.a[2]
    if o.op == 'call' and o.a[0] == 'reshape' and o.a[4].op == 'c' and o.a[4].a[1] in ('C', 'F'):
        return call('reshape', o.a[2], tup(*reversed(o.a[3].a[3:])), string('F' if o.a[4].a[1] == 'C' else 'C'))
    return call('.T', o)


def ravel(o, order):
    if o.op == 'call' and o.a[0] == '.T' and order.op == 'c' and order.a[1] in ('C', 'F'):
        return ravel(o.a[2], string('F' if order.a[1] == 'C' else 'C'))
    if o.op == 'ite': return ite(o.a[0], ravel(o.a[1], order), ravel(o.a[2], order))
    return call('ravel', o, order)
