"""Guarded evaluation: a flow analysis in which every variable holds a set of (condition, value) pieces.
Branches that rejoin are merged, so straight code with many independent tests stays linear; a call site of
interest is recorded once for each condition under which it is reached.  Conditions are conjunctions of
literals over atoms; equivalence of two sets of conditions is decided on the consistent truth assignments."""
import ast, itertools, os
from . import load
from .load import AnalysisBroken
from .terms import *

BOT = object()


class Budget(AnalysisBroken):
    pass


def num_c(t):
    return t[0] == 'c' and isinstance(t[2], (int, float)) and not isinstance(t[2], bool)


def may_none(t):
    k = t[0]
    if k == 'c':
        return t[2] is None
    if k == 'F':
        return t[3] == NONE
    if k in ('func', 'local', 'class', 'bin', 'tupv', 'dictv', 'sum', 'max', 'fmt', 'map', 'setof', 'acc', 'slice', 'gconst', 'bool'):
        return False
    if k == 'call':
        return t[1] not in ('int', 'float', 'str', 'len', 'set', 'list', 'sorted', 'time.time', 'max', 'min', 'abs', 'round', 'long', 'math.log', 'sum', 'bool', 'dict') and not t[1].startswith('!')
    return True


class Theory:
    """what follows from a literal"""

    @staticmethod
    def decide(g, a):
        """truth of atom a under the guard (a dict), or None"""
        if a in g:
            return g[a]
        k = a[0]
        t = a[1]
        if k == 'isnone':
            if not may_none(t):
                return False
            if g.get(('truthy', t)):
                return False
            for b, v in g.items():
                if b[0] == 'eq' and b[1] == t and v:
                    return False
        elif k == 'truthy':
            if g.get(('isnone', t)):
                return False
            n = ('call', 'len', (t,), ())
            for b, v in g.items():
                if b[0] == 'eq' and v and (b[1] == t or b[1] == n):
                    return bool(b[2][2])
        elif k == 'eq':
            if g.get(('isnone', t)):
                return False
            if g.get(('truthy', t)) is False and a[2][2]:
                return False
            if g.get(('truthy', t)) and not a[2][2]:
                return False
            for b, v in g.items():
                if b[0] == 'eq' and b[1] == t and v:
                    return b[2] == a[2] or b[2][2] == a[2][2]
                if b[0] == 'lt' and b[1] == t and isinstance(a[2][2], (int, float)):
                    if v and not a[2][2] < b[2] or not v and a[2][2] < b[2]:
                        return False
                if b[0] == 'among' and b[1] == t:
                    if v and a[2][2] not in b[2] or not v and a[2][2] in b[2]:
                        return False
        elif k == 'lt':
            for b, v in g.items():
                if b[0] == 'lt' and b[1] == t:
                    if v and b[2] <= a[2]:
                        return True
                    if not v and b[2] >= a[2]:
                        return False
                if b[0] == 'eq' and b[1] == t and v and isinstance(b[2][2], (int, float)):
                    return b[2][2] < a[2]
        elif k == 'among':
            for b, v in g.items():
                if b[0] == 'eq' and b[1] == t and v:
                    return b[2][2] in a[2]
                if b[0] == 'among' and b[1] == t and v and not (b[2] & a[2]):
                    return False
        return None

    @staticmethod
    def add(g, a, v):
        d = Theory.decide(g, a)
        if d is not None:
            return g if d == v else None
        h = dict(g)
        h[a] = v
        return h


def conj(g1, g2):
    """g2's literals added to g1 (None: inconsistent)"""
    if g1 is g2 or not g2:
        return g1
    g = g1
    for a, v in g2.items():
        if g.get(a) is v:
            continue
        g = Theory.add(g, a, v)
        if g is None:
            return None
    return g


class Rec:
    def __init__(self, g, name, args, kw, loc, fn, stack):
        self.g, self.name, self.args, self.kw, self.loc, self.fn, self.stack = g, name, args, kw, loc, fn, stack


class Scope:
    """a module, where a class is asked for its constants"""

    def __init__(self, m):
        self.mod, self.consts, self.name = m, {}, ''


class Guarded:
    def __init__(self, p, selfcls, opaque=lambda f: False, field=lambda f: None, want=lambda recv, name: False, limit=5000000):
        """opaque(func): not looked into.  field(func): kind of a field getter.  want(recv, name): calls to record"""
        self.p, self.cls, self.opaque, self.field, self.want = p, selfcls, opaque, field, want
        self.recs, self.effects, self.lazy = [], [], []
        self.loops = itertools.count()
        self.stack = []
        self.steps, self.limit = 0, limit
        self.visited = set()
        self._stores = None

    # ---------------------------------------------------------------- values
    ops = None      # {function: [(function, arguments, keywords)]} of the calls not followed, if wanted

    def mk(self, kind, items):
        self.lazy.append(items)
        return (kind, len(self.lazy) - 1)

    def items(self, t):
        return self.lazy[t[1]]

    def narrow(self, val, g):
        out = []
        for h, t in val:
            x = conj(g, h)
            if x is not None:
                out.append((x, self.under(t, x)))
        return out

    def under(self, t, g):
        """t, replaced by a constant if the guard says which"""
        if t[0] == 'c':
            return t
        for a, v in g.items():
            if v and a[1] == t:
                if a[0] == 'eq':
                    return a[2]
                if a[0] == 'isnone':
                    return NONE
        return t

    def const(self, v):
        if isinstance(v, (tuple, list)):
            return self.mk('tupv', [[({}, self.const(x))] for x in v])
        return C(v)

    # ---------------------------------------------------------------- conditions
    def truth(self, t, g):
        """[(g', bool)]"""
        if t[0] == 'c':
            return [(g, bool(t[2]))]
        if t[0] == 'bool':
            out = []
            for h, v in t[1]:
                x = conj(g, dict(h))
                if x is not None:
                    out.append((x, v))
            return out
        if t[0] in ('tupv', 'dictv'):
            return [(g, bool(self.items(t)))]
        if t[0] in ('func', 'local', 'class'):
            return [(g, True)]
        if t[0] == 'atom':
            return self.split(t[1], t[2], g)
        return self.split(('truthy', t), True, g)

    def split(self, atom, pol, g):
        out = []
        if atom[0] in ('lt', 'eq') and atom[1][0] == 'call' and atom[1][1] == 'len' and len(atom[1][2]) == 1 and atom[2] == (1 if atom[0] == 'lt' else C(0)):
            atom, pol = ('truthy', atom[1][2][0]), not pol
        for v in (True, False):
            x = Theory.add(g, atom, v)
            if x is not None:
                out.append((x, v == pol))
        return out

    def compare(self, op, a, b, g):
        """[(g', bool)]"""
        neg = {'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In', 'GtE': 'Lt', 'Gt': 'LtE'}
        if op in neg:
            return [(x, not v) for x, v in self.compare(neg[op], a, b, g)]
        if a[0] == 'c' and b[0] == 'c':
            try:
                v = {'Eq': lambda: a[2] == b[2], 'Is': lambda: a[2] is b[2] or a[2] == b[2] and type(a[2]) is type(b[2]), 'Lt': lambda: a[2] < b[2], 'LtE': lambda: a[2] <= b[2],
                     'In': lambda: a[2] in b[2]}[op]()
                return [(g, v)]
            except Exception:
                pass
        if op in ('Eq', 'Is'):
            if a[0] == 'c':
                a, b = b, a
            if b[0] == 'c':
                if b[2] is None:
                    return self.split(('isnone', a), True, g)
                if b[2] is True and a[0] == 'F' and a[1] == 'flag':
                    return self.split(('truthy', a), True, g)
                if b[2] is False and a[0] == 'F' and a[1] == 'flag' and not may_none(a):
                    return self.split(('truthy', a), False, g)
                if a[0] == 'bool':
                    return [(x, v == bool(b[2])) for x, v in self.truth(a, g)]
                return self.split(('eq', a, b), True, g)
            x, y = sorted([a, b], key=repr)
            if x == y:
                return [(g, True)]
            return self.split(('same', x, y), True, g)
        if op in ('Lt', 'LtE'):
            if num_c(b):
                k = b[2] if op == 'Lt' else b[2] + 1 if isinstance(b[2], int) else b[2]
                if op == 'LtE' and isinstance(b[2], float):
                    return self.split(('le', a, b[2]), True, g)
                return self.split(('lt', a, k), True, g)
            if num_c(a):
                # a < b  <=>  not b < a + 1;   a <= b  <=>  not b < a
                if isinstance(a[2], int) or op == 'LtE':
                    return self.split(('lt', b, a[2] + 1 if op == 'Lt' else a[2]), False, g)
                return self.split(('le', b, a[2]), False, g)
            if op == 'LtE':
                return self.split(('less', b, a), False, g)
            return self.split(('less', a, b), True, g)
        if op == 'In':
            if b[0] in ('tupv', 'dictv'):
                its = self.items(b)
                its = list(its) if b[0] == 'tupv' else [[({}, C(k))] for k in its]
                out, todo = [], [g]
                for v in its:
                    nxt = []
                    for h in todo:
                        for h2, t in self.narrow(v, h):
                            for h3, r in self.compare('Eq', a, t, h2):
                                if r:
                                    out.append((h3, True))
                                else:
                                    nxt.append(h3)
                    todo = nxt
                return out + [(h, False) for h in todo]
            if b[0] == 'setof':
                return self.split(('among', a, b[1]), True, g)
            return self.split(('in', a, b), True, g)
        return self.split(('cmp', op, a, b), True, g)

    def cond(self, e, env, g):
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            out, todo = [], [g]
            for x in e.values:
                nxt = []
                for h in todo:
                    for h2, v in self.cond(x, env, h):
                        (out.append((h2, stop)) if v == stop else nxt.append(h2))
                todo = nxt
            return out + [(h, not stop) for h in todo]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(h, not v) for h, v in self.cond(e.operand, env, g)]
        if isinstance(e, ast.Compare):
            out, todo = [], [g]
            xs = [e.left] + list(e.comparators)
            for op, l, r in zip(e.ops, xs, xs[1:]):
                nxt = []
                for h in todo:
                    for h1, (a, b) in self.evaln([l, r], env, h):
                        for h2, v in self.compare(type(op).__name__, a, b, h1):
                            (nxt.append(h2) if v else out.append((h2, False)))
                todo = nxt
            return out + [(h, True) for h in todo]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and len(e.args) == 1 and isinstance(e.args[0], (ast.List, ast.Tuple)):
            return self.cond(ast.BoolOp(op=ast.Or() if e.func.id == 'any' else ast.And(), values=e.args[0].elts), env, g)
        out = []
        for h, t in self.eval(e, env, g):
            out += self.truth(t, h)
        return out

    # ---------------------------------------------------------------- expressions
    def evaln(self, es, env, g):
        """[(g', [terms])]"""
        out = [(g, [])]
        for e in es:
            out = [(h2, ts + [t]) for h, ts in out for h2, t in self.eval(e, env, h)]
        return out

    def boolval(self, pieces):
        return [(h, C(bool(v))) for h, v in pieces]

    def eval(self, e, env, g):
        self.steps += 1
        if self.steps > self.limit:
            raise Budget('guarded evaluation of %s: too many cases' % (self.stack[:1],))
        f = self.stack[-1]
        if isinstance(e, ast.Constant):
            return [(g, C(e.value))]
        if isinstance(e, ast.Name):
            if e.id in env:
                return self.narrow(env[e.id], g)
            if e.id in ('True', 'False', 'None'):
                return [(g, {'True': TRUE, 'False': FALSE, 'None': NONE}[e.id])]
            r = self.p.lookup_global(f.mod, e.id)
            return [(g, self.glob(r, e.id))]
        if isinstance(e, ast.Attribute):
            r = self.p.resolve_dotted(e, f.mod)
            if r is not None and not (isinstance(e.value, ast.Name) and e.value.id in env):
                return [(g, self.glob(r, ast.unparse(e)))]
            out = []
            for h, t in self.eval(e.value, env, g):
                if t == ('self',) or t[0] == 'class':
                    c = self.cls if t == ('self',) else t[1]
                    v = self.classconst(c, e.attr)
                    if v is not None:
                        out.append((h, v))
                        continue
                out.append((h, ('attr', t, e.attr)))
            return out
        if isinstance(e, (ast.BoolOp,)) :
            # value semantics
            stop = isinstance(e.op, ast.Or)
            out, todo = [], [g]
            for i, x in enumerate(e.values):
                nxt = []
                for h in todo:
                    if i == len(e.values) - 1:
                        out += self.eval(x, env, h)
                        continue
                    if isinstance(x, (ast.BoolOp, ast.Compare)) or isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
                        for h2, v in self.cond(x, env, h):
                            (out.append((h2, C(v))) if v == stop else nxt.append(h2))
                        continue
                    for h2, t in self.eval(x, env, h):
                        for h3, v in self.truth(t, h2):
                            (out.append((h3, t)) if v == stop else nxt.append(h3))
                todo = nxt
            return out
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return self.boolval(self.cond(e, env, g))
            out = []
            for h, t in self.eval(e.operand, env, g):
                if num_c(t):
                    out.append((h, C(-t[2] if isinstance(e.op, ast.USub) else t[2])))
                else:
                    out.append((h, ('un', type(e.op).__name__, t)))
            return out
        if isinstance(e, ast.Compare):
            return self.boolval(self.cond(e, env, g))
        if isinstance(e, ast.IfExp):
            out = []
            for h, v in self.cond(e.test, env, g):
                out += self.eval(e.body if v else e.orelse, env, h)
            return out
        if isinstance(e, ast.BinOp):
            out = []
            for h, (a, b) in self.evaln([e.left, e.right], env, g):
                if isinstance(e.op, ast.Mod) and is_str(a) and b[0] == 'tupv':
                    out += [(h2, self.binop('Mod', a, self.mk('tupv', [[(h2, x)] for x in xs]), h2)) for h2, xs, _ in self.product(self.items(b), {}, h)]
                else:
                    out.append((h, self.binop(type(e.op).__name__, a, b, h)))
            return out
        if isinstance(e, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return [(g, ('other', ast.dump(e)))]
            return [(g, self.mk('tupv', [self.eval(x, env, g) for x in e.elts]))]
        if isinstance(e, ast.Set):
            return [(g, self.mk('tupv', [self.eval(x, env, g) for x in e.elts]))]
        if isinstance(e, ast.Dict):
            d = {}
            for k, v in zip(e.keys, e.values):
                ks = self.eval(k, env, g) if k is not None else []
                if len(ks) != 1 or ks[0][1][0] != 'c':
                    return [(g, ('other', ast.dump(e)[:60]))]
                d[ks[0][1][2]] = self.eval(v, env, g)
            return [(g, self.mk('dictv', d))]
        if isinstance(e, ast.Subscript):
            return self.subscript(e, env, g)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1:
            gen = e.generators[0]
            test = ast.BoolOp(op=ast.And(), values=list(gen.ifs)) if gen.ifs else None
            out = []
            for h, it in self.eval(gen.iter, env, g):
                if it[0] == 'tupv':
                    sts = [(h, [])]
                    for v in self.items(it):
                        nxt = []
                        for h1, res in sts:
                            env2 = dict(env)
                            self.assign(gen.target, self.narrow(v, h1), env2, h1)
                            for h2, keep in self.cond(test, env2, h1) if test is not None else [(h1, True)]:
                                nxt.append((h2, res + [self.eval(e.elt, env2, h2)] if keep else res))
                        sts = nxt
                    out += [(h2, self.mk('tupv', res)) for h2, res in sts]
                    continue
                env2 = dict(env)
                self.assign(gen.target, [(h, ('elem', it))], env2, h)
                if test is not None:
                    parts = frozenset((frozenset((a, v) for a, v in h3.items() if a not in h), b) for h2, keep in self.cond(test, env2, h) if keep for h3, b in self.eval(e.elt, env2, h2))
                    out.append((h, ('some', it, parts)))
                    continue
                for h2, b in self.eval(e.elt, env2, h):
                    out.append((h2, ('map', b, it)))
            return out
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return [(g, ('other', 'comp', ast.unparse(e)))]
        if isinstance(e, ast.JoinedStr):
            return [(g, ('other', ast.unparse(e)))]
        if isinstance(e, ast.Lambda):
            return [(g, self.mk('local', (e, f, env)))]
        if isinstance(e, ast.Call):
            return self.call(e, env, g)
        return [(g, ('other', type(e).__name__))]

    def glob(self, r, name):
        if r is None:
            return ('ext', name)
        if r[0] == 'const':
            m, n, x = r[1], r[2], r[3]
            if n in m.multi:
                return ('gconst', m.name + '.' + n)
            if isinstance(x, ast.Constant):
                return C(x.value)
            if isinstance(x, ast.UnaryOp) and isinstance(x.operand, ast.Constant) and isinstance(x.op, ast.USub):
                return C(-x.operand.value)
            if isinstance(x, (ast.Tuple, ast.List)) and all(isinstance(y, ast.Constant) for y in x.elts):
                return self.const([y.value for y in x.elts])
            v = self.static(x, Scope(m)) if isinstance(x, (ast.Call, ast.BinOp, ast.Set)) else None
            if isinstance(v, (set, frozenset)):
                return ('setof', frozenset(v))
            if isinstance(v, (int, float)):
                return C(v)
            return ('gconst', m.name + '.' + n)
        if r[0] == 'func':
            return ('func', r[1].qual)
        if r[0] == 'class':
            return ('class', r[1])
        if r[0] in ('ext', 'builtin'):
            return (r[0], r[1])
        return ('other', name)

    def stores(self, attr):
        if self._stores is None:
            self._stores = {}
            for f in self.p.funcs.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        self._stores.setdefault(n.attr, set()).add(f.qual)
        return self._stores.get(attr, ())

    def static(self, e, k, depth=0):
        """the value of an expression of literals and of names given once in the same class or module; else None"""
        def one(x):
            return self.static(x, k, depth + 1)
        if depth > 8:
            return None
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = one(e.operand)
            return -v if isinstance(v, (int, float)) else None
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            vs = [one(x) for x in e.elts]
            if any(x is None for x in vs):
                return None
            return tuple(vs) if isinstance(e, ast.Tuple) else set(vs) if isinstance(e, ast.Set) and all(not isinstance(x, (list, set)) for x in vs) else vs
        if isinstance(e, ast.Name):
            if k is not None and e.id in k.consts and not self.stores(e.id):
                return one(k.consts[e.id])
            m = k.mod if k is not None else None
            if m is not None and e.id in getattr(m, 'consts', {}) and e.id not in m.multi:
                return self.static(m.consts[e.id], k, depth + 1)
            return None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and k is not None and e.value.id == k.name and e.attr in k.consts:
            return one(k.consts[e.attr])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords:
            vs = [one(x) for x in e.args]
            if any(x is None for x in vs):
                return None
            try:
                if e.func.id in ('set', 'frozenset', 'list', 'tuple', 'sorted') and len(vs) <= 1:
                    return {'set': set, 'frozenset': frozenset, 'list': list, 'tuple': tuple, 'sorted': sorted}[e.func.id](*vs)
                if e.func.id in ('range', 'xrange') and all(isinstance(x, int) for x in vs) and len(range(*vs)) < 70000:
                    return list(range(*vs))
            except (TypeError, ValueError):
                pass
            return None
        if isinstance(e, ast.BinOp):
            a, b = one(e.left), one(e.right)
            if a is None or b is None:
                return None
            try:
                if isinstance(e.op, ast.BitOr):
                    return a | b
                if isinstance(e.op, ast.Add):
                    return a + b
                if isinstance(e.op, ast.Sub):
                    return a - b
                if isinstance(e.op, ast.Mult) and all(isinstance(x, (int, float)) for x in (a, b)):
                    return a * b
                if isinstance(e.op, ast.Pow) and all(isinstance(x, int) and abs(x) < 100 for x in (a, b)):
                    return a ** b
                if isinstance(e.op, (ast.Div, ast.FloorDiv)) and all(isinstance(x, (int, float)) for x in (a, b)):
                    return a // b if isinstance(e.op, ast.FloorDiv) or all(isinstance(x, int) for x in (a, b)) else a / b
            except (TypeError, ZeroDivisionError):
                pass
        return None

    def classconst(self, c, attr):
        for k in self.p.mro(c):
            if attr in k.methods:
                return ('func', k.methods[attr].qual)
            if attr in k.consts:
                if self.stores(attr):
                    return None
                x = k.consts[attr]
                v = self.static(x, k)
                if isinstance(v, (set, frozenset)):
                    return ('setof', frozenset(v))
                if v is not None:
                    return self.const(v)
                if isinstance(x, ast.Dict):
                    return ('cdict', k.name + '.' + attr)
                return None
        return None

    def binop(self, op, a, b, g):
        if a[0] == 'c' and b[0] == 'c':
            try:
                x, y = a[2], b[2]
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Mod': lambda: x % y, 'Pow': lambda: x ** y}.get(op)
                if r:
                    return C(r())
            except Exception:
                pass
        if op == 'Mod' and is_str(a):
            ts = []
            if b[0] == 'tupv':
                for v in self.items(b):
                    v = self.narrow(v, g)
                    ts.append(v[0][1] if len(v) == 1 else ('other',))
            else:
                ts = [b]
            try:
                if all(t[0] == 'c' for t in ts):
                    return C(a[2] % tuple(t[2] for t in ts))
            except Exception:
                pass
            return ('fmt', a[2], tuple(ts))
        if op == 'Add' and a[0] == 'tupv' and b[0] == 'tupv':
            return self.mk('tupv', list(self.items(a)) + list(self.items(b)))
        if op == 'Add':
            parts = []
            for t in (a, b):
                parts += list(t[1]) if t[0] == 'sum' else [t]
            if any(is_str(t) or t[0] == 'fmt' for t in parts):
                return ('bin', 'Add', a, b)
            k = [t for t in parts if num_c(t)]
            parts = [t for t in parts if not num_c(t)]
            s = sum(t[2] for t in k)
            if s or not parts:
                parts.append(C(s))
            parts.sort(key=repr)
            return ('sum', tuple(parts)) if len(parts) > 1 else parts[0]
        return ('bin', op, a, b)

    def index(self, t, i):
        """t[i] for a constant i"""
        if t[0] == 'slice' and isinstance(i, int) and i >= 0:
            if t[3] is not None and i >= t[3] - t[2]:
                return ('other', 'index out of slice')
            return self.index(t[1], t[2] + i)
        if t[0] == 'map':
            return subst(t[1], ('elem', t[2]), self.index(t[2], i))
        return ('idx', t, C(i))

    def subscript(self, e, env, g):
        out = []
        sl = e.slice
        if isinstance(sl, ast.Index):
            sl = sl.value
        for h, t in self.eval(e.value, env, g):
            if isinstance(sl, ast.Slice):
                bs = []
                for b, dflt in ((sl.lower, 0), (sl.upper, None)):
                    if b is None:
                        bs.append(dflt)
                    else:
                        v = self.eval(b, env, h)
                        bs.append(v[0][1][2] if len(v) == 1 and v[0][1][0] == 'c' else 'x')
                if 'x' in bs or sl.step is not None or any(isinstance(x, int) and x < 0 for x in bs):
                    out.append((h, ('other', 'slice', t, ast.unparse(sl))))
                elif t[0] == 'tupv':
                    out.append((h, self.mk('tupv', self.items(t)[bs[0]:bs[1]])))
                elif t[0] == 'slice':
                    lo = t[2] + bs[0]
                    hi = t[2] + bs[1] if bs[1] is not None else t[3]
                    if t[3] is not None and hi is not None:
                        hi = min(hi, t[3])
                    out.append((h, ('slice', t[1], lo, hi)))
                elif t[0] == 'map':
                    out.append((h, ('map', subst(t[1], ('elem', t[2]), ('elem', ('slice', t[2], bs[0], bs[1]))), ('slice', t[2], bs[0], bs[1]))))
                else:
                    out.append((h, ('slice', t, bs[0], bs[1])))
                continue
            for h2, i in self.eval(sl, env, h):
                if t[0] == 'tupv' and i[0] == 'c' and isinstance(i[2], int) and -len(self.items(t)) <= i[2] < len(self.items(t)):
                    out += self.narrow(self.items(t)[i[2]], h2)
                elif t[0] == 'tupv' and i[0] == 'bool':
                    for h3, v in self.truth(i, h2):
                        out += self.narrow(self.items(t)[int(v)], h3)
                elif t[0] == 'dictv' and i[0] == 'c':
                    out += self.narrow(self.items(t)[i[2]], h2) if i[2] in self.items(t) else []
                elif t[0] == 'dictv':
                    for k, v in self.items(t).items():
                        for h3, r in self.compare('Eq', i, C(k), h2):
                            if r:
                                out += self.narrow(v, h3)
                elif i[0] == 'c' and isinstance(i[2], int):
                    out.append((h2, self.index(t, i[2])))
                else:
                    out.append((h2, ('idx', t, i)))
        return out

    # ---------------------------------------------------------------- calls
    def call(self, e, env, g):
        f = self.stack[-1]
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env, g)
                if args is not None and len(v) == 1 and v[0][1][0] == 'tupv':
                    args += self.items(v[0][1])
                else:
                    args = None
            elif args is not None:
                args.append(self.eval(a, env, g))
            else:
                self.eval(a, env, g)
        for k in e.keywords:
            if k.arg is not None:
                kw[k.arg] = self.eval(k.value, env, g)
            else:
                v = self.eval(k.value, env, g)
                if len(v) == 1 and v[0][1][0] == 'dictv':
                    kw.update(self.items(v[0][1]))
                else:
                    args = None
        out = []
        fe = e.func
        # what is called
        if isinstance(fe, ast.Attribute) and not (self.p.resolve_dotted(fe, f.mod) and not (isinstance(fe.value, ast.Name) and fe.value.id in env)):
            recvs = self.eval(fe.value, env, g)
            for h, r in recvs:
                out += self.mcall(r, fe.attr, args, kw, h, e, fe, env)
            return out
        for h, t in self.eval(fe, env, g):
            out += self.lcall(t, args, kw, h, e, env) if t[0] == 'local' else self.fcall(t, args, kw, h, e)
        return out

    def lcall(self, t, args, kw, g, e, env):
        """a function defined in a function, or a lambda"""
        node, fn, clo = self.items(t)
        f = self.stack[-1]
        a = node.args
        if args is None or a.vararg or a.kwarg or a.kwonlyargs:
            raise AnalysisBroken('%s: call of a local function not understood' % f.loc(e))
        if len(self.stack) > 25:
            raise Budget('call depth')
        pars = [x.arg for x in a.args]
        local = set(pars) | self.assigned(node.body if isinstance(node.body, list) else [])
        # a name of the function around it has the value it has when the call is made
        outer = dict(env if f is fn and any(v is env.get(k) for k, v in clo.items()) else clo)
        inner = {k: v for k, v in outer.items() if k not in local}
        dflt = dict(zip(pars[len(pars) - len(a.defaults):], a.defaults))
        for n in pars:
            if n in dflt:
                inner[n] = self.eval(dflt[n], clo, g)
        inner.update(zip(pars, args))
        inner.update(kw)
        if any(n not in inner for n in pars):
            return []
        self.stack.append(fn)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, inner, g)
            falls, rets = self.block(node.body, [(g, inner)])
        finally:
            self.stack.pop()
        for k, v in inner.items():
            if k not in local and any(x.get(k) is not v for _, x in falls) or k not in local and self.mutated(node, k):
                env[k] = [({}, ('other', 'changed in a local function', k))]
        return [(h, x) for h, x in rets] + [(h, NONE) for h, _ in falls]

    def mutated(self, node, k):
        """whether a local function changes the list or dictionary its enclosing function calls k"""
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == k and n.func.attr in ('append', 'extend', 'add', 'update', 'pop', 'clear', 'remove', 'sort', 'insert', 'setdefault'):
                return True
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == k:
                return True
        return False

    def product(self, args, kw, g):
        out = [(g, [], {})]
        for a in args or []:
            out = [(h2, ts + [t], d) for h, ts, d in out for h2, t in self.narrow(a, h)]
        for k in sorted(kw):
            out = [(h2, ts, dict(d, **{k: t})) for h, ts, d in out for h2, t in self.narrow(kw[k], h)]
        return out

    def record(self, r, name, args, kw, g, e):
        f = self.stack[-1]
        self.recs.append(Rec(g, (r, name), args, kw, f.loc(e), f, tuple(x.qual for x in self.stack)))

    def mcall(self, r, name, args, kw, g, e, fe, env):
        f = self.stack[-1]
        if self.want(r, name):
            if args is None:
                raise AnalysisBroken('%s: call with unpacked arguments' % f.loc(e))
            self.record(r, name, args, kw, g, e)
            return [(g, NONE)]
        if r == ('self',) or r[0] == 'class':
            m = self.p.method(self.cls if r == ('self',) else r[1], name)
            if m is not None:
                return self.fcall(('func', m.qual), args, kw, g, e, bound=True)
        if r[0] == 'attr' and self.p.fn is not None and r[1] == ('self',):
            pass
        if is_str(r) or r[0] in ('fmt',):
            if name == 'format':
                out = []
                for h, ts, d in self.product(args, kw, g):
                    ts = [self.under(t, h) for t in ts]
                    if is_str(r) and all(t[0] == 'c' for t in ts) and all(t[0] == 'c' for t in d.values()):
                        try:
                            out.append((h, C(r[2].format(*[t[2] for t in ts], **{k: v[2] for k, v in d.items()}))))
                            continue
                        except Exception:
                            pass
                    out.append((h, ('fmt', r, tuple(ts) + tuple(sorted(d.items())))))
                return out
            out = []
            for h, ts, d in self.product(args, kw, g):
                if name == 'join' and is_str(r) and len(ts) == 1 and ts[0][0] == 'tupv':
                    for h2, xs, _ in self.product(self.items(ts[0]), {}, h):
                        out.append((h2, C(r[2].join(x[2] for x in xs)) if all(is_str(x) for x in xs) else ('other', 'join')))
                    continue
                if is_str(r) and name in ('startswith', 'endswith', 'lower', 'upper', 'strip', 'replace', 'capitalize', 'title') and all(t[0] == 'c' for t in ts) and not d:
                    out.append((h, C(getattr(r[2], name)(*[t[2] for t in ts]))))
                    continue
                if is_str(r) and name in ('startswith', 'endswith') and len(ts) == 1 and ts[0][0] == 'tupv':
                    xs = [self.narrow(v, h) for v in self.items(ts[0])]
                    if all(len(x) == 1 and is_str(x[0][1]) for x in xs):
                        out.append((h, C(getattr(r[2], name)(tuple(x[0][1][2] for x in xs)))))
                        continue
                out.append((h, ('mcall', r, name, tuple(ts), tuple(sorted(d.items())))))
            return out
        if r[0] == 'dictv':
            its = self.items(r)
            if name == 'get' and args:
                out = []
                for h, k in self.narrow(args[0], g):
                    if k[0] == 'c':
                        out += self.narrow(its[k[2]], h) if k[2] in its else self.narrow(args[1], h) if len(args) > 1 else [(h, NONE)]
                    else:
                        todo = [h]
                        for key, v in its.items():
                            nxt = []
                            for h2 in todo:
                                for h3, r2 in self.compare('Eq', k, C(key), h2):
                                    if r2:
                                        out += self.narrow(v, h3)
                                    else:
                                        nxt.append(h3)
                            todo = nxt
                        for h2 in todo:
                            out += self.narrow(args[1], h2) if len(args) > 1 else [(h2, NONE)]
                return out
            if name in ('values', 'itervalues'):
                return [(g, self.mk('tupv', list(its.values())))]
            if name in ('keys', 'iterkeys'):
                return [(g, self.mk('tupv', [[({}, C(k))] for k in its]))]
            if name in ('items', 'iteritems'):
                return [(g, self.mk('tupv', [[({}, self.mk('tupv', [[({}, C(k))], v]))] for k, v in its.items()]))]
        if r[0] == 'tupv' and name in ('append', 'extend', 'add') and isinstance(fe.value, ast.Name) and args and len(args) == 1:
            new = list(self.items(r))
            if name == 'extend':
                v = self.narrow(args[0], g)
                if len(v) == 1 and v[0][1][0] == 'tupv':
                    new += self.items(v[0][1])
                else:
                    new = None
            else:
                new.append(args[0])
            old = env.get(fe.value.id)
            nv = ('other', 'list') if new is None else self.mk('tupv', new)
            env[fe.value.id] = [(h, nv if self.under(t, h) == r or t == r else t) for h, t in old]
            return [(g, NONE)]
        if name in ('setdefault', 'pop', 'append', 'add', 'update', 'clear', 'remove', 'sort', 'insert', 'extend'):
            for h, ts, d in self.product(args, kw, g):
                self.effects.append((h, name, r, f.loc(e), f, tuple(ts), len(self.recs)))
        out = []
        for h, ts, d in self.product(args, kw, g):
            if name == 'copy' and not ts:
                out.append((h, r))
            elif name == 'format' and r[0] == 'c':
                out.append((h, ('other', 'fmt')))
            else:
                out.append((h, ('mcall', r, name, tuple(ts), tuple(sorted(d.items())))))
        return out

    def fcall(self, t, args, kw, g, e, bound=False):
        f = self.stack[-1]
        if t[0] == 'attr' and self.want(t[1], t[2]):
            self.record(t[1], t[2], args, kw, g, e)
            return [(g, NONE)]
        if t[0] == 'func':
            fn = self.p.funcs[t[1]]
            k = self.field(fn)
            if k and args:
                pars = [a for a in fn.params]
                b = dict(zip(pars, args))
                b.update(kw)
                out = []
                for h, ts, d in self.product([b[pars[0]], b.get('is_mandatory', [({}, FALSE)]), b.get('default', [({}, NONE)])], {}, g):
                    nm = ts[0]
                    dflt = ('mandatory',) if ts[1] == TRUE else ts[2]
                    out.append((h, ('F', k, nm[2] if is_str(nm) else nm, dflt)))
                return out
            if fn in self.stack or self.opaque(fn):
                out = []
                for h, ts, d in self.product(args, kw, g):
                    n = len(ts)
                    pars = fn.params[1:] if bound and not fn.static and fn.cls is not None and fn.params[:1] in (['self'], ['cls']) else fn.params
                    for p_, v in zip(pars[n:], pars[n:]):
                        if p_ in d:
                            ts.append(d.pop(p_))
                        else:
                            break
                    o = fn not in self.stack and self.opaque(fn)
                    if self.ops is not None:
                        self.ops.setdefault(fn.qual, []).append((fn, tuple(ts), dict(d)))
                    out.append((h, ('call', ('!' if self.notnone(fn) else '') + (o if isinstance(o, str) else fn.qual), tuple(ts), tuple(sorted(d.items())))))
                return out
            if args is None:
                raise AnalysisBroken('%s: call with unpacked arguments' % f.loc(e))
            return self.inline(fn, args, kw, g, e)
        name = t[1] if t[0] in ('ext', 'builtin') else None
        out = []
        if name == 'map' and args is not None and len(args) == 2 and not kw:
            for h, ts, d in self.product(args, kw, g):
                if ts[1][0] == 'tupv':
                    res = []
                    for v in self.items(ts[1]):
                        res.append([(h3, x) for h2, y in self.narrow(v, h) for h3, x in self.apply(ts[0], [(h2, y)], h2, e)])
                    out.append((h, self.mk('tupv', res)))
                else:
                    for h2, x in self.apply(ts[0], [(h, ('elem', ts[1]))], h, e):
                        out.append((h2, ('map', x, ts[1])))
            return out
        if name and self.want(('ext',), name):
            self.record(('ext',), name, args, kw, g, e)
        if args is None:
            return [(g, ('other', 'starargs'))]
        for h, ts, d in self.product(args, kw, g):
            ts = [self.under(x, h) for x in ts]
            if name in ('sum', 'max', 'min') and ts and ts[0][0] == 'tupv' and len(ts) == 1:
                for h2, xs, _ in self.product(self.items(ts[0]), {}, h):
                    out.append((h2, self.agg(name, xs, h2)))
                continue
            if name in ('sum', 'len') and len(ts) == 1 and ts[0][0] == 'some':
                out.append((h, ('acc', C(0), ts[0][1], frozenset((r, b if name == 'sum' else C(1)) for r, b in ts[0][2]))))
                continue
            if name in ('max', 'min') and len(ts) > 1 and not d:
                out.append((h, self.agg(name, ts, h)))
                continue
            if name in ('list', 'tuple', 'set', 'frozenset', 'sorted') and len(ts) == 1 and ts[0][0] == 'tupv':
                out.append((h, ts[0]))
                continue
            if name in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'iter') and len(ts) == 1 and ts[0][0] == 'dictv':
                ks = list(self.items(ts[0]))
                if name == 'sorted' and all(isinstance(x, str) for x in ks):
                    ks.sort()
                out.append((h, self.mk('tupv', [[({}, C(x))] for x in ks])))
                continue
            if name in ('list', 'set') and not ts:
                out.append((h, self.mk('tupv', [])))
                continue
            if name == 'dict' and not ts:
                out.append((h, self.mk('dictv', {k: [({}, v)] for k, v in d.items()})))
                continue
            if name == 'float' and len(ts) == 1 and is_str(ts[0]) and ts[0][2].lower().lstrip('+') in ('inf', 'infinity'):
                out.append((h, C(float('inf'))))
                continue
            if name in ('math.isinf', 'isinf') and len(ts) == 1:
                out += [(x, C(v)) for x, v in self.split(('eq', ts[0], C(float('inf'))), True, h)]
                continue
            if name == 'bool' and len(ts) == 1:
                out += [(x, C(v)) for x, v in self.truth(ts[0], h)]
                continue
            if name == 'str' and len(ts) == 1 and ts[0][0] == 'c' and isinstance(ts[0][2], (str, int)):
                out.append((h, C(str(ts[0][2]))))
                continue
            if name == 'len' and len(ts) == 1 and ts[0][0] in ('tupv', 'dictv'):
                out.append((h, C(len(self.items(ts[0])))))
                continue
            if name in ('range', 'xrange') and all(num_c(x) for x in ts):
                r = range(*[x[2] for x in ts])
                if len(r) < 300:
                    out.append((h, self.const(list(r))))
                    continue
            if name in ('zip', 'enumerate') and all(x[0] == 'tupv' for x in ts) and ts:
                its = [self.items(x) for x in ts]
                if name == 'enumerate':
                    its = [[[({}, C(i))] for i in range(len(its[0]))], its[0]]
                out.append((h, self.mk('tupv', [[({}, self.mk('tupv', list(x)))] for x in zip(*its)])))
                continue
            if name == 'getattr' and len(ts) >= 2 and is_str(ts[1]):
                out.append((h, ('attr', ts[0], ts[1][2])))
                continue
            nm = name if name else (t[1].name if t[0] == 'class' else t)
            out.append((h, ('call', nm if isinstance(nm, str) else show(nm)[:200], tuple(ts), tuple(sorted(d.items())))))
        return out

    def apply(self, fn, val, g, e):
        return self.lcall(fn, [val], {}, g, e, {}) if fn[0] == 'local' else self.fcall(fn, [val], {}, g, e)

    def agg(self, name, xs, g):
        if name == 'sum':
            r = C(0)
            for x in xs:
                r = self.binop('Add', r, x, g)
            return r
        flat = []
        for x in xs:
            flat += list(x[2]) if x[0] == 'max' and x[1] == name else [x]
        return ('max', name, tuple(sorted(set(flat), key=repr)))

    def notnone(self, fn):
        rets = [n for n in ast.walk(fn.node) if isinstance(n, ast.Return)]
        ok = lambda v: isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('float', 'int', 'str', 'set', 'list', 'dict') or isinstance(v, ast.Constant) and v.value is not None
        sets = {}
        for n in ast.walk(fn.node):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.For, ast.AugAssign)) else []:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        sets.setdefault(x.id, []).append(n.value if isinstance(n, ast.Assign) and x is t else None)

        def good(v):
            if isinstance(v, ast.IfExp):
                return good(v.body) and good(v.orelse)
            if isinstance(v, ast.Name):
                return v.id in sets and v.id not in fn.params and all(x is not None and ok(x) for x in sets[v.id])
            return ok(v)
        return bool(rets) and all(r.value is not None and good(r.value) for r in rets) and isinstance(fn.node.body[-1], ast.Return)

    def inline(self, fn, args, kw, g, e):
        if len(self.stack) > 25:
            raise Budget('call depth')
        self.visited.add(fn)
        a = fn.node.args
        pars = [x.arg for x in a.args]
        env = {}
        if fn.cls is not None and not fn.static and pars:
            env[pars[0]] = [({}, ('class', fn.cls) if fn.classm else ('self',))]
            pars = pars[1:]
        dflt = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
        for n, v in zip(pars, args):
            env[n] = v
        more = {}
        for k, v in kw.items():
            if k in pars or not a.kwarg:
                env[k] = v
            else:
                more[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = [({}, self.mk('dictv', more))]
        if a.vararg:
            env[a.vararg.arg] = [({}, self.mk('tupv', list(args[len(pars):])))]
        self.stack.append(fn)
        try:
            for n in pars:
                if n not in env:
                    if n not in dflt:
                        return []       # TypeError
                    env[n] = self.eval(dflt[n], {}, {})
            falls, rets = self.block(fn.node.body, [(g, env)])
        finally:
            self.stack.pop()
        return [(h, t) for h, t in rets] + [(h, NONE) for h, _ in falls]

    # ---------------------------------------------------------------- statements
    def run(self, fn, args):
        """analyse a method as the entry; args: {param: Val}"""
        self.stack = [fn]
        self.visited.add(fn)
        pars, env = list(fn.params), {}
        if fn.cls is not None and pars and not any(ast.unparse(d) == 'staticmethod' for d in fn.node.decorator_list):
            env[pars.pop(0)] = [({}, ('self',) if not any(ast.unparse(d) == 'classmethod' for d in fn.node.decorator_list) else ('class', self.cls))]
        for n in pars:
            env[n] = args.get(n, [({}, ('sym', n))])
        falls, rets = self.block(fn.node.body, [({}, env)])
        return rets + [(h, NONE) for h, _ in falls]

    def block(self, body, states):
        """-> (falling states, returned pieces)"""
        rets = []
        for st in body:
            nxt = []
            for g, env in states:
                f2, r2 = self.stmt(st, g, env)
                nxt += f2
                rets += r2
            states = nxt
            if not states:
                break
            if len(states) > 1:
                states = self.squash(states)
            if len(states) > 400:
                raise Budget('%s: too many states' % self.stack[-1].loc(st))
        return states, rets

    def squash(self, states):
        """join pairs of states whose guards differ in the sign of one literal and whose variables agree"""
        changed = True
        while changed and len(states) > 1:
            changed = False
            for i in range(len(states)):
                for j in range(i + 1, len(states)):
                    g, h = states[i][0], states[j][0]
                    if len(g) != len(h) or g.keys() != h.keys():
                        continue
                    d = [a for a in g if g[a] != h[a]]
                    if len(d) <= 1 and all(states[i][1].get(k) is states[j][1].get(k) or states[i][1].get(k) == states[j][1].get(k) for k in set(states[i][1]) | set(states[j][1])):
                        k = {a: v for a, v in g.items() if a not in d}
                        states = [x for n, x in enumerate(states) if n not in (i, j)] + [(k, states[i][1])]
                        changed = True
                        break
                if changed:
                    break
        return states

    def assign(self, t, val, env, g):
        if isinstance(t, ast.Name):
            env[t.id] = val
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            cols = [[] for _ in range(n)]
            for h, v in val:
                for i in range(n):
                    if v[0] == 'tupv' and len(self.items(v)) == n:
                        cols[i] += self.narrow(self.items(v)[i], h)
                    else:
                        cols[i].append((h, self.index(v, i)))
            for x, c in zip(t.elts, cols):
                self.assign(x, c, env, g)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            f = self.stack[-1]
            for h, r in self.eval(t.value, env, g):
                if isinstance(t, ast.Subscript) and r[0] == 'dictv' and isinstance(t.value, ast.Name):
                    k = self.eval(t.slice, env, h)
                    if len(k) == 1 and k[0][1][0] == 'c':
                        d = dict(self.items(r))
                        d[k[0][1][2]] = val
                        nv = self.mk('dictv', d)
                        env[t.value.id] = [(h2, nv if v == r else v) for h2, v in env[t.value.id]]
                        continue
                keys = [(h, None)]
                if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                    keys = self.eval(t.slice, env, h)
                for h1, k in keys:
                    for h2, v in self.narrow(val, h1):
                        self.effects.append((h2, 'store', ('attr', r, t.attr) if isinstance(t, ast.Attribute) else ('idx', r, k), f.loc(t), f, v, len(self.recs)))

    def stmt(self, st, g, env):
        f = self.stack[-1]
        if isinstance(st, ast.Expr):
            if isinstance(st.value, ast.Call):
                env = dict(env)
                self.eval(st.value, env, g)
            return [(g, env)], []
        if isinstance(st, ast.Assign):
            env = dict(env)
            v = self.eval(st.value, env, g)
            if not v:
                return [], []
            for t in st.targets:
                self.assign(t, v, env, g)
            return [(g, env)], []
        if isinstance(st, ast.AugAssign):
            env = dict(env)
            ld = ast.copy_location(ast.parse(ast.unparse(st.target), mode='eval').body, st.target)
            v = [(h, self.binop(type(st.op).__name__, a, b, h)) for h, (a, b) in self.evaln([ld, st.value], env, g)]
            self.assign(st.target, v, env, g)
            return [(g, env)], []
        if isinstance(st, ast.Return):
            return [], (self.eval(st.value, env, g) if st.value is not None else [(g, NONE)])
        if isinstance(st, ast.Assert):
            env = dict(env)
            return [(h, env) for h, v in self.cond(st.test, env, g) if v], []
        if isinstance(st, ast.Raise):
            return [], []
        if isinstance(st, (ast.Pass, ast.Global, ast.Import, ast.ImportFrom, ast.Break, ast.Continue)):
            if isinstance(st, ast.Continue):
                return [], [(g, self.mk('continue', env))]
            if isinstance(st, ast.Break):
                return [], [(g, self.mk('break', env))]
            return [(g, env)], []
        if isinstance(st, ast.FunctionDef):
            env = dict(env)
            env[st.name] = [(g, self.mk('local', (st, f, env)))]
            return [(g, env)], []
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                    for h, (r, k) in self.evaln([t.value, t.slice], env, g):
                        self.effects.append((h, 'pop', r, f.loc(t), f, (k,), len(self.recs)))
            return [(g, env)], []
        if isinstance(st, ast.If):
            alts = self.cond(st.test, env, g)
            falls, rets, clean = [], [], True
            for h, v in alts:
                f2, r2 = self.block(st.body if v else st.orelse, [(h, env)])
                rets += r2
                if r2 or len(f2) != 1 or f2[0][0] is not h and f2[0][0] != h:
                    clean = False
                falls += f2
            if clean and falls:
                return [(g, self.merge(g, env, falls))], rets
            return falls, rets
        if isinstance(st, ast.For):
            return self.loop(st, g, env)
        if isinstance(st, ast.While):
            lid = next(self.loops)
            env2 = dict(env)
            for n in self.assigned(st.body):
                env2[n] = [(g, ('lv', n, lid))]
            rets = []
            for h, v in self.cond(st.test, env2, g):
                if v:
                    rets += [(y, t) for y, t in self.block(st.body, [(h, dict(env2))])[1] if t[0] not in ('continue', 'break')]
            return [(g, env2)], rets
        if isinstance(st, ast.Try):
            f1, r1 = self.block(st.body, [(g, env)])
            env2 = dict(env)
            for n in self.assigned(st.body):
                env2[n] = env.get(n, []) + [(h, t) for h2, e2 in f1 for h, t in e2.get(n, [])]
            for hd in st.handlers:
                f2, r2 = self.block(hd.body, [(conj(g, {('raised', st.lineno): True}), env2)])
                f1 += f2
                r1 += r2
            if st.orelse:
                f1, r2 = self.block(st.orelse, f1)
                r1 += r2
            if st.finalbody:
                f1, r2 = self.block(st.finalbody, f1)
                r1 += r2
            return f1, r1
        if isinstance(st, ast.With):
            return self.block(st.body, [(g, env)])
        raise AnalysisBroken('%s: statement not understood' % f.loc(st))

    def assigned(self, body):
        out = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
        return out

    def merge(self, g, env, falls):
        names = set().union(*[set(e) for _, e in falls])
        out = dict(env)
        for n in names:
            vs = [e.get(n) for _, e in falls]
            if all(v is env.get(n) for v in vs):
                continue
            pieces = []
            for h, e in falls:
                if e.get(n) is not None:
                    pieces += self.narrow(e[n], h)
            out[n] = self.compact(pieces)
        return out

    def compact(self, pieces):
        """join pieces of the same value whose guards differ in one literal"""
        by = {}
        for h, t in pieces:
            by.setdefault(t, []).append(h)
        out = []
        for t, hs in by.items():
            changed = True
            while changed and len(hs) > 1:
                changed = False
                for i in range(len(hs)):
                    for j in range(i + 1, len(hs)):
                        if hs[i].keys() == hs[j].keys():
                            d = [a for a in hs[i] if hs[i][a] != hs[j][a]]
                            if len(d) <= 1:
                                m = {a: v for a, v in hs[i].items() if a not in d}
                                hs = [x for n, x in enumerate(hs) if n not in (i, j)] + [m]
                                changed = True
                                break
                    if changed:
                        break
            out += [(h, t) for h in hs]
        return out

    def loop(self, st, g, env):
        falls, rets = [], []
        for h, it in self.eval(st.iter, env, g):
            if it[0] == 'dictv':
                it = self.mk('tupv', [[({}, C(x))] for x in self.items(it)])
            if it[0] == 'tupv':
                states = [(h, env)]
                for v in self.items(it):
                    cur = []
                    for x, e in states:
                        e = dict(e)
                        self.assign(st.target, self.narrow(v, x), e, x)
                        f2, r2 = self.block(st.body, [(x, e)])
                        cur += f2
                        for y, t in r2:
                            if t[0] == 'continue':
                                cur.append((y, self.items(t)))
                            elif t[0] == 'break':
                                falls.append((y, self.items(t)))
                            else:
                                rets.append((y, t))
                    states = self.squash(cur) if len(cur) > 1 else cur
                falls += states
                continue
            lid = next(self.loops)
            names = self.assigned(st.body)
            env2 = dict(env)
            for n in names:
                env2[n] = [(h, ('lv', n, lid))]
            self.assign(st.target, [(h, ('elem', it))], env2, h)
            inner = Theory.add(h, ('each', it, lid), True)
            f2, r2 = self.block(st.body, [(inner, env2)])
            rets += [(y, t) for y, t in r2 if t[0] not in ('continue', 'break')]
            left = [(y, self.items(t)) for y, t in r2 if t[0] == 'break']
            f2 = f2 + [(y, self.items(t)) for y, t in r2 if t[0] == 'continue']
            env3 = dict(env)
            for n in names:
                lv = ('lv', n, lid)
                init = self.narrow(env[n], h) if n in env else []
                accs, ok = [], len(init) == 1 and not left
                for x, e in f2:
                    for y, t in self.narrow(e.get(n, []), x):
                        rel = frozenset((a, v) for a, v in y.items() if a not in inner)
                        if t == lv:
                            continue
                        if t[0] == 'sum' and lv in t[1] and t[1].count(lv) == 1:
                            rest = [z for z in t[1] if z != lv]
                            accs.append((rel, rest[0] if len(rest) == 1 else ('sum', tuple(rest))))
                        else:
                            ok = False
                if ok and accs:
                    env3[n] = [(h, ('acc', init[0][1], it, frozenset(accs)))]
                else:
                    env3[n] = [(h, ('lvout', n, lid))]
            falls.append((h, env3))
        if st.orelse:
            falls, r2 = self.block(st.orelse, falls)
            rets += r2
        return falls, rets


# -------------------------------------------------------------------- equivalence of conditions
class Table:
    """the consistent truth assignments of a set of atoms"""
    _cache = {}

    def __new__(cls, atoms, keep=None):
        """keep(row): whether an assignment can occur"""
        key = (frozenset(atoms), keep)
        if key in cls._cache:
            return cls._cache[key]
        self = object.__new__(cls)
        self.atoms = sorted(key[0], key=repr)
        if len(self.atoms) > 16:
            raise Budget('too many conditions')
        rows = [{}]
        for a in self.atoms:
            rows = [y for x in rows for v in (True, False) for y in [self.put(x, a, v)] if y is not None]
        # an assignment is consistent if every literal may be added to the others
        self.rows = [r for r in rows if all(Theory.decide({b: w for b, w in r.items() if b != a}, a) in (None, v) for a, v in r.items()) and (keep is None or keep(r))]
        self.n = len(self.rows)
        self.mask = {a: sum(1 << i for i, r in enumerate(self.rows) if r[a]) for a in self.atoms}
        self.all = (1 << self.n) - 1
        cls._cache[key] = self
        return self

    @staticmethod
    def put(x, a, v):
        d = Theory.decide(x, a)
        if d is not None and d != v:
            return None
        y = dict(x)
        y[a] = v
        return y

    def set(self, g):
        m = self.all
        for a, v in g.items():
            m &= self.mask[a] if v else self.all & ~self.mask[a]
        return m

    def union(self, gs):
        m = 0
        for g in gs:
            m |= self.set(g)
        return m

    def formula(self, e):
        """e: True/False, an atom, or ('and'|'or', ...) / ('not', e)"""
        if e is True or e is False:
            return self.all if e else 0
        if e[0] == 'and':
            m = self.all
            for x in e[1:]:
                m &= self.formula(x)
            return m
        if e[0] == 'or':
            m = 0
            for x in e[1:]:
                m |= self.formula(x)
            return m
        if e[0] == 'not':
            return self.all & ~self.formula(e[1])
        return self.mask[e]

    def example(self, m):
        i = (m & -m).bit_length() - 1
        return self.rows[i]


def show_g(g):
    def one(a, v):
        t = {'truthy': lambda: show(a[1]), 'isnone': lambda: show(a[1]) + ' is None', 'eq': lambda: '%s == %r' % (show(a[1]), a[2][2]), 'lt': lambda: '%s < %r' % (show(a[1]), a[2])}.get(a[0], lambda: show(a))()
        return t if v else 'not ' + t
    return ' and '.join(sorted(one(a, v) for a, v in g.items())) or 'always'


def atoms_of(e, out=None):
    """the atoms of a formula"""
    out = set() if out is None else out
    if e is True or e is False:
        return out
    if e[0] in ('and', 'or', 'not'):
        for x in e[1:]:
            atoms_of(x, out)
    else:
        out.add(e)
    return out
