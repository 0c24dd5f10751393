"""Parse /repo's Python 2 sources (with Jython's own parser) into Python 3 `ast` trees.

Nothing of /repo is imported or executed: Jython is used as a Python 2.7 front
end only (pcheck/jydump.py calls ast.parse and dumps the tree)."""
import ast
import copy, hashlib, json, os, subprocess, sys, tempfile

REPO = os.environ.get('PCHECK_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), '.cache')
JAVA = '/usr/share/java'


class AnalysisBroken(Exception):
    """An anchor vanished or a source file cannot be analysed: error exit."""


def _jython(args):
    cmd = ['/usr/bin/java', '-XX:+UseSerialGC', '-Xss64m',
           '-cp', ':'.join(os.path.join(JAVA, j) for j in
                           ('jython.jar', 'bcprov.jar', 'bcpkix.jar', 'bcutil.jar')),
           '-Dpython.home=/usr/share/jython', '-Dpython.cachedir.skip=true',
           'org.python.util.jython', '-B', '-S'] + args
    env = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': '/tmp', 'LC_ALL': 'C.UTF-8'}
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if r.returncode != 0:
        raise AnalysisBroken('Jython front end failed: ' + r.stdout.decode('utf-8', 'replace')[-2000:])


def source_files():
    out = []
    base = os.path.join(REPO, 'privcount')
    for root, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if not d.startswith('.'))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith('.py'):
                out.append(p)
            elif '.' not in f:
                try:
                    first = open(p, 'rb').readline()
                except OSError:
                    continue
                if first.startswith(b'#!') and b'python' in first:
                    out.append(p)
    return out


def raw_trees():
    files = source_files()
    if not files:
        raise AnalysisBroken('no Python sources under %s' % REPO)
    dumper = os.path.join(HERE, 'jydump.py')
    salt = hashlib.sha256(open(dumper, 'rb').read()).hexdigest()
    recs, todo = {}, []
    try:
        os.makedirs(CACHE, exist_ok=True)
        cache_ok = True
    except OSError:
        cache_ok = False
    keys = {}
    for p in files:
        k = hashlib.sha256(salt.encode() + open(p, 'rb').read()).hexdigest()
        keys[p] = os.path.join(CACHE, k + '.json')
        if cache_ok and os.path.exists(keys[p]):
            try:
                recs[p] = json.load(open(keys[p]))
                continue
            except ValueError:
                pass
        todo.append(p)
    if todo:
        fd, tmp = tempfile.mkstemp(prefix='pcheck-', suffix='.json')
        os.close(fd)
        try:
            _jython([dumper, tmp] + todo)
            with open(tmp, encoding='utf-8') as f:
                for line in f:
                    r = json.loads(line)
                    recs[r['path']] = r
                    if cache_ok:
                        t = keys[r['path']] + '.%d' % os.getpid()
                        with open(t, 'w') as g:
                            json.dump(r, g)
                        os.replace(t, keys[r['path']])
        finally:
            os.unlink(tmp)
    for p in files:
        if p not in recs:
            raise AnalysisBroken('front end returned nothing for ' + p)
        if 'error' in recs[p]:
            raise AnalysisBroken('%s does not parse: %s' % (p, recs[p]['error']))
    return {p: recs[p]['tree'] for p in files}


_OPS = {n: getattr(ast, n) for n in
        'Add Sub Mult Div Mod Pow LShift RShift BitOr BitXor BitAnd FloorDiv And Or Not Invert UAdd USub '
        'Eq NotEq Lt LtE Gt GtE Is IsNot In NotIn'.split()}
_NAMECONST = {'None': None, 'True': True, 'False': False}


class Unroll(ast.NodeTransformer):
    """any(test(x) for x in (a, b)) is test(a) or test(b), also for a local name that only ever is (a, b)"""

    def __init__(self, f):
        self.f = f
        self.one = {}
        for n in ast.walk(f):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.For, ast.comprehension)) else []):
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.one.setdefault(x.id, []).append(n)
        for a in f.args.args:
            self.one.setdefault(a.arg, []).append(None)

    def visit_Compare(self, n):
        """None in (a, b) is a is None or b is None"""
        self.generic_visit(n)
        if len(n.ops) != 1 or not isinstance(n.ops[0], (ast.In, ast.NotIn)) or not isinstance(n.left, ast.Constant):
            return n
        elts = getattr(n.comparators[0], 'elts', None) if isinstance(n.comparators[0], (ast.Tuple, ast.List)) else None
        if not elts or len(elts) > 8 or any(isinstance(x, (ast.Constant, ast.Starred)) for x in elts):
            return n
        isin, none = isinstance(n.ops[0], ast.In), n.left.value is None
        op = (ast.Is if none else ast.Eq) if isin else (ast.IsNot if none else ast.NotEq)
        v = [ast.copy_location(ast.Compare(left=x, ops=[op()], comparators=[copy.deepcopy(n.left)]), n) for x in elts]
        return v[0] if len(v) == 1 else ast.copy_location(ast.BoolOp(op=ast.Or() if isin else ast.And(), values=v), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if not (isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') and len(n.args) == 1 and not n.keywords
                and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and len(n.args[0].generators) == 1):
            return n
        c = n.args[0].generators[0]
        it = c.iter
        if isinstance(it, ast.Name):
            d = self.one.get(it.id, [])
            if len(d) != 1 or not isinstance(d[0], ast.Assign) or d[0].targets[0].__class__ is not ast.Name:
                return n
            it = d[0].value
            # what the list was made of has not changed since
            if not all(isinstance(x, ast.Constant) or isinstance(x, ast.Name) and len(self.one.get(x.id, [])) <= 1 for x in getattr(it, 'elts', [n])):
                return n
        if not isinstance(it, (ast.List, ast.Tuple)) or not it.elts or len(it.elts) > 16 or not isinstance(c.target, ast.Name) or c.ifs \
                or any(isinstance(x, ast.Starred) for x in it.elts):
            return n
        if not all(isinstance(x, (ast.Constant, ast.Name, ast.Attribute)) for x in it.elts):
            return n
        v = [Put(c.target.id, x).visit(copy.deepcopy(n.args[0].elt)) for x in it.elts]
        return ast.copy_location(ast.BoolOp(op=ast.Or() if n.func.id == 'any' else ast.And(), values=v), n) if len(v) > 1 else v[0]


class Flags(ast.NodeTransformer):
    """flag |= x and flag = flag or x, for a local that else is only True or False, is: if x: flag = True"""

    def __init__(self, f):
        vals = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            vals.setdefault(x.id, []).append(isinstance(t, ast.Name) and (
                                isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool) or self.acc(t.id, n.value) is not None))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                vals.setdefault(n.target.id, []).append(isinstance(n.op, (ast.BitOr, ast.BitAnd)))
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        vals.setdefault(x.id, []).append(False)
        params = {a.arg for a in f.args.args}
        self.flags = {k for k, v in vals.items() if all(v) and k not in params}

    @staticmethod
    def acc(name, v):
        if isinstance(v, ast.BoolOp) and len(v.values) == 2 and isinstance(v.values[0], ast.Name) and v.values[0].id == name \
                and not any(isinstance(x, (ast.Call, ast.Attribute, ast.Subscript)) for x in ast.walk(v.values[1])):
            return v
        return None

    def put(self, n, name, x, orr):
        a = ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=ast.Constant(value=orr))
        t = x if orr else ast.UnaryOp(op=ast.Not(), operand=x)
        r = ast.If(test=t, body=[a], orelse=[])
        for y in ast.walk(r):
            if not hasattr(y, 'lineno'):
                ast.copy_location(y, n)
        return r

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and n.target.id in self.flags:
            return self.put(n, n.target.id, n.value, isinstance(n.op, ast.BitOr))
        return n

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in self.flags:
            v = self.acc(n.targets[0].id, n.value)
            if v is not None:
                return self.put(n, n.targets[0].id, v.values[1], isinstance(v.op, ast.Or))
        return n


class Order(ast.NodeTransformer):
    """0 == x is x == 0"""
    MIRROR = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.MIRROR and isinstance(n.left, ast.Constant) and not isinstance(n.comparators[0], ast.Constant):
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [self.MIRROR[type(n.ops[0])]()]
        return n


class Temps:
    """t = e; return t is return e, and likewise for the condition or the collection of the next statement,
    for a local t that is used nowhere else"""

    def __init__(self, f):
        self.uses = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Name):
                self.uses.setdefault(n.id, []).append(n)
            elif isinstance(n, ast.arg):
                self.uses.setdefault(n.arg, []).append(n)
            elif isinstance(n, ast.Global):
                for x in n.names:
                    self.uses.setdefault(x, []).append(n)
            elif isinstance(n, ast.ExceptHandler) and isinstance(n.name, str):
                self.uses.setdefault(n.name, []).append(n)
        for n in ast.walk(f):
            for b in ('body', 'orelse', 'finalbody'):
                v = getattr(n, b, None)
                if isinstance(v, list):
                    setattr(n, b, self.block(v))

    def block(self, b):
        i = len(b) - 2
        while i >= 0:
            if self.merge(b[i], b[i + 1]):
                b = b[:i] + b[i + 1:]
            i -= 1
        return b

    def merge(self, a, s):
        if not isinstance(a, ast.Assign) or len(a.targets) != 1 or not isinstance(a.targets[0], ast.Name) or len(self.uses[a.targets[0].id]) != 2:
            return False
        at, where = {ast.Return: (s, 'value'), ast.For: (s, 'iter'), ast.If: (s, 'test')}.get(type(s), (None, None))
        if at is None:
            return False
        x = getattr(at, where)
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            at, where, x = x, 'operand', x.operand
        if not isinstance(x, ast.Name) or x.id != a.targets[0].id:
            return False
        setattr(at, where, a.value)
        return True


class Pairs(ast.NodeTransformer):
    """a, b = x, y is: t = x, b = y, a = t, without the t where y can not see that a has changed"""

    def __init__(self):
        self.n = 0

    def visit_Assign(self, n):
        if len(n.targets) != 1 or not isinstance(n.targets[0], (ast.Tuple, ast.List)) or not isinstance(n.value, (ast.Tuple, ast.List)):
            return n
        ts, vs = n.targets[0].elts, n.value.elts
        if len(ts) != len(vs) or any(isinstance(x, (ast.Tuple, ast.List, ast.Starred)) for x in ts + vs):
            return n
        pre, post = [], []
        for i, (t, v) in enumerate(zip(ts, vs)):
            later = [x for w in vs[i + 1:] + ts[i + 1:] for x in ast.walk(w)]
            if isinstance(t, ast.Name):
                clash = any(isinstance(x, ast.Name) and x.id == t.id for x in later)
            elif isinstance(t, ast.Attribute):
                clash = any(isinstance(x, ast.Call) or isinstance(x, ast.Attribute) and x.attr == t.attr for x in later)
            else:
                clash = any(isinstance(x, (ast.Call, ast.Subscript)) for x in later)
            if not isinstance(t, ast.Name) and any(isinstance(x, ast.Name) and isinstance(s, ast.Name) and x.id == s.id for s in ts[:i] for x in ast.walk(t)):
                return n        # a, x[a] = ...
            if clash or post:
                self.n += 1
                nm = '_pair_%d_%d' % (getattr(n, 'lineno', 0), self.n)
                pre.append(ast.Assign(targets=[ast.Name(nm, ast.Store())], value=v))
                post.append(ast.Assign(targets=[t], value=ast.Name(nm, ast.Load())))
            else:
                pre.append(ast.Assign(targets=[t], value=v))
        for a in pre + post:
            for y in ast.walk(a):
                if not hasattr(y, 'lineno'):
                    ast.copy_location(y, n)
        return pre + post


class DictComps(ast.NodeTransformer):
    """x = {k: v for a in b if c} is: d = {}, for a in b: if c: d[k] = v, x = d; the same for dict((k, v) for a in b if c)"""

    def __init__(self):
        self.n = 0

    def parts(self, e):
        if isinstance(e, ast.DictComp):
            return e.key, e.value, e.generators
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'dict' and len(e.args) == 1 and not e.keywords \
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and isinstance(e.args[0].elt, (ast.Tuple, ast.List)) and len(e.args[0].elt.elts) == 2:
            return e.args[0].elt.elts[0], e.args[0].elt.elts[1], e.args[0].generators

    def hoist(self, e, pre):
        """the expression, with its dict comprehensions made by the statements pre before it"""
        if not isinstance(e, ast.AST) or isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.BoolOp, ast.IfExp)):
            return e
        p = self.parts(e)
        if p is None:
            for name, v in ast.iter_fields(e):
                if isinstance(v, list):
                    v[:] = [self.hoist(x, pre) for x in v]
                elif isinstance(v, ast.AST):
                    setattr(e, name, self.hoist(v, pre))
            return e
        key, val, gens = p
        self.n += 1
        d = '_dict_%d_%d' % (getattr(e, 'lineno', 0), self.n)
        new = {}
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    new[x.id] = '%s_%d_%d' % (x.id, getattr(e, 'lineno', 0), self.n)

        def own(t, bound):
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and x.id in bound:
                    x.id = new[x.id]
            return t
        seen = set()
        loops = []
        for g in gens:
            it = own(copy.deepcopy(g.iter), seen)
            seen |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            loops.append((own(copy.deepcopy(g.target), seen), it, [own(copy.deepcopy(c), seen) for c in g.ifs]))
        body = [ast.Assign(targets=[ast.Subscript(value=ast.Name(d, ast.Load()), slice=own(copy.deepcopy(key), seen), ctx=ast.Store())],
                           value=own(copy.deepcopy(val), seen))]
        body[0].value = self.hoist(body[0].value, inner := [])
        body = inner + body
        for tgt, it, ifs in reversed(loops):
            for c in reversed(ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=tgt, iter=it, body=body, orelse=[])]
        for s in [ast.Assign(targets=[ast.Name(d, ast.Store())], value=ast.Dict(keys=[], values=[]))] + body:
            for x in ast.walk(s):
                if not hasattr(x, 'lineno') and 'lineno' in x._attributes:
                    ast.copy_location(x, e)
            pre.append(s)
        return ast.copy_location(ast.Name(d, ast.Load()), e)

    def stmt(self, n):
        pre = []
        n.value = self.hoist(n.value, pre) if n.value is not None else None
        return pre + [n] if pre else n

    visit_Assign = visit_Return = visit_Expr = visit_AugAssign = stmt


class Put(ast.NodeTransformer):
    def __init__(self, name, value):
        self.name, self.value = name, value

    def visit_Name(self, n):
        return copy.deepcopy(self.value) if n.id == self.name else n


class Conv:
    def s(self, d):
        """plain string"""
        if d is None:
            return None
        if isinstance(d, dict):
            if d['_'] == '$str':
                return d['v']
            if d['_'] == 'Name':
                return self.s(d['id'])
        raise AnalysisBroken('unexpected string node %r' % (d,))

    def many(self, ds):
        return [self.e(d) for d in (ds or [])]

    def body(self, ds):
        out = []
        for d in ds or []:
            r = self.st(d)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def at(self, node, d):
        node.lineno = d.get('l', 1) or 1
        node.col_offset = d.get('c', 0) or 0
        node.end_lineno, node.end_col_offset = node.lineno, node.col_offset
        return node

    def args(self, d):
        posargs, pre = [], []
        for a in d['args'] or []:
            if a['_'] == 'Name':
                posargs.append(ast.arg(arg=self.s(a['id'])))
            else:
                nm = '_tuple_arg_%d' % len(posargs)
                posargs.append(ast.arg(arg=nm))
                pre.append(self.at(ast.Assign(targets=[self.e(a)], value=self.at(ast.Name(nm, ast.Load()), a)), a))
        va, kw = self.s(d.get('vararg')), self.s(d.get('kwarg'))
        return ast.arguments(posonlyargs=[], args=posargs, vararg=ast.arg(arg=va) if va else None,
                             kwonlyargs=[], kw_defaults=[], kwarg=ast.arg(arg=kw) if kw else None,
                             defaults=self.many(d.get('defaults'))), pre

    def st(self, d):
        k = d['_']
        return self.at(getattr(self, 'st_' + k)(d), d)

    def st_FunctionDef(self, d):
        a, pre = self.args(d['args'])
        f = ast.FunctionDef(name=self.s(d['name']), args=a, body=pre + self.body(d['body']),
                            decorator_list=self.many(d.get('decorator_list')), returns=None, type_params=[])
        Pairs().visit(f)
        DictComps().visit(f)
        Unroll(f).visit(f)
        Flags(f).visit(f)
        Order().visit(f)
        Temps(f)
        return f

    def st_ClassDef(self, d):
        return ast.ClassDef(name=self.s(d['name']), bases=self.many(d['bases']), keywords=[],
                            body=self.body(d['body']), decorator_list=self.many(d.get('decorator_list')), type_params=[])

    def st_Return(self, d):
        return ast.Return(value=self.e(d['value']) if d['value'] else None)

    def st_Delete(self, d):
        return ast.Delete(targets=self.many(d['targets']))

    def st_Assign(self, d):
        return ast.Assign(targets=self.many(d['targets']), value=self.e(d['value']))

    def st_AugAssign(self, d):
        return ast.AugAssign(target=self.e(d['target']), op=self.op(d['op']), value=self.e(d['value']))

    def st_Print(self, d):
        kws = [ast.keyword(arg='file', value=self.e(d['dest']))] if d.get('dest') else []
        return ast.Expr(value=self.at(ast.Call(func=self.at(ast.Name('print', ast.Load()), d),
                                               args=self.many(d['values']), keywords=kws), d))

    def st_For(self, d):
        return ast.For(target=self.e(d['target']), iter=self.e(d['iter']), body=self.body(d['body']),
                       orelse=self.body(d['orelse']))

    def st_While(self, d):
        return ast.While(test=self.e(d['test']), body=self.body(d['body']), orelse=self.body(d['orelse']))

    def st_If(self, d):
        return ast.If(test=self.e(d['test']), body=self.body(d['body']), orelse=self.body(d['orelse']))

    def st_With(self, d):
        if 'items' in d and d['items']:
            items = [ast.withitem(context_expr=self.e(i['context_expr']),
                                  optional_vars=self.e(i['optional_vars']) if i.get('optional_vars') else None)
                     for i in d['items']]
        else:
            items = [ast.withitem(context_expr=self.e(d['context_expr']),
                                  optional_vars=self.e(d['optional_vars']) if d.get('optional_vars') else None)]
        return ast.With(items=items, body=self.body(d['body']))

    def st_Raise(self, d):
        exc = self.e(d['type']) if d.get('type') else None
        if exc is not None and d.get('inst'):
            exc = self.at(ast.Call(func=exc, args=[self.e(d['inst'])], keywords=[]), d)
        return ast.Raise(exc=exc, cause=None)

    def st_TryExcept(self, d):
        hs = []
        for h in d['handlers']:
            hs.append(self.at(ast.ExceptHandler(type=self.e(h['type']) if h.get('type') else None,
                                                name=self.s(h['name']) if h.get('name') else None,
                                                body=self.body(h['body'])), h))
        return ast.Try(body=self.body(d['body']), handlers=hs, orelse=self.body(d['orelse']), finalbody=[])

    def st_TryFinally(self, d):
        b = self.body(d['body'])
        f = self.body(d['finalbody'])
        if len(b) == 1 and isinstance(b[0], ast.Try) and not b[0].finalbody:
            b[0].finalbody = f
            return b[0]
        return ast.Try(body=b, handlers=[], orelse=[], finalbody=f)

    def st_Assert(self, d):
        return ast.Assert(test=self.e(d['test']), msg=self.e(d['msg']) if d.get('msg') else None)

    def st_Import(self, d):
        return ast.Import(names=[ast.alias(name=self.s(a['name']), asname=self.s(a.get('asname'))) for a in d['names']])

    def st_ImportFrom(self, d):
        lvl = d.get('level') or 0
        if isinstance(lvl, dict):
            lvl = int(lvl['v'])
        return ast.ImportFrom(module=self.s(d.get('module')),
                              names=[ast.alias(name=self.s(a['name']), asname=self.s(a.get('asname'))) for a in d['names']],
                              level=lvl)

    def st_Exec(self, d):
        return ast.Expr(value=self.at(ast.Call(func=self.at(ast.Name('exec', ast.Load()), d),
                                               args=[self.e(d['body'])], keywords=[]), d))

    def st_Global(self, d):
        return ast.Global(names=[self.s(n) for n in d['names']])

    def st_Expr(self, d):
        return ast.Expr(value=self.e(d['value']))

    def st_Pass(self, d):
        return ast.Pass()

    def st_Break(self, d):
        return ast.Break()

    def st_Continue(self, d):
        return ast.Continue()

    def op(self, d):
        return _OPS[d['_']]()

    def e(self, d):
        if d is None:
            return None
        return self.at(getattr(self, 'e_' + d['_'])(d), d)

    def ctx(self, d):
        c = (d.get('ctx') or {}).get('_', 'Load')
        return {'Load': ast.Load, 'Del': ast.Del}.get(c, ast.Store)()

    def e_BoolOp(self, d):
        return ast.BoolOp(op=self.op(d['op']), values=self.many(d['values']))

    def e_BinOp(self, d):
        return ast.BinOp(left=self.e(d['left']), op=self.op(d['op']), right=self.e(d['right']))

    def e_UnaryOp(self, d):
        o = self.e(d['operand'])
        if d['op']['_'] == 'USub' and isinstance(o, ast.Constant) and isinstance(o.value, (int, float)) \
                and not isinstance(o.value, bool):
            return ast.Constant(value=-o.value)
        return ast.UnaryOp(op=self.op(d['op']), operand=o)

    def e_Lambda(self, d):
        a, pre = self.args(d['args'])
        return ast.Lambda(args=a, body=self.e(d['body']))

    def e_IfExp(self, d):
        return ast.IfExp(test=self.e(d['test']), body=self.e(d['body']), orelse=self.e(d['orelse']))

    def e_Dict(self, d):
        return ast.Dict(keys=self.many(d['keys']), values=self.many(d['values']))

    def e_Set(self, d):
        return ast.Set(elts=self.many(d['elts']))

    def gens(self, d):
        return [ast.comprehension(target=self.e(g['target']), iter=self.e(g['iter']), ifs=self.many(g['ifs']), is_async=0)
                for g in d['generators']]

    def e_ListComp(self, d):
        return ast.ListComp(elt=self.e(d['elt']), generators=self.gens(d))

    def e_SetComp(self, d):
        return ast.SetComp(elt=self.e(d['elt']), generators=self.gens(d))

    def e_GeneratorExp(self, d):
        return ast.GeneratorExp(elt=self.e(d['elt']), generators=self.gens(d))

    def e_DictComp(self, d):
        return ast.DictComp(key=self.e(d['key']), value=self.e(d['value']), generators=self.gens(d))

    def e_Yield(self, d):
        return ast.Yield(value=self.e(d['value']))

    def e_Compare(self, d):
        return ast.Compare(left=self.e(d['left']), ops=[self.op(o) for o in d['ops']], comparators=self.many(d['comparators']))

    def e_Call(self, d):
        args = self.many(d['args'])
        if d.get('starargs'):
            v = self.e(d['starargs'])
            args.append(self.at(ast.Starred(value=v, ctx=ast.Load()), d))
        kws = [ast.keyword(arg=self.s(k['arg']), value=self.e(k['value'])) for k in d['keywords'] or []]
        if d.get('kwargs'):
            kws.append(ast.keyword(arg=None, value=self.e(d['kwargs'])))
        return ast.Call(func=self.e(d['func']), args=args, keywords=kws)

    def e_Repr(self, d):
        return ast.Call(func=self.at(ast.Name('repr', ast.Load()), d), args=[self.e(d['value'])], keywords=[])

    def e_Num(self, d):
        n = d['n']
        return ast.Constant(value=int(n['v']) if n['_'] == '$int' else float(n['v']) if n['_'] == '$float' else n['v'])

    def e_Str(self, d):
        return ast.Constant(value=d['s']['v'])

    def e_Attribute(self, d):
        return ast.Attribute(value=self.e(d['value']), attr=self.s(d['attr']), ctx=self.ctx(d))

    def e_Subscript(self, d):
        return ast.Subscript(value=self.e(d['value']), slice=self.sl(d['slice']), ctx=self.ctx(d))

    def sl(self, d):
        if d['_'] == 'Index':
            return self.e(d['value'])
        if d['_'] == 'Slice':
            return self.at(ast.Slice(lower=self.e(d['lower']), upper=self.e(d['upper']), step=self.e(d['step'])), d)
        if d['_'] == 'ExtSlice':
            return self.at(ast.Tuple(elts=[self.sl(x) for x in d['dims']], ctx=ast.Load()), d)
        return self.at(ast.Constant(value=Ellipsis), d)

    def e_Name(self, d):
        n = self.s(d['id'])
        if n in _NAMECONST and isinstance(self.ctx(d), ast.Load):
            return ast.Constant(value=_NAMECONST[n])
        return ast.Name(id=n, ctx=self.ctx(d))

    def e_List(self, d):
        return ast.List(elts=self.many(d['elts']), ctx=self.ctx(d))

    def e_Tuple(self, d):
        return ast.Tuple(elts=self.many(d['elts']), ctx=self.ctx(d))


def load():
    """{path: ast.Module} for every Python source of the package."""
    sys.setrecursionlimit(20000)
    out = {}
    for p, t in raw_trees().items():
        m = ast.Module(body=Conv().body(t['body']), type_ignores=[])
        out[p] = ast.fix_missing_locations(m)
    return out


if __name__ == '__main__':
    for p, m in load().items():
        print(p, sum(1 for _ in ast.walk(m)))
