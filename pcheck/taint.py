"""Interprocedural taint analysis: which values may hold a secret, and under which keys.  A taint is a set of (path, label):
the label is held by what the path of keys leads to.  Functions are analysed for the taints of their arguments (a value context
each), attributes of the program's objects are one cell per class and name, statements are followed in order."""
import ast
from .load import AnalysisBroken

NIL = frozenset()
DEPTH = 4
HOMES = ()
MUTATE = ('append', 'add', 'update', 'extend', 'insert', 'setdefault', 'appendleft', 'write', 'push')
# what these answer says nothing of the value but its size or kind
CLEAN = {'len', 'isinstance', 'type', 'bool', 'hasattr', 'callable', 'id', 'issubclass', 'hash', 'all', 'any', 'range', 'xrange'}
KEYS = ('keys', 'iterkeys', 'has_key', 'viewkeys')
GETS = ('get', 'pop')
ELEMS = ('values', 'itervalues', 'popitem', 'viewvalues')


def under(k, t):
    return frozenset(((k,) + p)[:DEPTH] and (((k,) + p)[:DEPTH], l) for p, l in t)


def plain(t):
    """nothing is known of how the text starts (labels are tuples, the literal that the text starts with may come last)"""
    return frozenset((p, l[:2]) for p, l in t)


def whole(t):
    """what is tainted as a whole has tainted keys"""
    return frozenset(x for x in t if not x[0])


def prefixed(t, s):
    return frozenset((p, l[:2] + (s + (l[2] if len(l) > 2 else ''),)) if not p else (p, l) for p, l in t)


def flat(t):
    return frozenset(((), l[:2]) for p, l in t)


def home(k, l):
    """a label with a home is only under that key where a key of HOMES is meant"""
    return k not in HOMES or l[1] not in HOMES or l[1] == k


def read(t, k):
    """what the key leads to"""
    out = set()
    for p, l in t:
        if p and p[0] == '*' and not home(k, l):
            continue
        if not p:
            out.add((p, l))
        elif p[0] == '*' or k == '*' or p[0] == k or p[0] == '1+' and k != '0':
            out.add((p[1:], l))
    return frozenset(out)


class Taint:
    """source(call, fn, args) -> labels or None; clean(call, fn) -> bool; sink(node, fn, selfcls, kind, taints)"""

    def __init__(self, p, source, clean, sink, attr_source=None, mods=None):
        self.p, self.source, self.clean, self.sink, self.attr_source = p, source, clean, sink, attr_source
        self.attrs, self.memo, self.stack, self.changed = {}, {}, [], True
        self.seen = set()
        self.keys = {}
        self.mods = mods
        self._kept = {}
        self.fixed = set()      # attributes whose content is attr_source's
        self.concrete = {}
        for c in p.classes.values():
            self.concrete[c.name] = c
        self.methods = {}
        for f in p.funcs.values():
            if f.cls is not None and f.parent is None:
                self.methods.setdefault(f.name, []).append(f)

    def run(self):
        n = 0
        while self.changed:
            self.changed = False
            self.memo = {}
            n += 1
            if n > 12:
                raise AnalysisBroken('taint analysis does not end')
            for f in sorted(self.p.funcs.values(), key=lambda f: f.qual):
                if self.mods and f.mod.name not in self.mods:
                    continue
                for c in self.selves(f):
                    self.call(f, c, tuple(self.param_source(f, c, n) for n in f.params))
        return n

    def param_source(self, f, c, n):
        return NIL

    def selves(self, f):
        if f.cls is None:
            return [None]
        subs = [c for c in self.concrete.values() if f.cls in self.p.mro(c)]
        return subs or [f.cls]

    # ---- functions
    def keyed(self, f):
        """the parameters that are used as keys"""
        if f.qual not in self.keys:
            out = set()
            for n in ast.walk(f.node):
                x = n.slice if isinstance(n, ast.Subscript) else n.args[0] if isinstance(n, ast.Call) and n.args else n.left if isinstance(n, ast.Compare) else n.iter if isinstance(n, ast.For) else None
                if isinstance(x, ast.Name) and x.id in f.params:
                    out.add(x.id)
            self.keys[f.qual] = out
        return self.keys[f.qual]

    def call(self, f, selfcls, args, consts=()):
        key = (f.qual, selfcls.name if selfcls is not None else None, args, consts)
        if key in self.memo:
            return self.memo[key]
        if len(self.stack) > 40:
            return NIL, (NIL,) * len(f.params)
        self.memo[key] = (NIL, args)
        old = getattr(self, 'cur', None)
        self.cur = (f, selfcls)
        self.stack.append(key)
        self.seen.add(f.qual)
        try:
            for _ in range(3):
                env = {}
                for n, a in zip(f.params, args):
                    env['%p' + n] = a
                    env[('@', n)] = frozenset({('%p' + n, (), True)})
                for n, v in consts:
                    env[('k', n)] = frozenset({v})
                self.ret, ret = set(), getattr(self, 'ret', None)
                exits, self.exits = [], getattr(self, 'exits', None)
                self.exits, keep = exits, self.exits
                end = self.block(f.node.body if isinstance(f.node.body, list) else [ast.Return(value=f.node.body)], env)
                r, self.ret = frozenset(self.ret), ret
                self.exits = keep
                ends = exits + ([end] if end is not None else [])
                outs = tuple(frozenset().union(*[e.get('%p' + n, NIL) for e in ends]) if ends else a for n, a in zip(f.params, args))
                new = (r, outs)
                if self.memo[key] == new:
                    break
                self.memo[key] = new
        finally:
            self.stack.pop()
            self.cur = old
        return self.memo[key]

    # ---- attributes
    def attr_get(self, cls, name):
        out = set()
        for c in ([cls] if cls is not None else [None]):
            if c is None:
                for (n, a), t in self.attrs.items():
                    if a == name:
                        out |= t
            else:
                out |= self.attrs.get((c.name, name), NIL)
        if self.attr_source:
            out |= self.attr_source(cls, name) or NIL
        return frozenset(out)

    def attr_put(self, cls, name, t):
        if not t or cls is None:
            if t and cls is None:
                cls_names = {n for n, a in self.attrs if a == name} | {c.name for c in self.concrete.values() if False}
                for n in cls_names or {'?'}:
                    self._put((n, name), t)
            return
        self._put((cls.name, name), t)

    def _put(self, k, t):
        old = self.attrs.get(k, NIL)
        if k not in self.fixed and not t <= old:
            self.attrs[k] = old | t
            self.changed = True

    # ---- statements: env after, or None if control does not reach the end
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k, NIL), b.get(k, NIL)
            if isinstance(k, tuple) and k[0] == '@' and x != y:
                # the name may stand for different objects
                out[k] = frozenset((r, p, False) for r, p, m in x | y)
                continue
            if isinstance(k, tuple) and k[0] in '[k' and x != y:
                continue
            out[k] = x | y
        for k in list(out):
            if isinstance(k, tuple) and k[0] == '@' and a.get(k, NIL) != b.get(k, NIL):
                out[k[1]] = self.value(a, k[1]) | self.value(b, k[1])
        return out

    # ---- objects: a name stands for a part of a variable's object (aliases), so what is put there is found again
    def value(self, env, n):
        al = env.get(('@', n), NIL)
        if len(al) == 1 and list(al)[0][2]:
            r, p, m = list(al)[0]
            return self.at(env, r, p)
        return env.get(n, NIL)

    def const(self, e, env):
        if isinstance(e, ast.Constant):
            return str(e.value)
        if isinstance(e, ast.Name) and ('k', e.id) in env:
            v = list(env[('k', e.id)])[0]
            return v if isinstance(v, str) else None

    def constant(self, e, env):
        """also the elements of a literal sequence of texts"""
        elts = self.literal(e, env)
        if elts is not None and all(isinstance(x, ast.Constant) for x in elts):
            return tuple(str(x.value) for x in elts)
        return self.const(e, env)

    def at(self, env, root, path):
        t = env.get(root, NIL)
        for k in path:
            t = read(t, k)
        return t

    def resolve(self, e, env):
        """(root, keys, exactly) of the object an expression is"""
        if isinstance(e, ast.Name):
            al = env.get(('@', e.id), NIL)
            if len(al) == 1 and list(al)[0][2]:
                return list(al)[0]
            return e.id, (), not al
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            r = self.resolve(e.value, env)
            if isinstance(e.slice, ast.Name):
                for k, v in env.items():
                    if isinstance(k, tuple) and k[0] == '[' and k[2] == e.slice.id and (k[1] == ast.dump(e.value) or r is not None and k[4] == r):
                        return list(v)[0], (), True
            if r is not None:
                c = self.const(e.slice, env)
                return r[0], r[1] + ('*' if c is None else c,), r[2] and c is not None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'setdefault') and e.args and self.const(e.args[0], env) is not None:
            r = self.resolve(e.func.value, env)
            if r is not None:
                return r[0], r[1] + (self.const(e.args[0], env),), r[2]

    def put(self, env, root, path, t, seen=()):
        if not t or (root, path) in seen:
            return
        seen = seen + ((root, path),)
        add = t
        for k in reversed(path):
            add = under(k, add)
        env[root] = env.get(root, NIL) | add
        for (a, b) in env.get(('%', root), NIL):
            self.put(env, a, b + ('*',), add, seen)
        for k, v in list(env.items()):
            if isinstance(k, tuple) and k[0] == '%':
                for a, b in v:
                    if a == root and (k[1], ()) not in seen:
                        x = add
                        for y in b + ('*',):
                            x = read(x, y)
                        env[k[1]] = env.get(k[1], NIL) | x
            if isinstance(k, tuple) and k[0] == '@':
                for a, b, m in v:
                    if a == root and not m and k[1] != root:
                        x = add
                        for y in b:
                            x = read(x, y)
                        env[k[1]] = env.get(k[1], NIL) | x
        for c, a, b in env.get(('=', root), NIL):
            self._put((c, a), self.at(env, root, b))
        for r, p, m in env.get(('@', root), NIL):
            self.put(env, r, p + path, t, seen)

    def change(self, env, root, path, keep):
        def meant(p, l):
            return len(p) >= len(path) and all(x == y or x == '*' and y in HOMES and l[1] == y for x, y in zip(p, path))
        env[root] = frozenset((p, l) for p, l in env.get(root, NIL) if not meant(p, l) or keep(p[len(path):], l))

    def rebind(self, env, n):
        for k in list(env):
            if not isinstance(k, tuple):
                continue
            if k[0] == '@' and k[1] != n and any(r == n for r, p, m in env[k]):
                v = self.value(env, k[1])
                env[k[1]] = v
                env[k] = frozenset(x for x in env[k] if x[0] != n)
                if not env[k]:
                    del env[k]
            elif k[0] == '[' and (k[2] == n or n in k[3]):
                del env[k]
            elif k[0] in '=k' and k[1] == n:
                del env[k]
        env.pop(('@', n), None)

    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(s, env)
        return env

    def s_Expr(self, s, env):
        self.ev(s.value, env)
        return env

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        env = dict(env)
        for t in s.targets:
            self.assign(t, v, env, s.value)
        return env

    def s_AugAssign(self, s, env):
        v = self.ev(s.value, env)
        o = self.ev(s.target, env)
        env = dict(env)
        if isinstance(s.op, ast.Mod):
            v = o = NIL
        self.assign(s.target, v | o, env, s.value)
        return env

    def s_Return(self, s, env):
        if s.value is not None:
            self.ret |= self.ev(s.value, env)
        self.exits.append(env)
        return None

    def s_Raise(self, s, env):
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                ts = [self.ev(a, env) for a in e.args]
                self.sink(s, self.cur[0], self.cur[1], 'raise', ts, None)
            else:
                self.ev(e, env)
        return None

    def s_Assert(self, s, env):
        self.ev(s.test, env)
        if s.msg is not None:
            self.sink(s, self.cur[0], self.cur[1], 'raise', [self.ev(s.msg, env)], None)
        return self.refine(s.test, True, env)

    def s_If(self, s, env):
        self.ev(s.test, env)
        a = self.block(s.body, dict(self.refine(s.test, True, env)))
        b = self.block(s.orelse, dict(self.refine(s.test, False, env)))
        return self.join(a, b)

    def loop(self, bind, body, orelse, env, done=None):
        for _ in range(5):
            e = dict(env)
            bind(e)
            self.brk, oldb = [], getattr(self, 'brk', [])
            self.cont, oldc = [], getattr(self, 'cont', [])
            end = self.block(body, e)
            brks, conts = self.brk, self.cont
            self.brk, self.cont = oldb, oldc
            new = env
            for x in [end] + brks + conts:
                new = self.join(new, x)
            if new == env:
                break
            env = new
        out = None
        for x in [end] + conts:
            if x is not None:
                out = self.join(out, done(dict(x), True) if done else x)
        out = self.join(out, done(dict(env), False) if done else env)
        if orelse:
            out = self.block(orelse, out)
        for x in brks:
            out = self.join(out, x)
        return out

    def over(self, it):
        """the collection that is iterated, and how: its items 'kv', its values 'v' (or what iterating gives, '')"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('sorted', 'list', 'iter', 'reversed', 'tuple', 'enumerate') and it.args:
            x, h = self.over(it.args[0])
            return x, ('i' if it.func.id == 'enumerate' else '') + h
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and not it.args:
            if it.func.attr in KEYS:
                return it.func.value, 'k'
            if it.func.attr in ('values', 'itervalues', 'viewvalues'):
                return it.func.value, 'v'
            if it.func.attr in ('items', 'iteritems', 'viewitems'):
                return it.func.value, 'kv'
        return it, ''

    def literal(self, it, env):
        """the elements of a literal sequence of constants"""
        f, c = self.cur
        if isinstance(it, ast.Name) and ('k', it.id) in env:
            v = list(env[('k', it.id)])[0]
            return None if isinstance(v, str) else [ast.Constant(value=x) for x in v]
        if isinstance(it, ast.Name) and it.id not in env and ('@', it.id) not in env:
            it = self.single(f.mod.tree.body, it.id) if getattr(f.mod, 'tree', None) is not None else None
        elif isinstance(it, ast.Attribute) and isinstance(it.value, ast.Name):
            for k in (self.p.mro(c) if c is not None else []):
                v = self.single(k.node.body, it.attr)
                if v is not None:
                    it = v
                    break
        if isinstance(it, (ast.Tuple, ast.List, ast.Set)) and it.elts and len(it.elts) <= 40 and all(self.plainc(x) for x in it.elts):
            return it.elts

    def plainc(self, x):
        return isinstance(x, ast.Constant) or isinstance(x, (ast.Tuple, ast.List)) and all(self.plainc(y) for y in x.elts)

    def single(self, body, name):
        v = [s.value for s in body if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name]
        return v[0] if len(v) == 1 else None

    def s_For(self, s, env):
        elts = self.literal(s.iter, env)
        if elts is not None:
            out = None
            for x in elts:
                env = dict(env)
                self.assign(s.target, NIL, env, x)
                self.brk, oldb = [], getattr(self, 'brk', [])
                self.cont, oldc = [], getattr(self, 'cont', [])
                end = self.block(s.body, env)
                brks, conts = self.brk, self.cont
                self.brk, self.cont = oldb, oldc
                for y in brks:
                    out = self.join(out, y)
                for y in conts:
                    end = self.join(end, y)
                env = end
                if env is None:
                    break
            if env is not None and s.orelse:
                env = self.block(s.orelse, env)
            return self.join(env, out)
        x, how = self.over(s.iter)
        var = '%%%d.%d' % (s.lineno, s.col_offset)
        t = s.target
        if how[:1] == 'i':
            t = t.elts[1] if isinstance(t, ast.Tuple) and len(t.elts) == 2 else None
            how = how[1:]
        k = None
        if how == 'kv':
            k, t = (t.elts[0], t.elts[1]) if isinstance(t, ast.Tuple) and len(t.elts) == 2 else (None, None)
        elif how == 'k' or how == '' and isinstance(t, ast.Name) and any(
                isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and n.slice.id == t.id and (
                    ast.dump(n.value) == ast.dump(x) or self.resolve(x, env) is not None and self.resolve(n.value, env) == self.resolve(x, env)) for b in s.body for n in ast.walk(b)):
            k, t = t, None
        simple = (k is None or isinstance(k, ast.Name)) and (t is None or isinstance(t, ast.Name)) and (k is not None or t is not None)
        stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        r = self.resolve(x, env) if simple else None
        if not simple or isinstance(k, ast.Name) and k.id in stored:
            return self.loop(lambda e: self.assign(s.target, self.elems(s.iter, e), e, None), s.body, s.orelse, env)
        names = tuple(sorted(n.id for n in ast.walk(x) if isinstance(n, ast.Name)))

        def bind(e):
            self.ev(s.iter, e)
            val = read(self.ev(x, e), '*')
            q = self.resolve(x, e)
            for n in (k, t):
                if n is not None:
                    self.rebind(e, n.id)
                    e[n.id] = whole(self.ev(x, e)) if n is k else NIL
            e[var] = val
            if q is not None:
                e[('%', var)] = frozenset({q[:2]})
            if t is not None:
                e[('@', t.id)] = frozenset({(var, (), True)})
            if k is not None and not set(names) & stored:
                e[('[', ast.dump(x), k.id, names, q)] = frozenset({var})

        def done(e, ended):
            q = self.resolve(x, e)
            el = e.pop(var, NIL)
            for n in list(e):
                if isinstance(n, tuple) and n[0] == '@' and any(a == var for a, b, m in e[n]):
                    e[n[1]] = self.value(dict(e, **{var: el}), n[1])
                    e[n] = frozenset(y for y in e[n] if y[0] != var)
                    if not e[n]:
                        del e[n]
                elif isinstance(n, tuple) and (n[0] == '%' and n[1] == var or n[0] == '[' and var in e[n]):
                    del e[n]
            if q is not None and not set(names) & stored and self.resolve(x, env) == q and q[2]:
                # every element has been through the body
                self.change(e, q[0], q[1], lambda rest, l: not rest)
                if ended:
                    self.put(e, q[0], q[1] + ('*',), el)
            return e
        return self.loop(bind, s.body, s.orelse, env, done)

    def s_While(self, s, env):
        return self.loop(lambda e: self.ev(s.test, e), s.body, s.orelse, env)

    def s_Break(self, s, env):
        self.brk.append(env)
        return None

    def s_Continue(self, s, env):
        self.cont.append(env)
        return None

    def s_With(self, s, env):
        env = dict(env)
        for i in s.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env, i.context_expr)
        return self.block(s.body, env)

    def s_Try(self, s, env):
        a = self.block(s.body, dict(env))
        mid = self.join(dict(env), a)
        if a is not None and s.orelse:
            a = self.block(s.orelse, a)
        out = a
        for h in s.handlers:
            e = dict(mid)
            if h.name:
                e[h.name] = NIL
            out = self.join(out, self.block(h.body, e))
        if s.finalbody:
            out2 = self.block(s.finalbody, dict(out if out is not None else mid))
            out = out2 if out is not None else None
        return out

    def s_Delete(self, s, env):
        env = dict(env)
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.rebind(env, t.id)
                env[t.id] = NIL
                continue
            r = self.resolve(t, env)
            if r is not None and r[2]:
                self.change(env, r[0], r[1], lambda p, l: False)
        return env

    def s_FunctionDef(self, s, env):
        return env

    def refine(self, t, pos, env):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.refine(t.operand, not pos, env)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == pos:
            for v in t.values:
                env = self.refine(v, pos, env)
            return env
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == 'startswith' and isinstance(t.func.value, ast.Name) \
                and len(t.args) == 1 and isinstance(t.args[0], ast.Constant) and isinstance(t.args[0].value, str):
            w = t.args[0].value
            env = dict(env)
            r = self.resolve(t.func.value, env)
            if r[2]:
                self.change(env, r[0], r[1], lambda p, l: p or len(l) < 3 or not (not (l[2].startswith(w) or w.startswith(l[2])) if pos else l[2].startswith(w)))
            return env
        if isinstance(t, ast.Name):
            c = self.kept(t.id)
            if c is not None:
                return self.refine(c, pos, env)
        if isinstance(t, (ast.Name, ast.Subscript, ast.Call)) and not pos:
            # nothing is there, or nothing in it
            r = self.resolve(t, env)
            if r is not None and r[2]:
                env = dict(env)
                self.change(env, r[0], r[1], lambda p, l: False)
            return env
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            inn = isinstance(t.ops[0], ast.In) and not pos or isinstance(t.ops[0], ast.NotIn) and pos
            if inn and self.const(t.left, env) is not None:
                r = self.resolve(t.comparators[0], env)
                if r is not None and r[2]:
                    env = dict(env)
                    self.change(env, r[0], r[1] + (self.const(t.left, env),), lambda p, l: False)
            isn = isinstance(t.ops[0], (ast.Is, ast.Eq)) and pos or isinstance(t.ops[0], (ast.IsNot, ast.NotEq)) and not pos
            if isn and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                env = dict(env)
                r = self.resolve(t.left, env)
                if r is not None and r[2]:
                    self.change(env, r[0], r[1], lambda p, l: False)
        return env

    def kept(self, name):
        """the condition a local variable stands for: one that is set once, and is about what does not change"""
        f = self.cur[0].node
        if f not in self._kept:
            sets, once = {}, {a.arg: 0 for a in f.args.args}
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    once[n.id] = once.get(n.id, 0) + 1
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    sets[n.targets[0].id] = n.value

            def fixed(v):
                if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
                    return fixed(v.operand)
                if isinstance(v, ast.BoolOp):
                    return all(map(fixed, v.values))
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'startswith' or \
                        isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(v.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                    return all(isinstance(x, (ast.Name, ast.Constant, ast.Load, ast.Attribute, ast.Call, ast.Compare, ast.cmpop)) and (not isinstance(x, ast.Call) or x is v)
                               and (not isinstance(x, ast.Attribute) or isinstance(v, ast.Call) and x is v.func) and (not isinstance(x, ast.Name) or once.get(x.id, 2) <= (0 if x.id in pars else 1)) for x in ast.walk(v))
                return False
            pars = {a.arg for a in f.args.args}
            self._kept[f] = {k: v for k, v in sets.items() if once[k] == 1 and k not in pars and fixed(v)}
        return self._kept[f].get(name)

    def assign(self, t, v, env, value):
        if isinstance(t, ast.Name):
            r = self.resolve(value, env) if isinstance(value, (ast.Name, ast.Subscript, ast.Call)) else None
            k = self.constant(value, env)
            self.rebind(env, t.id)
            env[t.id] = v
            if k is not None:
                env[('k', t.id)] = frozenset({k})
            if r is not None and r[0] != t.id:
                env[('@', t.id)] = frozenset({r})
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for x, y in zip(t.elts, value.elts):
                    self.assign(x, self.ev(y, env), env, y)
            else:
                for i, x in enumerate(t.elts):
                    self.assign(x, read(v, str(i)), env, None)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value, env)
            c = self.cls_of(t.value)
            self.attr_put(c, t.attr, v)
            r = self.resolve(value, env) if c is not None and isinstance(value, (ast.Name, ast.Subscript)) else None
            if r is not None:
                # what is put into the object later is there too
                env[('=', r[0])] = env.get(('=', r[0]), NIL) | {(c.name, t.attr, r[1])}
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice, env)
            k = self.const(t.slice, env) or '*'
            r = self.resolve(t, env)
            if r is not None and r[2]:
                self.change(env, r[0], r[1], lambda p, l: False)
            self.into(t.value, under(k, v), env) if r is None else self.put(env, r[0], r[1], v)

    def into(self, e, t, env):
        """the taint is put into the object the expression is"""
        if not t:
            return
        r = self.resolve(e, env)
        if r is not None:
            self.put(env, r[0], r[1], t)
        elif isinstance(e, ast.Subscript):
            k = self.const(e.slice, env) or '*'
            self.into(e.value, under(k, t), env)
        elif isinstance(e, ast.Attribute):
            self.attr_put(self.cls_of(e.value), e.attr, t)
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in GETS + ('setdefault',) and e.args:
            k = self.const(e.args[0], env) or '*'
            self.into(e.func.value, under(k, t), env)

    def cls_of(self, e):
        f, c = self.cur
        if isinstance(e, ast.Name) and f.cls is not None and f.params and e.id == f.params[0] and not f.static:
            return c

    # ---- expressions
    def ev(self, e, env):
        if e is None:
            return NIL
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        out = NIL
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                out |= self.ev(x, env)
        return flat(out)

    def e_Constant(self, e, env):
        return NIL

    def e_Name(self, e, env):
        return self.value(env, e.id)

    def e_Compare(self, e, env):
        for x in [e.left] + e.comparators:
            self.ev(x, env)
        return NIL

    def e_BoolOp(self, e, env):
        out = NIL
        for x in e.values:
            out |= self.ev(x, env)
            env = self.refine(x, isinstance(e.op, ast.And), env)
        return out

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        return self.ev(e.body, self.refine(e.test, True, env)) | self.ev(e.orelse, self.refine(e.test, False, env))

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        return NIL if isinstance(e.op, ast.Not) else v

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(e.op, ast.Mod) and not isinstance(e.left, ast.Constant) and not (isinstance(e.left, ast.Name) and b):
            return NIL          # the remainder of a blinded sum
        if isinstance(e.op, ast.Add):
            if isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
                return prefixed(b, e.left.value)
            return a | plain(b)
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return prefixed(flat(b), e.left.value.split('%')[0])
        return flat(a | b)

    def e_Dict(self, e, env):
        out = NIL
        for k, v in zip(e.keys, e.values):
            self.ev(k, env)
            out |= under(str(k.value) if isinstance(k, ast.Constant) else '*', self.ev(v, env))
        return out

    def e_List(self, e, env):
        out = NIL
        for i, v in enumerate(e.elts):
            out |= under(str(i), self.ev(v, env))
        return out

    e_Tuple = e_Set = e_List

    def e_Subscript(self, e, env):
        v = self.ev(e.value, env)
        self.ev(e.slice, env)
        if isinstance(e.slice, ast.Slice):
            return plain(v)
        return read(v, self.const(e.slice, env) or '*')

    def e_Attribute(self, e, env):
        v = self.ev(e.value, env)
        return flat(t for t in v if not t[0]) | self.attr_get(self.cls_of(e.value), e.attr)

    def e_Lambda(self, e, env):
        return self.ev(e.body, dict(env))

    def elems(self, it, env):
        v = self.ev(it, env)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and it.args:
            return under('1', self.elems(it.args[0], env))
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'iteritems', 'viewitems') and not it.args:
            return under('1', read(self.ev(it.func.value, env), '*')) | under('0', whole(self.ev(it.func.value, env)))
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in KEYS + ELEMS and not it.args:
            return read(v, '*') if it.func.attr in ELEMS else whole(self.ev(it.func.value, env))
        return read(v, '*')

    def comp(self, e, elts, env):
        env = dict(env)
        for g in e.generators:
            self.assign(g.target, self.elems(g.iter, env), env, None)
            for c in g.ifs:
                self.ev(c, env)
                env = dict(self.refine(c, True, env))
        out = NIL
        for x in elts:
            out |= under('*', self.ev(x, env))
        return out

    def e_ListComp(self, e, env):
        return self.comp(e, [e.elt], env)

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        return self.comp(e, [e.value], env)

    def e_Yield(self, e, env):
        return self.ev(e.value, env)

    def name_of(self, fe):
        if isinstance(fe, ast.Name):
            return fe.id
        if isinstance(fe, ast.Attribute):
            b = self.name_of(fe.value)
            return (b + '.' if b else '') + fe.attr
        return ''

    def targets(self, e):
        """[(function, class of self)] that a call may reach, and whether the receiver is its first argument"""
        f, c = self.cur
        fe = e.func
        if isinstance(fe, ast.Name):
            d = self.p.lookup_global(f.mod, fe.id)
            g = getattr(self.p, 'funcs', {}).get(d if isinstance(d, str) else '')
            if g is None:
                cand = [x for x in self.p.funcs.values() if x.name == fe.id and x.cls is None and x.parent is None]
                own = [x for x in cand if x.mod is f.mod]
                g = (own or (cand if len(cand) == 1 else [None]))[0] if fe.id not in f.params else None
            if g is not None and isinstance(g, object) and hasattr(g, 'params'):
                return [(g, None)], False
            k = [x for x in self.p.classes.values() if x.name == fe.id]
            if k:
                m = self.p.method(k[0], '__init__')
                return ([(m, k[0])] if m is not None else []), True
            return [], False
        if isinstance(fe, ast.Attribute):
            v = fe.value
            if self.cls_of(v) is not None:
                m = self.p.method(c, fe.attr)
                return ([(m, c)] if m is not None else []), True
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                m = self.p.method_after(c, f.cls, fe.attr) if c is not None and f.cls is not None else None
                return ([(m, c)] if m is not None else []), True
            if isinstance(v, ast.Name):
                k = [x for x in self.p.classes.values() if x.name == v.id]
                if k:
                    m = self.p.method(k[0], fe.attr)
                    if m is not None:
                        return [(m, c if c is not None and k[0] in self.p.mro(c) else k[0])], not m.static
            if fe.attr in GENERIC:
                return [], True
            out = []
            for m in self.methods.get(fe.attr, []):
                for s in self.selves(m):
                    out.append((m, s))
            return out, True
        return [], False

    def e_Call(self, e, env):
        f, c = self.cur
        name = self.name_of(e.func)
        recv = self.ev(e.func.value, env) if isinstance(e.func, ast.Attribute) else NIL
        if not isinstance(e.func, (ast.Attribute, ast.Name)):
            self.ev(e.func, env)
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        self.sink(e, f, c, name, args + list(kws.values()), recv)
        src = self.source(e, f, c, name, args, recv)
        if src is not None:
            return src
        last = name.split('.')[-1]
        clean = self.clean(e, f, c, name) or last in CLEAN
        tg, has_self = self.targets(e)
        if clean and not tg:
            return NIL
        if tg:
            out = NIL
            for g, sc in tg:
                ps = list(g.params)
                vals = {}
                pos = list(args)
                if g.cls is not None and not g.static and ps:
                    explicit = isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and any(x.name == e.func.value.id for x in self.p.classes.values())
                    if not explicit:
                        pos = [NIL] + pos
                va = g.node.args
                for n, v in zip(ps, pos):
                    vals[n] = v
                for n, v in kws.items():
                    if n in ps:
                        vals[n] = v
                a = tuple(vals.get(n, NIL) for n in ps)
                ks = ()
                if any(a) and self.keyed(g):
                    es = dict(zip(ps[len(pos) - len(args):], e.args))
                    es.update({k.arg: k.value for k in e.keywords})
                    ks = tuple((n, self.constant(es[n], env)) for n in ps if n in es and n in self.keyed(g) and self.constant(es[n], env) is not None)
                r, outs = self.call(g, sc, a, ks)
                out |= r
                # what the callee put into the arguments
                for n, before, after in zip(ps, a, outs):
                    if before == after:
                        continue
                    for x in [x for x, q in zip(e.args, ps[1 if len(pos) > len(args) else 0:]) if q == n] + [k.value for k in e.keywords if k.arg == n]:
                        q = self.resolve(x, env)
                        if q is not None and q[2] and len(tg) == 1:
                            self.change(env, q[0], q[1], lambda p, l: False)
                            self.put(env, q[0], q[1], after)
                        else:
                            self.into(x, after - before, env)
            return NIL if clean else out
        return self.external(e, name, last, recv, args, kws, env)

    def external(self, e, name, last, recv, args, kws, env):
        alls = NIL
        for a in args + list(kws.values()):
            alls |= a
        if isinstance(e.func, ast.Attribute):
            if last in KEYS:
                return under('*', whole(recv))
            if last in GETS + ('setdefault',) and e.args:
                k = self.const(e.args[0], env) or '*'
                r = read(recv, k) | (args[1] if len(args) > 1 else NIL)
                if last == 'pop':
                    q = self.resolve(e.func.value, env)
                    if q is not None and k != '*' and q[2]:
                        self.change(env, q[0], q[1] + (k,), lambda p, l: False)
                if last == 'setdefault' and len(args) > 1:
                    self.into(e.func.value, under(k, args[1]), env)
                return r
            if last in ELEMS:
                return under('*', read(recv, '*'))
            if last in ('items', 'iteritems'):
                return under('*', under('1', read(recv, '*')) | under('0', whole(recv)))
            if last == 'copy':
                return recv
            if last in ('split', 'partition') and (not e.args or isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str)):
                sep = e.args[0].value if e.args else ' '
                # what precedes the separator is all literal
                return under('1+', plain(frozenset(t for t in recv if not t[0] and len(t[1]) > 2 and sep in t[1][2]))) | \
                    flat(frozenset(t for t in recv if t[0] or len(t[1]) < 3 or sep not in t[1][2]))
            if last in MUTATE or last in ('remove', 'pop', 'clear', 'sort'):
                if isinstance(e.func.value, ast.Name):
                    env.pop(('k', e.func.value.id), None)
            if last in MUTATE:
                t = alls if last in ('update', 'extend') else under('*', alls)
                self.into(e.func.value, t, env)
                return NIL
        if last == 'format' and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str):
            return prefixed(flat(alls), e.func.value.value.split('{')[0])
        if name in ('deepcopy', 'copy.deepcopy', 'copy.copy', 'dict', 'list', 'sorted', 'reversed', 'set', 'tuple', 'iter') and args:
            return alls
        if last in ('dumps', 'loads') or name in ('str', 'repr', 'unicode'):
            return flat(alls)
        return flat(recv | alls)


GENERIC = {'get', 'update', 'keys', 'values', 'items', 'append', 'add', 'read', 'write', 'format', 'strip', 'split', 'join', 'pop', 'encode', 'decode', 'replace', 'copy',
           'close', 'lower', 'upper', 'startswith', 'endswith', 'insert', 'extend', 'remove', 'sort', 'index', 'count', 'find', 'partition', 'setdefault', 'addErrback',
           'addCallback', 'debug', 'info', 'warning', 'error', 'critical', 'exception', 'seek', 'tell', 'flush', 'readline', 'start', 'stop', 'sample', 'encrypt', 'decrypt',
           'clear', 'connect', 'listen', 'public_key'}
