"""Symbol tables of the package: modules, functions, classes (MRO), import
resolution, module constants, attribute-name mod-sets and a call graph."""
import ast, os
from . import load, inline
from .load import AnalysisBroken

BUILTINS = set('''abs all any apply basestring bin bool buffer bytearray bytes coerce intern memoryview callable chr classmethod cmp complex delattr dict
dir divmod enumerate eval exec execfile exit file filter float format frozenset getattr globals hasattr hash hex id
input int isinstance issubclass iter len list locals long map max min next object open ord pow print property
quit range raw_input reduce reload repr reversed round set setattr slice sorted staticmethod str sum super tuple
type unichr unicode vars xrange zip __import__ NotImplemented Ellipsis __file__ __name__
Exception BaseException ValueError KeyError IndexError TypeError AttributeError RuntimeError IOError OSError
AssertionError ImportError ZeroDivisionError OverflowError ArithmeticError StopIteration SystemExit
KeyboardInterrupt NotImplementedError NameError UnicodeDecodeError UnicodeError LookupError
EnvironmentError FloatingPointError'''.split())


class Func:
    __slots__ = ('qual', 'name', 'node', 'mod', 'cls', 'static', 'classm', 'parent', 'params', '_calls')

    def __init__(self, qual, node, mod, cls=None, parent=None):
        self.qual, self.name, self.node, self.mod, self.cls, self.parent = qual, getattr(node, 'name', '<lambda>'), node, mod, cls, parent
        decs = {d.id for d in getattr(node, 'decorator_list', []) if isinstance(d, ast.Name)}
        self.static, self.classm = 'staticmethod' in decs, 'classmethod' in decs
        self.params = [a.arg for a in node.args.args]
        self._calls = None

    def loc(self, node=None):
        return '%s:%d' % (os.path.relpath(self.mod.path, load.REPO), getattr(node or self.node, 'lineno', 0))

    def __repr__(self):
        return '<F %s>' % self.qual


class Class:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.methods, self.consts, self.bases = {}, {}, []

    def __repr__(self):
        return '<C %s>' % self.name


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.imports, self.funcs, self.classes, self.consts = {}, {}, {}, {}
        self.multi = set()


class Project:
    def __init__(self, trees=None):
        trees = trees or load.load()
        self.modules, self.funcs, self.classes = {}, {}, {}
        mods = {}
        for path, tree in trees.items():
            rel = os.path.relpath(path, load.REPO)
            name = rel[:-3] if rel.endswith('.py') else rel
            name = name.replace(os.sep, '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            mods[name] = path, tree
        inline.inline({n: t for n, (p, t) in mods.items()})
        for name, (path, tree) in mods.items():
            self._module(Module(name, path, tree))
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_dotted(b, c.mod)
                c.bases.append(r)
        self._modsets = None
        self._byname = None

    # ---- construction
    def _module(self, m):
        self.modules[m.name] = m
        for st in ast.walk(m.tree):
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    m.imports[a.asname or a.name] = (st.module or '') + '.' + a.name
        self._scope(m, m.tree.body, None)

    def _scope(self, m, body, cls):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                q = m.name + '.' + (cls.name + '.' if cls else '') + st.name
                f = Func(q, st, m, cls)
                self.funcs[q] = f
                (cls.methods if cls else m.funcs)[st.name] = f
            elif isinstance(st, ast.ClassDef) and cls is None:
                c = Class(st.name, st, m)
                m.classes[st.name] = c
                self.classes[st.name] = c
                self._scope(m, st.body, c)
                for a in list(c.consts):
                    v, seen = c.consts[a], set()
                    while isinstance(v, ast.Name) and v.id in c.consts and v.id not in seen:
                        seen.add(v.id)
                        v = c.consts[v.id]
                    if isinstance(v, ast.Name) and v.id in c.methods:
                        # an alias of a method
                        c.methods[a] = c.methods[v.id]
                        del c.consts[a]
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        d = (cls or m).consts
                        if t.id in d and cls is None:
                            m.multi.add(t.id)
                        d[t.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)) and cls is None:
                for b in (st.body, st.orelse, getattr(st, 'finalbody', [])):
                    self._scope(m, b, None)
                for h in getattr(st, 'handlers', []):
                    self._scope(m, h.body, None)

    # ---- resolution
    def lookup_global(self, m, name):
        """-> ('func',F) ('class',C) ('const',mod,name,expr) ('ext',dotted) ('builtin',name) ('mod',M) or None"""
        if name in m.funcs:
            return ('func', m.funcs[name])
        if name in m.classes:
            return ('class', m.classes[name])
        if name in m.consts:
            return ('const', m, name, m.consts[name])
        if name in m.imports:
            return self.resolve_import(m.imports[name])
        if name in BUILTINS:
            return ('builtin', name)
        return None

    def resolve_import(self, dotted):
        if dotted in self.modules:
            return ('mod', self.modules[dotted])
        if '.' in dotted:
            mod, nm = dotted.rsplit('.', 1)
            if mod in self.modules:
                r = self.lookup_global(self.modules[mod], nm)
                if r:
                    return r
        return ('ext', dotted)

    def resolve_dotted(self, e, m):
        if isinstance(e, ast.Name):
            return self.lookup_global(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_dotted(e.value, m)
            if b is None:
                return None
            if b[0] == 'mod':
                return self.lookup_global(b[1], e.attr) or ('ext', b[1].name + '.' + e.attr)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
            if b[0] == 'class':
                f = self.method(b[1], e.attr)
                if f:
                    return ('func', f)
        return None

    def mro(self, c):
        out = [c]
        for b in c.bases:
            if b and b[0] == 'class':
                for x in self.mro(b[1]):
                    if x not in out:
                        out.append(x)
        return out

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def method_after(self, c, owner, name):
        """super(owner, self).name with self of class c"""
        mro = self.mro(c)
        if owner in mro:
            mro = mro[mro.index(owner) + 1:]
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def subclasses(self, c):
        return [k for k in self.classes.values() if c in self.mro(k)]

    def fn(self, qual):
        """'module.func' or 'Class.method' (short names, without the package)"""
        if qual in self.funcs:
            return self.funcs[qual]
        a, _, b = qual.rpartition('.')
        if a in self.classes:
            f = self.method(self.classes[a], b)
            if f:
                return f
        f = self.funcs.get('privcount.' + qual)
        if f:
            return f
        raise AnalysisBroken('anchor vanished: function %s' % qual)

    def cls(self, name):
        if name not in self.classes:
            raise AnalysisBroken('anchor vanished: class %s' % name)
        return self.classes[name]

    def by_name(self, name):
        if self._byname is None:
            self._byname = {}
            for f in self.funcs.values():
                self._byname.setdefault(f.name, []).append(f)
        return self._byname.get(name, [])

    # ---- approximate call graph (over-approximation by name for methods)
    def calls(self, f):
        """[(callnode, kind, target)] kind func/ext/builtin/meth/unknown"""
        if f._calls is not None:
            return f._calls
        out = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                out.append((n,) + self.callee(n.func, f))
        f._calls = out
        return out

    def callee(self, fe, f):
        if isinstance(fe, ast.Name):
            if fe.id in f.params:
                return ('unknown', fe.id)
            r = self.lookup_global(f.mod, fe.id)
            if r is None or r[0] == 'const':
                return ('unknown', fe.id)
            if r[0] == 'class':
                return ('class', r[1])
            return (r[0], r[1])
        if isinstance(fe, ast.Attribute):
            r = self.resolve_dotted(fe, f.mod)
            if r and r[0] in ('func', 'ext'):
                return (r[0], r[1])
            if r and r[0] == 'class':
                return ('class', r[1])
            if isinstance(fe.value, ast.Name) and fe.value.id == 'self' and f.cls:
                t = self.method(f.cls, fe.attr)
                if t:
                    return ('func', t)
                subs = [k.methods[fe.attr] for k in self.subclasses(f.cls) if fe.attr in k.methods]
                if subs:
                    return ('func', subs[0])
            return ('meth', fe.attr)
        return ('unknown', '?')

    def callees(self, f):
        """set of Func possibly called (names over-approximated) + functions referenced as values"""
        out = set()
        for n, k, t in self.calls(f):
            if k == 'func':
                out.add(t)
                if t.cls:
                    out.update(x for x in self.by_name(t.name) if x.cls)
            elif k == 'class':
                i = self.method(t, '__init__')
                if i:
                    out.add(i)
            elif k == 'meth':
                out.update(x for x in self.by_name(t) if x.cls)
        return out

    def reach(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            todo.extend(self.callees(f))
        return seen

    def reaching(self, pred):
        """set of Func from which a function satisfying pred(f) is reachable"""
        callers = {}
        for f in self.funcs.values():
            for g in self.callees(f):
                callers.setdefault(g, set()).add(f)
        todo = [f for f in self.funcs.values() if pred(f)]
        seen = set()
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            todo.extend(callers.get(f, ()))
        return seen

    def modset(self, f):
        """attribute names written (transitively) by f"""
        if self._modsets is None:
            self._modsets = {}
        if f in self._modsets:
            return self._modsets[f]
        s = set()
        for g in self.reach([f]):
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.attr)
        self._modsets[f] = s
        return s
