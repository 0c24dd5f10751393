"""A function that the code did not have when the checks were written, and that is only ever called, from its own class
or module, is put where it is called: what was extracted is judged where it was. (Behaviour is kept: a function that
does not fit stays, and the analyses follow its calls as they do others.)"""
import ast, copy, os
from .load import Temps

LOOPS = (ast.For, ast.While)


def names(n):
    return [x for x in ast.walk(n) if isinstance(x, ast.Name)]


class Helper:
    def __init__(self, node, cls, static):
        self.node, self.cls, self.static = node, cls, static
        self.name = node.name
        self.params = [a.arg for a in node.args.args]
        self.self = self.params[0] if cls is not None and not static else None
        self.args = self.params[1:] if self.self else self.params
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        if body and isinstance(body[-1], ast.Return) and body[-1].value is None:
            body = body[:-1]
        self.body = body
        rets = [x for b in body for x in ast.walk(b) if isinstance(x, ast.Return)]
        if not body:
            self.kind = None
        elif not rets:
            self.kind = 'S'
        elif len(rets) == 1 and body[-1] is rets[0]:
            self.kind = 'E' if len(body) == 1 else 'R'
        else:
            self.kind = 'T'
        self.stored = {x.id for b in body for x in names(b) if not isinstance(x.ctx, ast.Load)} | {
            h.name for b in body for h in ast.walk(b) if isinstance(h, ast.ExceptHandler) and isinstance(h.name, str)}


def fits(f):
    a = f.args
    if a.vararg or a.kwarg or a.kwonlyargs or getattr(a, 'posonlyargs', None) or len(list(ast.walk(f))) > 1500:
        return False
    for n in ast.walk(f):
        if n is not f and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Yield, ast.YieldFrom)):
            return False
        if isinstance(n, ast.Name) and n.id in ('locals', 'super', 'vars'):
            return False
        if isinstance(n, ast.Name) and n.id == f.name or isinstance(n, ast.Attribute) and n.attr == f.name:
            return False
    return True


class Subst(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        r = self.m.get(n.id)
        if r is None:
            return n
        if isinstance(r, str):
            return ast.copy_location(ast.Name(id=r, ctx=n.ctx), n)
        return copy.deepcopy(r)

    def visit_ExceptHandler(self, n):
        if isinstance(n.name, str) and isinstance(self.m.get(n.name), str):
            n.name = self.m[n.name]
        return self.generic_visit(n)


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant))


def conditional(e, name):
    """may the name in the expression be evaluated not at all, or often?"""
    for n in ast.walk(e):
        part = n.values[1:] if isinstance(n, ast.BoolOp) else [n.body, n.orelse] if isinstance(n, ast.IfExp) else \
            [n] if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) else []
        if any(x.id == name for y in part for x in names(y)):
            return True
    return False


class Inliner:
    def __init__(self, tree, known, mod, foreign):
        self.tree, self.n = tree, 0
        self.known, self.mod, self.foreign = known, mod, foreign
        for _ in range(8):
            hs = self.candidates()
            if not any([self.scope(h) for h in hs]):
                break

    # ---- what may be put elsewhere
    def candidates(self):
        out = []
        for c in [None] + [x for x in self.tree.body if isinstance(x, ast.ClassDef)]:
            for f in (self.tree if c is None else c).body:
                if not isinstance(f, ast.FunctionDef) or f.name.startswith('__') or self.mod + '.' + (c.name + '.' if c else '') + f.name in self.known:
                    continue
                dec = [d.id if isinstance(d, ast.Name) else '?' for d in f.decorator_list]
                if dec not in ([], ['staticmethod']) or dec and c is None or not fits(f) or c is not None and not dec and not f.args.args:
                    continue
                h = Helper(f, c, bool(dec))
                if h.kind and not (self.foreign(f.name, self.mod)):
                    out.append(h)
        return out

    def ref(self, h, n):
        """is the node a call of the helper, in its own class or module?"""
        if not isinstance(n, ast.Call):
            return False
        if h.cls is None:
            return isinstance(n.func, ast.Name) and n.func.id == h.name
        return isinstance(n.func, ast.Attribute) and n.func.attr == h.name and isinstance(n.func.value, ast.Name)

    def scope(self, h):
        calls, bad = [], 0
        where = self.tree if h.cls is None else h.cls
        for f in [x for x in ast.walk(self.tree) if isinstance(x, ast.FunctionDef) and x.name == h.name]:
            if f is not h.node:
                return False
        inside = {id(x) for x in ast.walk(where)}
        ok = set()
        for n in ast.walk(self.tree):
            if self.ref(h, n) and id(n) in inside:
                ok.add(id(n.func))
                calls.append(n)
        for n in ast.walk(self.tree):
            if (isinstance(n, ast.Attribute) and n.attr == h.name or isinstance(n, ast.Name) and n.id == h.name) and id(n) not in ok:
                return False
            if isinstance(n, ast.Constant) and n.value == h.name:
                return False
        if not calls or len(calls) > 12 or any(n.keywords and any(k.arg is None for k in n.keywords) or any(isinstance(x, ast.Starred) for x in n.args) for n in calls):
            return False
        hosts = [f for f in ast.walk(where) if isinstance(f, ast.FunctionDef) and f is not h.node and any(self.ref(h, n) for n in ast.walk(f))]
        if len({id(n) for f in hosts for n in ast.walk(f) if self.ref(h, n)}) != len(calls):
            return False
        done = 0
        hosts = [f for f in hosts if not any(g is not f and any(x is f for x in ast.walk(g)) for g in hosts)]
        for f in hosts:
            if h.self and not (f.args.args and (h.cls is None or any(f is x for x in h.cls.body))):
                continue
            done += self.into(f, h)
        left = [n for n in ast.walk(self.tree) if self.ref(h, n) and n in calls]
        if done and not any(self.ref(h, n) for n in ast.walk(where)):
            where.body.remove(h.node)
            if not where.body:
                where.body.append(ast.copy_location(ast.Pass(), h.node))
        return bool(done)

    # ---- one call
    def bind(self, f, h, call, expr):
        """(substitution, assignments before) or None"""
        recv = call.func.value.id if isinstance(call.func, ast.Attribute) else None
        if h.self is not None:
            if not f.args.args or recv != f.args.args[0].arg or any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list):
                return None
        elif h.cls is not None and recv not in (h.cls.name, 'self', 'cls'):
            return None
        given = {}
        if len(call.args) > len(h.args):
            return None
        for k, v in zip(h.args, call.args):
            given[k] = v
        for k in call.keywords:
            if k.arg in given or k.arg not in h.args:
                return None
            given[k.arg] = k.value
        dflt = h.node.args.defaults
        for a, d in zip(h.params[len(h.params) - len(dflt):], dflt):
            if a not in given:
                if not isinstance(d, ast.Constant) and not (isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant)):
                    return None
                given[a] = d
        if set(given) != set(h.args):
            return None
        m, pre = {}, []
        used = {x.id for x in names(f)} | {a.arg for a in f.args.args}
        comp = {x.id for b in h.body for c in ast.walk(b) if isinstance(c, ast.comprehension) for x in names(c.target)}
        if ({x.id for b in h.body for x in names(b)} - h.stored - set(h.params)) & self.locals(f):
            return None
        if h.self:
            m[h.self] = recv
        simples = True
        for k in h.args:
            v = given[k]
            if simple(v) and k not in h.stored and not (isinstance(v, ast.Name) and v.id in comp):
                m[k] = v
                continue
            if expr:
                if any(x.id in comp for x in names(v)) or k in h.stored:
                    return None
                n = sum(x.id == k for x in names(h.body[0]))
                pure = not any(isinstance(x, (ast.Call, ast.Yield)) for x in ast.walk(v))
                if not (pure and n <= 3 or n == 1 and not conditional(h.body[0], k) and simples):
                    return None
                simples = simples and pure
                m[k] = v
                continue
            nm = self.fresh(k, used)
            m[k] = nm
            pre.append((nm, v))
        if not expr:
            for s in h.stored:
                if s not in m:
                    m[s] = self.fresh(s, used)
        elif h.stored - comp:
            return None
        return m, pre

    @staticmethod
    def locals(f):
        return {a.arg for a in f.args.args} | {x.id for x in names(f) if not isinstance(x.ctx, ast.Load)}

    def fresh(self, s, used):
        nm = s
        while nm in used:
            self.n += 1
            nm = '%s_%d' % (s, self.n)
        used.add(nm)
        return nm

    def into(self, f, h):
        self.f, self.h, self.count = f, h, 0
        f.body = self.block(f.body, True)
        if h.kind == 'E':
            outer = self

            class E(ast.NodeTransformer):
                def visit_Call(self, n):
                    self.generic_visit(n)
                    if outer.ref(h, n):
                        b = outer.bind(f, h, n, True)
                        if b is not None:
                            outer.count += 1
                            return Subst(b[0]).visit(copy.deepcopy(h.body[0].value))
                    return n
            E().visit(f)
        if self.count:
            Temps(f)
        return self.count

    def block(self, body, tail):
        out = []
        for i, s in enumerate(body):
            last = tail and i == len(body) - 1
            for b in ('body', 'orelse', 'finalbody'):
                v = getattr(s, b, None)
                if isinstance(v, list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, b, self.block(v, last and isinstance(s, ast.If)))
            for hd in getattr(s, 'handlers', []):
                hd.body = self.block(hd.body, False)
            out += self.stmt(s, last)
        return out

    def stmt(self, s, last):
        h = self.h
        if h.kind == 'E':
            return [s]
        slot = None
        if isinstance(s, ast.Expr) and self.ref(h, s.value):
            slot, call = 'expr', s.value
        elif isinstance(s, ast.Return) and s.value is not None and self.ref(h, s.value):
            slot, call = 'return', s.value
        elif isinstance(s, (ast.Assign, ast.AugAssign)) and self.ref(h, s.value):
            slot, call = 'value', s.value
        elif isinstance(s, ast.For) and self.ref(h, s.iter):
            slot, call = 'iter', s.iter
        elif isinstance(s, ast.If):
            if self.ref(h, s.test):
                slot, call = 'test', s.test
            elif isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) and self.ref(h, s.test.operand):
                slot, call = 'not', s.test.operand
        if slot is None:
            return [s]
        if h.kind == 'T' and not (slot == 'return' or slot == 'expr' and last and not any(
                isinstance(x, ast.Return) and x.value is not None for b in h.body for x in ast.walk(b))):
            return [s]
        if h.kind == 'S' and slot != 'expr':
            return [s]
        if isinstance(s, ast.AugAssign):
            return [s]
        b = self.bind(self.f, h, call, False)
        if b is None:
            return [s]
        self.count += 1
        m, pre = b
        out = [ast.copy_location(ast.Assign(targets=[ast.copy_location(ast.Name(id=k, ctx=ast.Store()), call)], value=v), call) for k, v in pre]
        body = [Subst(m).visit(copy.deepcopy(x)) for x in h.body]
        if h.kind == 'S':
            return out + body
        if h.kind == 'T':
            if slot == 'return' and not isinstance(body[-1], (ast.Return, ast.Raise)):
                body.append(ast.copy_location(ast.Return(value=ast.copy_location(ast.Constant(value=None), s)), s))
            return out + body
        val = body.pop().value
        if slot == 'not':
            s.test.operand = val
        elif slot == 'expr':
            s.value = val
        else:
            setattr(s, {'return': 'value'}.get(slot, slot), val)
        return out + body + [s]


def inline(trees):
    """trees: {module name: tree}"""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_functions.txt')) as f:
        ks = f.read().split('\n')
    known = set(ks) | {'privcount.' + x for x in ks}
    uses = {}
    for m, t in trees.items():
        for n in ast.walk(t):
            x = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else n.name if isinstance(n, (ast.FunctionDef, ast.alias)) else \
                n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None
            if x is not None:
                uses.setdefault(x, set()).add(m)

    def foreign(name, m):
        return uses.get(name, set()) - {m}
    for m, t in trees.items():
        if '.tools' not in m:
            Inliner(t, known, m, foreign)
