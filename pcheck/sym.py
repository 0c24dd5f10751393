"""Path-sensitive abstract interpreter over the syntax tree.

It walks every path of an entry function (loops: an arbitrary iteration from a
widened state), inlining resolved project functions the policy selects, and
keeps per path: local/heap bindings to uninterpreted terms, branch facts over
canonical atoms, and the client's event trace.  No solver: facts are looked up
and simple contradictions prune a path.  Nothing of the program is executed."""
import ast, os
from . import load
from .load import AnalysisBroken
from .terms import *
from .project import Func

IMPURE = {'os.urandom', 'time.time', 'twisted.internet.reactor.callLater', 'uuid.uuid4',
          'random.SystemRandom', 'datetime.datetime.utcnow', 'datetime.datetime.now'}
IMPURE_METH = {'getrandbits', 'gauss', 'randint', 'random', 'randrange', 'uniform', 'read', 'readline', 'generate_key',
               'normalvariate', 'choice', 'shuffle', 'sample', 'readlines', 'lognormvariate', 'expovariate'}
MUTATORS = {'add', 'append', 'insert', 'clear', 'remove', 'discard', 'pop', 'popitem', 'update', 'extend',
            'difference_update', 'intersection_update'}
COPYERS = {'copy.deepcopy', 'copy.copy'}
ITER_ID = {'list', 'tuple', 'set', 'sorted', 'iter', 'reversed', 'frozenset'}


class Event:
    __slots__ = ('name', 'func', 'recv', 'args', 'kwargs', 'st', 'node', 'fn', 'stack', 'bound', 'loops', 'kind', 'value', 'result', 'facts')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))

    def loc(self):
        return '%s in %s' % (self.fn.loc(self.node), short(self.fn.qual)) if self.fn else '?'

    def arg(self, i, name=None):
        """positional i or keyword name; None when absent"""
        if self.bound and name in self.bound:
            return self.bound[name]
        if i is not None and i < len(self.args):
            return self.args[i]
        return dict(self.kwargs).get(name)


def short(q):
    return q[len('privcount.'):] if q.startswith('privcount.') else q


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_functions.txt')) as _f:
    KNOWN = set(_f.read().split('\n'))


class State:
    __slots__ = ('env', 'heap', 'facts', 'trace', 'loops', 'n')

    def __init__(self, env=None, heap=None, facts=None, trace=(), loops=(), n=0):
        self.env, self.heap, self.facts = env or {}, heap or {}, facts or {}
        self.trace, self.loops, self.n = trace, loops, n

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), self.trace, self.loops, self.n)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.facts.items()),
                self.trace, self.loops)

    def uid(self):
        self.n += 1
        return self.n


EXC_PARENTS = {'KeyError': ['LookupError', 'StandardError'], 'IndexError': ['LookupError', 'StandardError'],
               'IOError': ['EnvironmentError', 'StandardError'], 'OSError': ['EnvironmentError', 'StandardError'],
               'ZeroDivisionError': ['ArithmeticError', 'StandardError'], 'UnicodeDecodeError': ['ValueError', 'UnicodeError', 'StandardError'],
               'NotImplementedError': ['RuntimeError', 'StandardError'], 'SystemExit': ['BaseException!'],
               'KeyboardInterrupt': ['BaseException!'], 'OverflowError': ['ArithmeticError', 'StandardError']}


class Limit(AnalysisBroken):
    pass


class Engine:
    def __init__(self, project, inline=None, opaque=(), depth=16, cap=600, track=None, on_call=None, on_write=None,
                 zero_iter=True, all_raise=False, models=None, budget=2000000, heap_types=None, inline_new=False,
                 mark_loops=False, raisers=None, assert_inline=True, on_assume=None, keep_copies=False, strict_cmp=False, on_iter=None):
        self.strict_cmp, self.on_iter = strict_cmp, on_iter
        self.comp_none = {}         # comprehension -> what holds for every element when it is empty
        self.on_comp = None         # hook(collection, states of the elements left out, function)
        self.keep_copies = keep_copies
        self.p = project
        self.inline = inline or (lambda f: False)
        if isinstance(inline, (set, frozenset)):
            self.inline = lambda f: f in inline
        self.opaque = set(opaque)
        self.maxdepth, self.cap = depth, cap
        self.track = track or (lambda atom: True)
        self.on_call, self.on_write = on_call, on_write
        self.zero_iter, self.all_raise = zero_iter, all_raise
        self.models = models or {}
        self.budget = budget
        self.inline_new = inline_new
        self.mark_loops = mark_loops
        self.on_assume = on_assume
        self.assert_inline, self.no_inline = assert_inline, 0
        self.raisers = raisers      # optional pred(name)->bool limiting opaque exceptions
        self.stack, self.pending, self.try_depth, self.muted = [], [], 0, 0
        self.lambdas = {}
        self.loopid = 0
        self.attr_types = heap_types if heap_types is not None else self._infer_attr_types()
        self.constcache = {}
        self.paths = 0
        self.inlined = set()
        self.steps = 0

    # ------------------------------------------------------------ types
    def _infer_attr_types(self):
        if hasattr(self.p, '_attr_types'):
            return self.p._attr_types
        m = {}
        for f in self.p.funcs.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                    r = self.p.resolve_dotted(n.value.func, f.mod)
                    if r and r[0] == 'class':
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                m.setdefault(t.attr, set()).add(r[1])
        self.p._attr_types = {k: list(v)[0] for k, v in m.items() if len(v) == 1}
        return self.p._attr_types

    def type_of(self, t):
        t = t[1] if t[0] == 'copy' else t
        if t[0] in ('self', 'obj') and t[1] in self.p.classes:
            return self.p.classes[t[1]]
        if t[0] == 'call' and isinstance(t[1], str) and t[1] in self.p.classes:
            return self.p.classes[t[1]]
        if t[0] in ('attr', 'hv') and t[2] in self.attr_types:
            return self.attr_types[t[2]]
        return None

    # ------------------------------------------------------------ entry
    def run(self, f, args=None, selfcls=None, state=None, kwargs=None):
        """analyse function f from unknown arguments; -> [(state, ctl)] with ctl ('ret',v)/('exc',v)"""
        if isinstance(f, str):
            f = self.p.fn(f)
        st = state or State()
        st = st.copy()
        st.env = {}
        args = args or {}
        params = list(f.params)
        for i, pn in enumerate(params):
            if i == 0 and f.cls and not f.static:
                st.env[pn] = args.get(pn, ('self', selfcls or f.cls.name))
            else:
                st.env[pn] = args.get(pn, ('sym', pn))
        if f.node.args.vararg:
            st.env[f.node.args.vararg.arg] = ('sym', '*' + f.node.args.vararg.arg)
        if f.node.args.kwarg:
            st.env[f.node.args.kwarg.arg] = ('sym', '**' + f.node.args.kwarg.arg)
        self.stack.append(f)
        try:
            out = self.block(f.node.body, st)
        finally:
            self.stack.pop()
        res = []
        for s, c in out:
            if c is None:
                c = ('ret', NONE)
            res.append((s, c))
        self.paths += len(res)
        return res

    @property
    def fn(self):
        return self.stack[-1] if self.stack else None

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        cur = [st]
        done = []
        for stmt in body:
            nxt = []
            for s in cur:
                for s2, c in self.stmt(stmt, s):
                    if c is None:
                        nxt.append(s2)
                    else:
                        done.append((s2, c))
            cur = self.dedupe(nxt)
            if len(done) > 8:
                done = self.dedupe_done(done)
            if not cur:
                break
        return done + [(s, None) for s in cur]

    def dedupe(self, states):
        if len(states) <= 1:
            return states
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > self.cap:
            out = self.merge(out)
        return out

    def dedupe_done(self, done):
        seen, out = set(), []
        for s, c in done:
            k = (s.key(), c)
            if k not in seen:
                seen.add(k)
                out.append((s, c))
        if len(out) > self.cap:
            groups = {}
            for s, c in out:
                groups.setdefault(c, []).append(s)
            out = [(s, c) for c, ss in groups.items() for s in self.merge(ss)]
        return out

    def merge(self, states):
        groups = {}
        for s in states:
            groups.setdefault((s.trace, s.loops), []).append(s)
        out = []
        for (tr, lp), ss in groups.items():
            if len(ss) == 1:
                out.append(ss[0])
                continue
            m = ss[0].copy()
            for s in ss[1:]:
                m.facts = {k: v for k, v in m.facts.items() if s.facts.get(k) == v}
                for d, e in ((m.env, s.env), (m.heap, s.heap)):
                    for k in set(d) | set(e):
                        a, b = d.get(k), e.get(k)
                        if a == b:
                            continue
                        d[k] = self.phi(a, b)
                m.n = max(m.n, s.n)
            out.append(m)
        return out

    def phi(self, a, b):
        s = set()
        for x in (a, b):
            if x is None:
                s.add(('undef',))
            elif x[0] == 'phi':
                s |= x[1]
            else:
                s.add(x)
        if len(s) > 24:
            self.loopid += 1
            return ('unk', self.loopid)
        return ('phi', frozenset(s))

    def stmt(self, node, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Limit('analysis budget exceeded in %s' % (self.fn.qual if self.fn else '?'))
        saved, self.pending = self.pending, []
        try:
            res = getattr(self, 's_' + type(node).__name__)(node, st)
            res = res + [(s, ('exc', v)) for s, v in self.pending]
        finally:
            self.pending = saved
        return res

    def s_Pass(self, n, st):
        return [(st, None)]

    s_Global = s_Pass

    def s_Import(self, n, st):
        return [(st, None)]

    s_ImportFrom = s_Import

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return [(s, None) for s, v in self.ev(n.value, st)]

    def s_FunctionDef(self, n, st):
        st = st.copy()
        st.env[n.name] = self.closure(n, st)
        return [(st, None)]

    def s_ClassDef(self, n, st):
        return [(st, None)]

    def closure(self, n, st):
        self.lambdas[id(n)] = (n, self.fn)
        return ('lambda', id(n), tuple(sorted(((k, v) for k, v in st.env.items()), key=lambda kv: kv[0])))

    def s_Return(self, n, st):
        if n.value is None:
            return [(st, ('ret', NONE))]
        return [(s, ('ret', v)) for s, v in self.ev(n.value, st)]

    def s_Delete(self, n, st):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Subscript):
                    for s1, b in self.ev(t.value, s):
                        for s2, k in self.ev_slice(t.slice, s1):
                            s2 = s2.copy()
                            self.emit('delitem', 'del[]', s2, n, recv=b, args=(k,))
                            s2.heap[(b, '[]', k)] = ('deleted',)
                            nxt.append(s2)
                elif isinstance(t, ast.Attribute):
                    for s1, b in self.ev(t.value, s):
                        s1 = s1.copy()
                        self.emit('delattr', 'del.' + t.attr, s1, n, recv=b, args=(C(t.attr),))
                        s1.heap[(b, t.attr)] = ('deleted',)
                        nxt.append(s1)
                elif isinstance(t, ast.Name):
                    s = s.copy()
                    s.env.pop(t.id, None)
                    nxt.append(s)
                else:
                    nxt.append(s)
            cur = nxt
        return [(s, None) for s in cur]

    def s_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            ss = [s]
            for t in n.targets:
                ss = [s3 for s2 in ss for s3 in self.assign(t, v, s2, n)]
            out += [(x, None) for x in ss]
        return out

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st = st.copy()
            st.env[t.id] = v
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st):
                s = s.copy()
                s.heap[(b, t.attr)] = v
                self.write(b, t.attr, v, s, node)
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.ev(t.value, st):
                for s2, k in self.ev_slice(t.slice, s):
                    s2 = s2.copy()
                    s2.heap[(b, '[]', k)] = v
                    self.emit('setitem', '[]=', s2, node, recv=b, args=(k, v))
                    out.append(s2)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [st]
            for i, e in enumerate(t.elts):
                cur = [s2 for s in cur for s2 in self.assign(e, self.item(v, C(i), s), s, node)]
            return cur
        return [st]

    def write(self, base, attr, v, st, node):
        self.emit('setattr', '.%s=' % attr, st, node, recv=base, args=(v,), value=v)

    def s_AugAssign(self, n, st):
        load_t = self.as_load(n.target)
        out = []
        for s, a in self.ev(load_t, st):
            for s2, b in self.ev(n.value, s):
                v = self.mk_bin(type(n.op).__name__, a, b)
                out += [(x, None) for x in self.assign(n.target, v, s2, n)]
        return out

    def as_load(self, t):
        if isinstance(t, ast.Name):
            r = ast.Name(t.id, ast.Load())
        elif isinstance(t, ast.Attribute):
            r = ast.Attribute(t.value, t.attr, ast.Load())
        else:
            r = ast.Subscript(t.value, t.slice, ast.Load())
        return ast.copy_location(r, t)

    def s_If(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            out += self.block(n.body if b else n.orelse, s)
        return self.dedupe_done(out) if len(out) > 1 else out

    def s_Assert(self, n, st):
        out = []
        if not self.assert_inline:
            self.no_inline += 1
        try:
            res = self.cond(n.test, st)
        finally:
            if not self.assert_inline:
                self.no_inline -= 1
        for s, b in res:
            if b:
                out.append((s, None))
            else:
                self.emit('assertfail', 'assert', s, n)
                out.append((s, ('exc', ('exc', 'AssertionError'))))
        return out

    def s_Raise(self, n, st):
        if n.exc is None:
            return [(st, ('exc', st.env.get('$exc', ('exc', None))))]
        out = []
        for s, v in self.ev(n.exc, st):
            nm = None
            if v[0] == 'builtin':
                nm = v[1]
            elif v[0] == 'call' and isinstance(v[1], str):
                nm = v[1]
            out.append((s, ('exc', ('exc', nm))))
        return out

    def s_Break(self, n, st):
        return [(st, ('brk',))]

    def s_Continue(self, n, st):
        return [(st, ('cont',))]

    def s_With(self, n, st):
        cur = [st]
        for it in n.items:
            nxt = []
            for s in cur:
                for s2, v in self.ev(it.context_expr, s):
                    if it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, v, s2, n)
                    else:
                        nxt.append(s2)
            cur = nxt
        out = []
        for s in cur:
            out += self.block(n.body, s)
        return out

    def handler_match(self, h, exc, fn):
        """True / False / None(maybe)"""
        if h.type is None:
            return True
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = []
        for t in types:
            names.append(t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else '?')
        if 'BaseException' in names:
            return True
        en = exc[1] if exc[0] == 'exc' else None
        parents = EXC_PARENTS.get(en, ['StandardError'])
        if en in names:
            return True
        if 'Exception' in names:
            return False if 'BaseException!' in parents else True
        if en is None:
            return None
        if any(x in names for x in parents):
            return True
        return False

    def s_Try(self, n, st):
        if n.finalbody:
            inner = ast.Try(body=n.body, handlers=n.handlers, orelse=n.orelse, finalbody=[])
            if n.handlers:
                ast.copy_location(inner, n)
                res = self.s_Try(inner, st)
            else:
                self.try_depth += 1
                try:
                    res = self.block(n.body, st)
                finally:
                    self.try_depth -= 1
            out = []
            for s, c in self.dedupe_done(res):
                for s2, c2 in self.block(n.finalbody, s):
                    out.append((s2, c2 if c2 is not None else c))
            return out
        self.try_depth += 1
        try:
            res = self.block(n.body, st)
        finally:
            self.try_depth -= 1
        out = []
        excs = []
        for s, c in res:
            if c is None:
                out += self.block(n.orelse, s) if n.orelse else [(s, None)]
            elif c[0] == 'exc':
                excs.append((s, c))
            else:
                out.append((s, c))
        for s, c in self.dedupe_done(excs):
            caught = False
            for h in n.handlers:
                m = self.handler_match(h, c[1], self.fn)
                if m is False:
                    continue
                s2 = s.copy()
                s2.env['$exc'] = c[1]
                if h.name:
                    s2.env[h.name] = ('excval', c[1])
                self.emit('handler', 'except', s2, h, args=(c[1],))
                for s3, c3 in self.block(h.body, s2):
                    if '$exc' in s3.env:
                        s3 = s3.copy()
                        s3.env.pop('$exc', None)
                    out.append((s3, c3))
                if m:
                    caught = True
                    break
            if not caught:
                out.append((s, c))
        return self.dedupe_done(out)

    # ------------------------------------------------------------ loops
    def canon_iter(self, t, st=None):
        while True:
            if t[0] == 'call' and t[1] in ITER_ID and len(t[2]) >= 1:
                t = t[2][0]
            elif t[0] == 'mcall' and t[2] in ('keys', 'iterkeys', 'viewkeys') and not t[3]:
                t = t[1]
            elif t[0] == 'copy' and not self.keep_copies:
                t = t[1]
            else:
                return t

    def elem(self, t, st):
        """-> (element term, canonical iterable, extra facts) for an arbitrary element"""
        t = self.canon_iter(t)
        if t[0] == 'mcall' and t[2] in ('items', 'iteritems', 'viewitems') and not t[3]:
            k = self.mk_elem(t[1], st)
            return ('tuple', (k, self.item(t[1], k, st))), self.canon_iter(t[1])
        if t[0] == 'mcall' and t[2] in ('values', 'itervalues', 'viewvalues') and not t[3]:
            k = self.mk_elem(t[1], st)
            return self.item(t[1], k, st), self.canon_iter(t[1])
        if t[0] == 'call' and t[1] == 'enumerate' and t[2]:
            x = self.canon_iter(t[2][0])
            i = self.mk_elem(('indices', x), st)
            e, c = self.elem(x, st)
            return ('tuple', (i, e)), c
        if t[0] == 'call' and t[1] == 'zip':
            es = [self.elem(x, st)[0] for x in t[2]]
            return ('tuple', tuple(es)), ('tuple', t[2])
        if t[0] == 'call' and t[1] in ('range', 'xrange') and len(t[2]) == 1 and t[2][0][0] == 'len':
            x = self.canon_iter(t[2][0][1])
            return self.mk_elem(('indices', x), st), x
        if t[0] == 'comp':
            return t[2], (self.canon_iter(t[3]) if t[3][0] != 'tuple' else t[3])
        return self.mk_elem(t, st), t

    def mk_elem(self, x, st):
        x = self.canon_iter(x)
        n = sum(1 for l in st.loops if l[0] == x)
        return ('elem', x) if n == 0 else ('elem', x, n)

    def literal_items(self, t, st):
        t = self.canon_iter(t)
        if t[0] in ('tuple',):
            return list(t[1])
        if t[0] == 'c' and isinstance(t[2], tuple):
            return [C(x) for x in t[2]]
        if t[0] == 'call' and t[1] in ('range', 'xrange') and all(is_num(x) for x in t[2]):
            r = range(*[int(x[2]) for x in t[2]])
            if len(r) <= 24:
                return [C(x) for x in r]
        if t[0] == 'obj' and t[1] in ('list', 'set'):
            base = t[3]
            if (t, '#unk') in st.heap:
                return None
            app = st.heap.get((t, '#app'), ())
            if any(a[1] for a in app):
                return None
            if any(len(k) == 3 and k[0] == t for k in st.heap):
                return None
            return list(base) + [a[0] for a in app]
        if t[0] == 'obj' and t[1] == 'dict':
            if (t, '#unk') in st.heap or any(k[0] == t for k in st.heap):
                return None
            return [k for k, v in t[3]]
        return None

    def assigned(self, body):
        names = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
        return names

    def s_For(self, n, st):
        out = []
        for s, it in self.ev(n.iter, st):
            lits = self.literal_items(it, s)
            if lits is not None and len(lits) <= 24:
                out += self.unroll(n, s, lits)
            else:
                out += self.loop(n, s, it=it)
        return out

    def unroll(self, n, st, lits):
        cur, out, brk = [st], [], []
        for v in lits:
            nxt = []
            for s in cur:
                for s1 in self.assign(n.target, v, s, n):
                    for s2, c in self.block(n.body, s1):
                        if c is None or c[0] == 'cont':
                            nxt.append(s2)
                        elif c[0] == 'brk':
                            brk.append(s2)
                        else:
                            out.append((s2, c))
            cur = self.dedupe(nxt)
        for s in cur:
            out += self.block(n.orelse, s) if n.orelse else [(s, None)]
        return out + [(s, None) for s in brk]

    def s_While(self, n, st):
        # while i < len(xs): ...; i += 1   ->  for i in range(len(xs))
        t = n.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.ops[0], ast.Lt) \
                and isinstance(t.comparators[0], ast.Call) and isinstance(t.comparators[0].func, ast.Name) \
                and t.comparators[0].func.id == 'len' and st.env.get(t.left.id) == C(0):
            i = t.left.id
            incs = [x for x in n.body if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == i
                    and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1]
            others = [y for b in n.body if b not in incs for y in ast.walk(b) if isinstance(y, ast.Name)
                      and y.id == i and isinstance(y.ctx, ast.Store)]
            conts = [y for b in n.body for y in ast.walk(b) if isinstance(y, ast.Continue)]
            if len(incs) == 1 and not others and not conts and n.body[-1] is incs[0]:
                f = ast.For(target=ast.Name(i, ast.Store()),
                            iter=ast.Call(func=ast.Name('range', ast.Load()), args=[t.comparators[0]], keywords=[]),
                            body=n.body[:-1] or [ast.Pass()], orelse=n.orelse)
                ast.copy_location(f, n)
                ast.fix_missing_locations(f)
                return self.s_For(f, st)
        return self.loop(n, st)

    def loop(self, n, st, it=None):
        self.loopid += 1
        lid = self.loopid
        names = self.assigned(n.body)
        if it is not None:
            elemv, canon = self.elem(it, st)
            tnames = self.assigned([ast.Expr(n.target)]) | {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        else:
            elemv, canon, tnames = None, ('while', lid), set()
        carried = names - tnames

        def start(heapmod):
            s = st.copy()
            for v in carried:
                if v in s.env:
                    s.env[v] = ('loopvar', v, lid)
                # otherwise unbound before the loop: stays unbound/arbitrary
                else:
                    s.env.pop(v, None)
            for k in heapmod:
                s.heap[k] = ('loopheap', lid, k[0], k[1]) + tuple(k[2:])
            s.loops = s.loops + ((canon, lid),)
            if self.mark_loops:
                s.trace = s.trace + (('loop', strip(canon)),)
            if it is not None:
                ci = self.canon_iter(it)
                if ci[0] == 'comp':
                    for a, pol in ci[4]:
                        r = self.assume(s, a, pol)
                        s = r if r is not None else s
                return self.assign(n.target, elemv, s, n), []
            ins, outs = [], []
            for s2, b in self.cond(n.test, s):
                (ins if b else outs).append(s2)
            return ins, outs

        def once(heapmod):
            ins, outs = start(heapmod)
            ends, brks, rest = [], [], []
            for s in ins:
                for s2, c in self.block(n.body, s):
                    if c is None or c[0] == 'cont':
                        ends.append(s2)
                    elif c[0] == 'brk':
                        brks.append(s2)
                    else:
                        rest.append((s2, c))
            return self.dedupe(ends), brks, rest, outs

        self.muted += 1
        sp = self.pending
        self.pending = []
        try:
            ends, brks, rest, outs = once(())
        finally:
            self.muted -= 1
            self.pending = sp
        heapmod = set()
        elem_keyed = lambda k: elemv is not None and any(mentions(x, e) for x in k if isinstance(x, tuple)
                                                         for e in self.elem_atoms(elemv))
        for s in ends:
            for k, v in s.heap.items():
                if st.heap.get(k) != v:
                    if k[1] == '#app':
                        continue
                    if not elem_keyed(k):
                        heapmod.add(k)
        ends, brks, rest, outs = once(heapmod)
        ends = self.dedupe(ends)
        exits = []
        # facts that hold after every completed iteration
        elem_terms = self.elem_atoms(elemv) if elemv is not None else []

        def about_elem(a):
            return any(mentions(a, e) for e in elem_terms)

        def forall(es):
            if not es:
                return {}
            common = dict(es[0].facts)
            for e in es[1:]:
                common = {k: v for k, v in common.items() if e.facts.get(k) == v}
            return {k: v for k, v in common.items() if about_elem(k) and k not in st.facts}

        def forall_heap(es):
            if not es:
                return {}
            common = dict(es[0].heap)
            for e in es[1:]:
                common = {k: v for k, v in common.items() if e.heap.get(k) == v}
            return {k: v for k, v in common.items() if k not in st.heap and elem_keyed(k)}

        # carried variables: possible exit values
        poss = {}
        for v in carried:
            if v not in st.env:
                continue
            L = ('loopvar', v, lid)
            vals = {e.env.get(v, ('undef',)) for e in ends}
            bvals = {e.env.get(v, ('undef',)) for e in brks}
            init = st.env[v]
            if all(x == L for x in vals):
                poss[v] = ('same', init)
            elif all(x == L or not mentions(x, L) for x in vals) and len(vals) <= 8:
                poss[v] = ('set', {init} | {x for x in vals if x != L})
            else:
                adds = set()
                ok = True
                for x in vals:
                    if x == L:
                        continue
                    a = self.linear_add(x, L)
                    if a is None:
                        ok = False
                        break
                    adds.add(a)
                if ok:
                    poss[v] = ('set', {('sum', init, frozenset(adds), canon, len([1 for x in vals if x == L]) > 0)})
                else:
                    poss[v] = ('set', {('loopout', v, lid)})

        if self.on_iter and not self.muted:
            self.loop_init = {v: st.env[v] for v in carried if v in st.env}
            self.loop_left = (brks, rest)
            self.on_iter(ends, it, elemv, lid, poss, n, self.fn)

        def resolve_break(e):
            """values carried into a breaking iteration"""
            res = [e]
            for v, (kind, d) in poss.items():
                L = ('loopvar', v, lid)
                nxt = []
                for x in res:
                    if not self.state_mentions(x, L):
                        nxt.append(x)
                        continue
                    for val in ([d] if kind == 'same' else sorted(d, key=repr)):
                        y = self.state_subst(x, L, val)
                        if not self.absurd(y):
                            nxt.append(y)
                res = nxt
            return res

        base_exits = []
        if it is None:
            for s in outs:      # the state in which the loop test failed
                base_exits += resolve_break(s)
            exits = base_exits
        else:
            none = None if strip(it)[0] != 'comp' or self.known(st, it) is not None else self.comp_none.get(strip(it))
            if none:        # nothing was taken: what holds then holds for every element
                z = st.copy()
                z.facts.update({k: v for k, v in none if k not in z.facts})
                z.facts[('truthy', strip(it))] = False
                exits.append(z)
            elif self.zero_iter or not ends:
                z = st.copy()
                fa = forall(ends)
                z.facts.update({k: v for k, v in fa.items()})
                z.heap.update(forall_heap(ends))
                if ends or not brks and not rest:
                    exits.append(z)
                else:
                    exits.append(st.copy())
            # group end states by the exit values of set-valued variables
            setvars = [v for v, (k, d) in poss.items() if k == 'set' and len(d) > 1]
            combos = [{}]
            for v in setvars[:4]:
                combos = [dict(c, **{v: x}) for c in combos for x in sorted(poss[v][1], key=repr)]
                if len(combos) > 64:
                    combos = [{}]
                    break
            for combo in combos:
                es = []
                for e in ends:
                    ok = True
                    for v, x in combo.items():
                        ev_ = e.env.get(v, ('undef',))
                        if ev_ != x and ev_ != ('loopvar', v, lid):
                            ok = False
                    if ok:
                        es.append(e)
                # a value other than the initial one must have been written by some iteration
                if any(x != st.env[v] and not any(e.env.get(v) == x for e in es) and x[0] != 'sum'
                       for v, x in combo.items()):
                    continue
                if not es:
                    continue
                writes_allowed = ends
                for v, x in combo.items():
                    if x == st.env[v] and not any(e.env.get(v) == x for e in ends):
                        writes_allowed = [e for e in writes_allowed if e.env.get(v) == ('loopvar', v, lid)]
                fa, fh = forall(writes_allowed), forall_heap(writes_allowed)
                for e in es:
                    x = e.copy()
                    for v in carried:
                        if v in combo:
                            x.env[v] = combo[v]
                    x = self.exit_state(x, st, poss, lid, carried, about_elem, fa)
                    if none:
                        x.facts[('truthy', strip(it))] = True
                    exits.append(x)
        for s in exits:
            s.loops = st.loops
            if self.mark_loops:
                s.trace = s.trace + (('endloop', strip(canon)),) if s.trace != st.trace or True else s.trace
        out = list(rest)
        out = [(self.leave(s, st), c) for s, c in out]
        for s in self.dedupe(exits):
            out += self.block(n.orelse, s) if n.orelse else [(s, None)]
        for b in brks:
            for x in resolve_break(b):
                x = x.copy()
                x.loops = st.loops
                if self.mark_loops:
                    x.trace = x.trace + (('endloop', strip(canon)),)
                out.append((x, None))
        return self.dedupe_done(out)

    def leave(self, s, st):
        s = s.copy()
        s.loops = st.loops
        return s

    def elem_atoms(self, t):
        return [x for x in subterms(t) if x[0] == 'elem']

    def exit_state(self, x, st, poss, lid, carried, about_elem, fa):
        x.facts = {k: v for k, v in x.facts.items() if not about_elem(k) or k in st.facts}
        x.facts.update(fa)
        for v, (kind, d) in poss.items():
            L = ('loopvar', v, lid)
            if kind == 'same':
                if self.state_mentions(x, L):
                    x = self.state_subst(x, L, d)
            else:
                if x.env.get(v) == L or len(d) == 1:
                    x.env[v] = list(d)[0] if len(d) == 1 else x.env[v]
        return x

    def state_mentions(self, s, t):
        return any(mentions(v, t) for v in s.env.values()) or any(mentions(v, t) for v in s.heap.values()
                                                                  if isinstance(v, tuple)) or \
            any(mentions(k, t) for k in s.facts)

    def state_subst(self, s, a, b):
        s = s.copy()
        s.env = {k: subst(v, a, b) for k, v in s.env.items()}
        s.heap = {subst(k, a, b): subst(v, a, b) for k, v in s.heap.items()}
        s.facts = {subst(k, a, b): v for k, v in s.facts.items()}
        return s

    def absurd(self, s):
        """a fact of s is false by itself"""
        for a, v in s.facts.items():
            if a[0] == 'cmp' and a[1] == 'lt' and a[2] == a[3] and v:
                return True
            if a[0] == 'cmp' and a[1] == 'lt' and is_num(a[2]) and is_num(a[3]) and (a[2][2] < a[3][2]) != v:
                return True
            if a[0] == 'cmp' and a[1] == 'eq' and is_const(a[2]) and is_const(a[3]) and (a[2][2] == a[3][2]) != v:
                return True
            if a[0] == 'isnone' and (is_const(a[1]) or a[1][0] in ('obj', 'tuple', 'len')) and (a[1] == NONE) != v:
                return True
            if a[0] == 'truthy' and is_const(a[1]) and bool(a[1][2]) != v:
                return True
        return False

    def linear_add(self, x, L):
        """x == L + t  ->  t (t free of L)"""
        if x[0] == 'bin' and x[1] == 'Add':
            if x[2] == L and not mentions(x[3], L):
                return x[3]
            if x[3] == L and not mentions(x[2], L):
                return x[2]
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                r = self.linear_add(a, L)
                if r is not None and not mentions(b, L):
                    return self.mk_bin('Add', r, b)
        if x[0] == 'bin' and x[1] == 'Sub' and not mentions(x[3], L):
            if x[2] == L:
                return self.mk_bin('Mult', C(-1), x[3])
        if x[0] == 'sum' and x[1] == L and all(not mentions(a, L) for a in x[2]):
            return ('sum', C(0)) + x[2:]
        return None

    # ------------------------------------------------------------ conditions and facts
    def cond(self, e, st):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            res, cur = [], [st]
            for i, v in enumerate(e.values):
                nxt = []
                for s in cur:
                    for s2, b in self.cond(v, s):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            res.append((s2, b))
                cur = self.dedupe(nxt)
            out = res + [(s, isand) for s in cur]
            return self.dedupe_cond(out)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.cond(e.operand, st)]
        out = []
        for s, v in self.ev(e, st):
            out += self.branch(s, v)
        return self.dedupe_cond(out)

    def dedupe_cond(self, out):
        if len(out) <= 1:
            return out
        seen, r = set(), []
        for s, b in out:
            k = (s.key(), b)
            if k not in seen:
                seen.add(k)
                r.append((s, b))
        return r

    def branch(self, st, v):
        k = self.known(st, v)
        if k is not None:
            return [(st, k)]
        if v[0] == 'phi':
            out = []
            for x in sorted(v[1], key=repr):
                out += self.branch(st, x)
            return self.dedupe_cond(out)
        out = []
        for pol in (True, False):
            s = self.assume(st, v, pol)
            if s is not None and self.comp_none:
                a, p = self.atom(v)
                if a[0] == 'truthy' and (p == pol) is False:
                    new = self.comp_none.get(strip(a[1]), ())
                    new = [(k, b) for k, b in new if k not in s.facts]
                    if new:
                        s = s.copy()
                        s.facts = dict(s.facts)
                        s.facts.update(new)
            if s is not None:
                out.append((s, pol))
        return out

    def atom(self, v):
        """canonical (atom, polarity) of the truth of v"""
        pol = True
        v = strip(v)
        while True:
            if v[0] == 'not':
                v, pol = v[1], not pol
                continue
            if v[0] == 'call' and v[1] == 'bool' and len(v[2]) == 1:
                v = v[2][0]
                continue
            if v[0] == 'len':
                v = ('truthy', v[1])
                continue
            if v[0] == 'cmp':
                op, a, b = v[1], v[2], v[3]
                if op in ('eq', 'is'):
                    for x, y in ((a, b), (b, a)):
                        if y == NONE:
                            return ('isnone', x), pol
                    if op == 'is':
                        op = 'eq'
                    for x, y in ((a, b), (b, a)):
                        if y == C(0) and x[0] == 'len':
                            return ('truthy', x[1]), not pol
                        if y == TRUE and x[0] in ('cmp', 'not', 'flagcall'):
                            v = x
                            break
                        if y == FALSE and x[0] in ('cmp', 'not', 'flagcall'):
                            v, pol = x, not pol
                            break
                    else:
                        if repr(a) > repr(b):
                            a, b = b, a
                        if is_const(a) and not is_const(b):
                            a, b = b, a
                        return ('cmp', 'eq', a, b), pol
                    continue
                if op == 'lt':
                    if a == C(0) and b[0] == 'len':
                        return ('truthy', b[1]), pol
                    if a[0] == 'len' and b == C(1):
                        return ('truthy', a[1]), not pol
                return v, pol
            if v[0] in ('truthy', 'isnone'):
                return v, pol
            return ('truthy', v), pol

    def known(self, st, v):
        if v[0] == 'c':
            return bool(v[2])
        if v[0] in ('func', 'bound', 'class', 'lambda', 'ext', 'mod', 'self'):
            return True
        if v[0] in ('tuple',):
            return bool(v[1])
        if v[0] == 'obj':
            if v[1] in ('list', 'dict', 'set'):
                if v[3]:
                    return True
                if (v, '#app') in st.heap and any(not a[1] for a in st.heap[(v, '#app')]):
                    return True
                if (v, '#unk') in st.heap or (v, '#app') in st.heap or any(k[0] == v for k in st.heap):
                    return None if not any(len(k) == 3 and k[0] == v and not self.elem_atoms(k[2]) for k in st.heap) else True
                return False
            return True
        if v[0] == 'phi':
            ks = {self.known(st, x) for x in v[1]}
            return ks.pop() if len(ks) == 1 else None
        a, pol = self.atom(v)
        r = self.fact(st, a)
        return None if r is None else (r == pol)

    def fact(self, st, a):
        f = st.facts
        if a in f:
            return f[a]
        k = a[0]
        if k == 'cmp' and a[1] == 'in':
            g = ('mcall', a[3], 'get', (a[2],), ())
            if f.get(('truthy', g)) is True or f.get(('isnone', g)) is False:
                return True
            return None
        if k in ('isnone', 'truthy') and a[1][0] == 'mcall' and a[1][2] == 'get' and len(a[1][3]) == 1 and f.get(('cmp', 'in', a[1][3][0], a[1][1])) is False:
            return k == 'isnone'
        if k == 'isnone':
            x = a[1]
            if x[0] == 'c':
                return x[2] is None
            if x[0] in ('self', 'obj', 'func', 'bound', 'class', 'lambda', 'tuple', 'bin', 'cmp', 'comp', 'len', 'fmt', 'not', 'sum', 'mod'):
                return False
            if x[0] == 'call' and x[1] in ('int', 'float', 'str', 'len', 'sorted', 'set', 'list', 'dict', 'tuple', 'round', 'abs', 'sum'):
                return False
            if x[0] == 'phi':
                ks = {self.fact(st, ('isnone', y)) for y in x[1]}
                return ks.pop() if len(ks) == 1 else None
            if f.get(('truthy', x)) is True:
                return False
            for b, pol in f.items():
                if pol and b[0] == 'cmp' and b[1] == 'eq' and b[2] == x and is_const(b[3]):
                    return b[3][2] is None
                if pol and b[0] == 'cmp' and b[1] == 'isinstance' and b[2] == x:
                    return False
            return None
        if k == 'truthy':
            x = a[1]
            if f.get(('isnone', x)) is True:
                return False
            for b, pol in f.items():
                if pol and b[0] == 'cmp' and b[1] == 'eq' and b[2] == x and is_const(b[3]):
                    return bool(b[3][2])
            return None
        if k == 'cmp':
            op, x, y = a[1], a[2], a[3]
            if op == 'eq':
                if x == y and x[0] not in ('unk',):
                    return True
                if is_const(x) and is_const(y):
                    return x[2] == y[2]
                if is_const(y):
                    for b, pol in f.items():
                        if pol and b[0] == 'cmp' and b[1] == 'eq' and b[2] == x and is_const(b[3]):
                            return b[3][2] == y[2]
                    if f.get(('isnone', x)) is True:
                        return y[2] is None
                    if f.get(('truthy', x)) is False and y[2]:
                        return False
                if f.get(('cmp', 'lt', x, y)) is True or f.get(('cmp', 'lt', y, x)) is True:
                    return False
            if op == 'lt':
                if is_num(x) and is_num(y):
                    return x[2] < y[2]
                if x == y:
                    return False
                if f.get(('cmp', 'lt', y, x)) is True:
                    return False
                if f.get(('cmp', 'eq', x, y)) is True or f.get(('cmp', 'eq', y, x)) is True:
                    return False
                if is_num(y):
                    for b, pol in f.items():
                        if b[0] == 'cmp' and b[1] == 'lt':
                            if b[2] == x and is_num(b[3]):          # x < c
                                if pol and b[3][2] <= y[2]:
                                    return True
                                if not pol and b[3][2] >= y[2]:
                                    return False
                            if b[3] == x and is_num(b[2]):          # c < x
                                if pol and b[2][2] >= y[2]:
                                    return False
                if is_num(x):
                    for b, pol in f.items():
                        if b[0] == 'cmp' and b[1] == 'lt':
                            if b[3] == y and is_num(b[2]):          # c < y
                                if pol and b[2][2] >= x[2]:
                                    return True
                                if not pol and b[2][2] <= x[2]:
                                    return False
                            if b[2] == y and is_num(b[3]):          # y < c
                                if pol and b[3][2] <= x[2]:
                                    return False
            if op == 'in':
                lits = None
                if y[0] in ('tuple',):
                    lits = y[1]
                elif y[0] == 'obj' and y[1] in ('list', 'set') and (y, '#app') not in st.heap:
                    lits = y[3]
                elif y[0] == 'elemset':
                    lits = None
                if lits is not None:
                    if any(x == l for l in lits):
                        return True
                    if is_const(x) and all(is_const(l) for l in lits):
                        return x[2] in [l[2] for l in lits]
                    for b, pol in f.items():
                        if pol and b[0] == 'cmp' and b[1] == 'eq' and b[2] == x and is_const(b[3]) and all(is_const(l) for l in lits):
                            return b[3][2] in [l[2] for l in lits]
                if is_const(x) and is_str(y) and isinstance(x[2], str):
                    return x[2] in y[2]
                if x[0] == 'elem' and self.canon_iter(x[1]) == self.canon_iter(y):
                    return True
            if op == 'startswith' and is_str(x) and is_str(y):
                return x[2].startswith(y[2])
            if op == 'startswith' and is_str(y):
                ld = lead(x)
                if ld.startswith(y[2]):
                    return True
                if ld and not y[2].startswith(ld):
                    return False
                for b, pol in f.items():
                    if b[0] == 'cmp' and b[1] == 'eq' and pol and b[2] == x and is_str(b[3]):
                        return b[3][2].startswith(y[2])
                    if b[0] == 'cmp' and b[1] == 'startswith' and b[2] == x and is_str(b[3]):
                        if pol and b[3][2].startswith(y[2]):
                            return True
                        if not pol and y[2].startswith(b[3][2]):
                            return False
                        if pol and not b[3][2].startswith(y[2]) and not y[2].startswith(b[3][2]):
                            return False
        return None

    def assume(self, st, v, pol):
        if v[0] == 'c':
            return st if bool(v[2]) == pol else None
        k = self.known(st, v)
        if k is not None:
            return st if k == pol else None
        a, p = self.atom(v)
        want = (p == pol)
        r = self.fact(st, a)
        if r is not None:
            return st if r == want else None
        lab = self.on_assume(a, want) if self.on_assume else None
        tr = self.track(a)
        if not tr and lab is None:
            return st
        st = st.copy()
        if tr:
            st.facts[a] = want
        if lab is not None and (lab not in st.trace or lab[0] == '*' and lab != st.trace[-1]):
            st.trace = st.trace + (lab,)
        return st

    def holds(self, st, v, pol=True):
        """True if the path facts entail v==pol"""
        k = self.known(st, v)
        return k is not None and k == pol

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            st = st.copy()
            return [(st, ('unk', st.uid()))]
        return m(e, st)

    def evs(self, es, st):
        cur = [(st, ())]
        for e in es:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + (v,)))
            cur = nxt
        return cur

    def e_Constant(self, e, st):
        return [(st, C(e.value))]

    def e_Name(self, e, st):
        if e.id in st.env:
            return [(st, st.env[e.id])]
        return [(st, self.global_value(e.id, self.fn.mod if self.fn else None, st))]

    def global_value(self, name, mod, st):
        if self.fn and self.fn.qual.endswith('.<module>') and self.fn.cls and name in self.fn.cls.consts:
            k = self.fn.cls
            return self.const_value(k.mod, k.name + '.' + name, k.consts[name], k)
        gk = (('mod', mod.name), name)
        if gk in st.heap:
            return st.heap[gk]
        r = self.p.lookup_global(mod, name)
        return self.resolved(r, name, mod)

    def resolved(self, r, name, mod):
        if r is None:
            return ('sym', 'undef:' + name)
        if r[0] == 'func':
            return ('func', r[1].qual)
        if r[0] == 'class':
            return ('class', r[1].name)
        if r[0] == 'ext':
            return ('ext', r[1])
        if r[0] == 'builtin':
            return ('builtin', r[1])
        if r[0] == 'mod':
            return ('mod', r[1].name)
        _, m, nm, ex = r
        return self.const_value(m, nm, ex)

    def const_value(self, m, nm, ex, cls=None):
        key = (m.name, nm)
        if key in self.constcache:
            return self.constcache[key]
        self.constcache[key] = ('sym', 'global:%s.%s' % (short(m.name), nm))
        # a global rebound by any function is not a constant
        rebound = nm in m.multi or any(isinstance(x, ast.Global) and nm in x.names for x in ast.walk(m.tree))
        if not rebound and isinstance(ex, (ast.Constant, ast.Name, ast.BinOp, ast.Attribute, ast.Tuple, ast.UnaryOp)) or \
                not rebound and isinstance(ex, ast.List) and len(ex.elts) <= 40 or \
                not rebound and isinstance(ex, ast.Call) and isinstance(ex.func, ast.Name) and ex.func.id in ('float', 'int', 'long', 'str', 'pow', 'set', 'tuple'):
            f = Func(m.name + '.<module>', ast.parse('def f(): pass').body[0], m)
            f.cls = cls
            self.stack.append(f)
            oc, ow = self.on_call, self.on_write
            self.on_call = self.on_write = None
            try:
                r = self.ev(ex, State())
            finally:
                self.stack.pop()
                self.on_call, self.on_write = oc, ow
            if len(r) == 1:
                v = r[0][1]
                if v[0] == 'obj' and v[1] in ('list', 'set'):
                    v = ('tuple', tuple(v[3]))
                self.constcache[key] = v
        return self.constcache[key]

    def e_Attribute(self, e, st):
        out = []
        for s, b in self.ev(e.value, st):
            out.append((s, self.attr(b, e.attr, s)))
        return out

    def attr(self, b, name, st):
        if b[0] == 'mod':
            return self.resolved(self.p.lookup_global(self.p.modules[b[1]], name) or ('ext', b[1] + '.' + name), name, None)
        if b[0] == 'ext':
            return ('ext', b[1] + '.' + name)
        if b[0] == 'class':
            f = self.p.method(self.p.classes[b[1]], name)
            if f:
                return ('func', f.qual)
            for k in self.p.mro(self.p.classes[b[1]]):
                if name in k.consts:
                    return self.const_value(k.mod, k.name + '.' + name, k.consts[name], k)
            return ('attr', b, name)
        if b[0] == 'super':
            f = self.p.method_after(self.p.classes[b[2]], self.p.classes[b[1]], name)
            if f:
                return ('bound', b[3], f.qual)
            return ('attr', b, name)
        if (b, name) in st.heap:
            return st.heap[(b, name)]
        if b[0] == 'phi':
            vs = frozenset(self.attr(x, name, st) for x in b[1])
            return list(vs)[0] if len(vs) == 1 else ('phi', vs)
        c = self.type_of(b)
        if c:
            f = self.p.method(c, name)
            if f:
                if f.static:
                    return ('func', f.qual)
                return ('bound', b, f.qual)
            for k in self.p.mro(c):
                if name in k.consts:
                    if not self.attr_written(name):
                        return self.const_value(k.mod, k.name + '.' + name, k.consts[name], k)
        if b[0] == 'copy' and not self.keep_copies:
            return ('attr', b[1], name)
        return ('attr', b, name)

    def attr_written(self, name):
        if not hasattr(self.p, '_attrw'):
            self.p._attrw = {n.attr for f in self.p.funcs.values() for n in ast.walk(f.node)
                             if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))}
        return name in self.p._attrw

    def ev_slice(self, sl, st):
        if isinstance(sl, ast.Slice):
            out = [(st, ())]
            for x in (sl.lower, sl.upper, sl.step):
                nxt = []
                for s, vs in out:
                    if x is None:
                        nxt.append((s, vs + (NONE,)))
                    else:
                        nxt += [(s2, vs + (v,)) for s2, v in self.ev(x, s)]
                out = nxt
            return [(s, ('slice',) + vs) for s, vs in out]
        return self.ev(sl, st)

    def e_Subscript(self, e, st):
        out = []
        for s, b in self.ev(e.value, st):
            for s2, k in self.ev_slice(e.slice, s):
                if b[0] not in ('tuple', 'c', 'obj'):
                    self.may_raise(s2, 'subscript')
                out.append((s2, self.item(b, k, s2)))
        return out

    def item(self, b, k, st):
        if (b, '[]', k) in st.heap:
            return st.heap[(b, '[]', k)]
        if b[0] == 'phi':
            vs = frozenset(self.item(x, k, st) for x in b[1])
            return list(vs)[0] if len(vs) == 1 else ('phi', vs)
        if b[0] == 'tuple' and is_num(k) and -len(b[1]) <= k[2] < len(b[1]):
            return b[1][k[2]]
        if k[0] == 'slice':
            if b[0] == 'c' and isinstance(b[2], (str, tuple)) and all(x == NONE or is_num(x) for x in k[1:]):
                return C(b[2][slice(*[x[2] for x in k[1:]])])
            if b[0] == 'tuple' and all(x == NONE or is_num(x) for x in k[1:]):
                return ('tuple', b[1][slice(*[x[2] for x in k[1:]])])
            return ('idx', b, k)
        if b[0] == 'idx' and b[2][0] == 'slice' and is_num(k) and k[2] >= 0 and b[2][3] in (NONE, C(1)):
            lo, hi = b[2][1], b[2][2]       # x[1:3][0] is x[1]
            lo = C(0) if lo == NONE else lo
            if is_num(lo) and lo[2] >= 0 and (hi == NONE or is_num(hi) and hi[2] > lo[2] + k[2]):
                return self.item(b[1], C(lo[2] + k[2]), st)
        if is_const(b) and is_num(k) and isinstance(b[2], str) and -len(b[2]) <= k[2] < len(b[2]):
            return C(b[2][k[2]])
        if b[0] == 'obj' and b[1] == 'dict':
            for kk, vv in b[3]:
                if kk == k:
                    return vv
        if b[0] == 'obj' and b[1] == 'list' and is_num(k) and 0 <= k[2] < len(b[3]):
            return b[3][k[2]]
        if b[0] == 'copy':
            inner = self.item(b[1], k, st)
            return inner if inner[0] in ('c',) else ('copy', inner, b[2])
        # x[i] for i an index of x  ->  element of x
        if k[0] == 'elem' and k[1][0] == 'indices' and self.canon_iter(k[1][1]) == self.canon_iter(b):
            return ('elem', self.canon_iter(b)) + tuple(k[2:])
        if b[0] == 'comp' and b[1] == 'list' and not b[4] and b[3][0] != 'tuple':
            e = ('elem', b[3])
            if mentions(b[2], e):
                return subst(b[2], e, self.item(b[3], k, st))
        return ('idx', b, k)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        out, cur = [], [st]
        for i, x in enumerate(e.values):
            nxt = []
            for s in cur:
                for s2, v in self.ev(x, s):
                    if i == len(e.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.branch(s2, v):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            # the value is v, whose truth is now known
                            out.append((s3, C(b) if self.boolish(v) else v))
            cur = nxt
        return out

    def boolish(self, v):
        return v[0] in ('cmp', 'not') or v in (TRUE, FALSE)

    def e_UnaryOp(self, e, st):
        out = []
        for s, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                k = self.known(s, v)
                out.append((s, C(not k) if k is not None else ('not', v)))
            elif isinstance(e.op, ast.USub):
                out.append((s, C(-v[2]) if is_num(v) else self.mk_bin('Mult', C(-1), v)))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, v))
            else:
                out.append((s, ('un', type(e.op).__name__, v)))
        return out

    def e_BinOp(self, e, st):
        out = []
        for s, (a, b) in self.evs([e.left, e.right], st):
            op = type(e.op).__name__
            if op in ('Div', 'Mod', 'FloorDiv') and not is_const(b):
                self.may_raise(s, 'arith')
            out.append((s, self.mk_bin(op, a, b)))
        return out

    def mk_bin(self, op, a, b):
        if a[0] == 'phi' and len(a[1]) <= 8 and is_const(b):
            return ('phi', frozenset(self.mk_bin(op, x, b) for x in a[1]))
        if is_const(a) and is_const(b):
            x, y = a[2], b[2]
            try:
                if op == 'Add' and (isinstance(x, str) == isinstance(y, str)):
                    return C(x + y)
                if op == 'Sub':
                    return C(x - y)
                if op == 'Mult':
                    return C(x * y)
                if op == 'Pow' and abs(y) < 5000:
                    return C(x ** y)
                if op == 'Mod' and not isinstance(x, str):
                    return C(x % y)
                if op == 'Mod' and isinstance(x, str):
                    return C(x % y)
                if op == 'FloorDiv' or (op == 'Div' and isinstance(x, int) and isinstance(y, int)):
                    return C(x // y)
                if op == 'Div':
                    return C(x / y)
                if op == 'LShift':
                    return C(x << y)
            except Exception:
                pass
        if op == 'Mod' and is_str(a):
            args = b[1] if b[0] == 'tuple' else (b,)
            if all(is_const(x) for x in args):
                try:
                    return C(a[2] % tuple(x[2] for x in args))
                except Exception:
                    pass
            return ('fmt', '%', a, tuple(args), ())
        if op == 'Add' and a[0] == 'tuple' and b[0] == 'tuple':
            return ('tuple', a[1] + b[1])
        if op == 'Add' and a[0] == 'obj' and b[0] == 'obj' and a[1] == b[1] == 'list':
            return ('bin', op, a, b)
        return ('bin', op, a, b)

    def e_Compare(self, e, st):
        out = [(st, None, None)]
        cur = [(s, v, ()) for s, v in self.ev(e.left, st)]
        res = []
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            nxt = []
            for s, left, acc in cur:
                for s2, right in self.ev(c, s):
                    t = self.mk_cmp(type(op).__name__, left, right, s2)
                    nxt.append((s2, right, acc + (t,)))
            cur = nxt
        for s, _, ts in cur:
            if len(ts) == 1:
                res.append((s, ts[0]))
            else:
                # chained comparison: conjunction
                states = [(s, True)]
                for t in ts:
                    states = [x for s2, b in states for x in (self.branch(s2, t) if b else [(s2, False)])]
                res += [(s2, C(b)) for s2, b in states]
        return res

    def mk_cmp(self, op, a, b, st):
        t = {'Eq': ('cmp', 'eq', a, b), 'NotEq': ('not', ('cmp', 'eq', a, b)), 'Lt': ('cmp', 'lt', a, b),
             'Gt': ('cmp', 'lt', b, a), 'LtE': ('not', ('cmp', 'lt', b, a)), 'GtE': ('not', ('cmp', 'lt', a, b)),
             'Is': ('cmp', 'is', a, b), 'IsNot': ('not', ('cmp', 'is', a, b)),
             'In': ('cmp', 'in', a, b), 'NotIn': ('not', ('cmp', 'in', a, b))}[op]
        if self.strict_cmp and op in ('LtE', 'GtE'):      # not a number: x >= y is not the negation of x < y
            t = ('cmp', 'le', a, b) if op == 'LtE' else ('cmp', 'le', b, a)
        if op in ('Is', 'IsNot') and (a == NONE) != (b == NONE):
            k = self.fact(st, ('isnone', strip(b if a == NONE else a)))
            if k is not None:
                return C(k == (op == 'Is'))
        if is_const(a) and is_const(b) and op in ('Eq', 'NotEq', 'Is', 'IsNot'):
            r = (a[2] == b[2]) if not (isinstance(a[2], bool) != isinstance(b[2], bool) and op in ('Is', 'IsNot')) else False
            return C(r if op in ('Eq', 'Is') else not r)
        if op in ('Lt', 'Gt', 'LtE', 'GtE') and strip(a) == strip(b):
            return C(op in ('LtE', 'GtE'))
        return t

    def e_IfExp(self, e, st):
        out = []
        for s, b in self.cond(e.test, st):
            out += self.ev(e.body if b else e.orelse, s)
        return out

    def e_Tuple(self, e, st):
        return [(s, ('tuple', vs)) for s, vs in self.evs(e.elts, st)]

    def new_obj(self, st, kind, content):
        st = st.copy()
        return st, ('obj', kind, '%s:%d' % (kind, st.uid()), tuple(content))

    def e_List(self, e, st):
        return [self.new_obj(s, 'list', vs) for s, vs in self.evs(e.elts, st)]

    def e_Set(self, e, st):
        if len(e.elts) > 200:
            return [(st, ('unk', 'bigset'))]
        return [self.new_obj(s, 'set', vs) for s, vs in self.evs(e.elts, st)]

    def e_Dict(self, e, st):
        if len(e.keys) > 200:
            return [(st, ('unk', 'bigdict'))]
        out = []
        for s, vs in self.evs([k for k in e.keys] + [v for v in e.values], st):
            n = len(e.keys)
            out.append(self.new_obj(s, 'dict', tuple(zip(vs[:n], vs[n:]))))
        return out

    def e_Lambda(self, e, st):
        return [(st, self.closure(e, st))]

    def e_Yield(self, e, st):
        return [(s, NONE) for s, v in (self.ev(e.value, st) if e.value else [(st, NONE)])]

    def comp(self, e, st, kind, elts):
        saved = dict(st.env)
        cur = [(st, ())]
        facts0 = None
        iters, dropped = [], []
        states = [st]
        for g in e.generators:
            nxt = []
            for s in states:
                for s1, it in self.ev(g.iter, s):
                    ev_, canon = self.elem(it, s1)
                    ci = self.canon_iter(it)
                    s1 = s1.copy()
                    if ci[0] == 'comp':
                        for a, pol in ci[4]:
                            r = self.assume(s1, a, pol)
                            s1 = r if r is not None else s1
                    s1.loops = s1.loops + ((canon, 0),)
                    if self.mark_loops:
                        s1.trace = s1.trace + (('loop', strip(canon)),)
                    for s2 in self.assign(g.target, ev_, s1, e):
                        ok = [s2]
                        for c in g.ifs:
                            both = [x for s3 in ok for x in self.cond(c, s3)]
                            ok = [s4 for s4, b in both if b]
                            dropped += [s4 for s4, b in both if not b]
                        nxt += [(x, canon) for x in ok]
            states = [x for x, _ in nxt]
            iters = [c for _, c in nxt][:1] and iters + [nxt[0][1]] or iters
        out = []
        for s in states:
            for s2, vs in self.evs(elts, s):
                s2 = s2.copy()
                new = tuple(sorted(((k, v) for k, v in s2.facts.items() if k not in st.facts), key=repr))
                s2.facts = dict(st.facts)
                s2.env = dict(saved)
                s2.loops = st.loops
                if self.mark_loops:
                    s2.trace = s2.trace + tuple(('endloop', strip(c)) for c in reversed(iters))
                it = iters[0] if len(iters) == 1 else ('tuple', tuple(iters))
                out.append((s2, vs, it, new))
        if not out:
            return [(st, ('unk', 'emptycomp'))]
        res = {}
        # alternatives of one comprehension are one collection
        vals = {(vs, it, new) for s2, vs, it, new in out}
        traces = {}
        for s2, vs, it, new in out:
            traces.setdefault(s2.key(), s2)
        if len(vals) == 1:
            vs, it, new = list(vals)[0]
            v = ('comp', kind, vs[0] if len(vs) == 1 else ('tuple', vs), it, new)
        else:
            elt = frozenset(vs[0] if len(vs) == 1 else ('tuple', vs) for vs, it, new in vals)
            elt = ('phi', elt) if len(elt) > 1 else list(elt)[0]
            common = set.intersection(*[set(new) for vs, it, new in vals])
            v = ('comp', kind, elt, out[0][2], tuple(sorted(common, key=repr)))
        if len(e.generators) == 1 and dropped and kind in ('list', 'set', 'gen', 'dict'):
            # nothing was taken: this holds for every element
            every = set.intersection(*[{(k, b) for k, b in s2.facts.items() if k not in st.facts} for s2 in dropped])
            lit = strip(iters[0]) if iters else NONE
            items = lit[1] if lit[0] == 'tuple' else lit[3] if lit[0] == 'obj' and lit[1] in ('list', 'set') and (lit, '#app') not in st.heap else None
            if items:
                x = ('elem', iters[0])
                every = {(subst(k, x, i), b) for k, b in every for i in items}
            self.comp_none[strip(v)] = tuple(sorted(every, key=repr))
        if self.on_comp and not self.muted:
            self.on_comp(v, dropped, self.fn)
        return [(s2, v) for s2 in traces.values()]

    def e_ListComp(self, e, st):
        return self.comp(e, st, 'list', [e.elt])

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, 'gen', [e.elt])

    def e_SetComp(self, e, st):
        return self.comp(e, st, 'set', [e.elt])

    def e_DictComp(self, e, st):
        return self.comp(e, st, 'dict', [e.key, e.value])

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # all()/any() over a comprehension
        if isinstance(e.func, ast.Name) and e.func.id in ('all', 'any') and e.func.id not in st.env and len(e.args) == 1 \
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and len(e.args[0].generators) == 1:
            return self.quant(e, st)
        out = []
        for s, fv in self.ev(e.func, st):
            argl = [(s, (), ())]
            for a in e.args:
                nxt = []
                for s1, vs, ks in argl:
                    if isinstance(a, ast.Starred):
                        for s2, v in self.ev(a.value, s1):
                            if v[0] == 'tuple':
                                nxt.append((s2, vs + tuple(v[1]), ks))
                            else:
                                nxt.append((s2, vs + (('star', v),), ks))
                    else:
                        nxt += [(s2, vs + (v,), ks) for s2, v in self.ev(a, s1)]
                argl = nxt
            for kw in e.keywords:
                nxt = []
                for s1, vs, ks in argl:
                    for s2, v in self.ev(kw.value, s1):
                        nxt.append((s2, vs, ks + ((kw.arg or '**', v),)))
                argl = nxt
            for s1, vs, ks in argl:
                out += self.call(fv, vs, ks, s1, e)
        return out

    def quant(self, e, st):
        g = e.args[0].generators[0]
        isall = e.func.id == 'all'
        out = []
        for s, it in self.ev(g.iter, st):
            elemv, canon = self.elem(it, s)
            s1 = s.copy()
            saved = s1.env
            s1.loops = s1.loops + ((canon, 0),)
            bs = []
            for s2 in self.assign(g.target, elemv, s1, e):
                ok = [s2]
                skip = []
                for c in g.ifs:
                    nok = []
                    for s3 in ok:
                        for s4, b in self.cond(c, s3):
                            (nok if b else skip).append(s4)
                    ok = nok
                for s3 in ok:
                    bs += self.cond(e.args[0].elt, s3)
            good = [x for x, b in bs if b == isall] + skip
            bad = [x for x, b in bs if b != isall]
            # all true: every element satisfies the common facts
            if good:
                common = dict(good[0].facts)
                for x in good[1:]:
                    common = {k: v for k, v in common.items() if x.facts.get(k) == v}
                r = s.copy()
                r.facts.update(common)
                r.trace = good[0].trace
                out.append((r, C(isall)))
            else:
                out.append((s, C(isall)))
            if bad:
                seen = set()
                for x in bad:
                    r = s.copy()
                    r.trace = x.trace
                    # which element failed is arbitrary: keep only facts not about it
                    ets = self.elem_atoms(elemv)
                    r.facts.update({k: v for k, v in x.facts.items() if not any(mentions(k, t) for t in ets)})
                    if r.key() not in seen:
                        seen.add(r.key())
                        out.append((r, C(not isall)))
        return out

    def name_of(self, fv):
        if fv[0] == 'func':
            return short(self.p.funcs[fv[1]].qual) if fv[1] in self.p.funcs else fv[1]
        if fv[0] == 'bound':
            return short(fv[2])
        if fv[0] in ('ext', 'builtin', 'class'):
            return fv[1]
        if fv[0] == 'attr':
            return '.' + fv[2]
        return '?'

    def bind(self, f, args, kwargs, selfv=None):
        """-> dict param -> term ('default' terms evaluated lazily) or None when it cannot bind"""
        a = f.node.args
        params = [x.arg for x in a.args]
        b = {}
        pos = list(args)
        if selfv is not None:
            pos = [selfv] + pos
        if any(x[0] == 'star' for x in pos):
            return None
        for i, v in enumerate(pos):
            if i < len(params):
                b[params[i]] = v
            elif a.vararg:
                b.setdefault(a.vararg.arg, ('tuple', ()))
                b[a.vararg.arg] = ('tuple', b[a.vararg.arg][1] + (v,))
        for k, v in kwargs:
            if k == '**':
                return None
            if k in params:
                b[k] = v
        nd = len(a.defaults)
        for i, d in enumerate(a.defaults):
            pn = params[len(params) - nd + i]
            if pn not in b:
                b[pn] = ('default', d)
        if a.vararg and a.vararg.arg not in b:
            b[a.vararg.arg] = ('tuple', ())
        if a.kwarg:
            b.setdefault(a.kwarg.arg, ('sym', '**' + a.kwarg.arg))
        for pn in params:
            b.setdefault(pn, ('sym', 'missing:' + pn))
        return b

    def call(self, fv, args, kwargs, st, node):
        if fv[0] == 'phi':
            out = []
            for x in sorted(fv[1], key=repr):
                out += self.call(x, args, kwargs, st, node)
            return out
        f, selfv = None, None
        if fv[0] == 'func':
            f = self.p.funcs.get(fv[1])
        elif fv[0] == 'bound':
            f, selfv = self.p.funcs.get(fv[2]), fv[1]
        if f is not None and f.cls and not f.static and selfv is None and fv[0] == 'func' and args:
            selfv, args = args[0], args[1:]      # Class.method(self, ...)
        if f is not None and f.classm and selfv is None:
            selfv = ('class', f.cls.name)
        name = self.name_of(fv)
        bound = self.bind(f, args, kwargs, selfv) if f is not None else None
        if bound is not None:
            bound = {k: self.default(v, f, st) for k, v in bound.items()}
        st = st.copy()
        ev = self.emit('call', name, st, node, recv=selfv if f is not None else (fv[1] if fv[0] == 'attr' else None),
                       args=args, kwargs=kwargs, func=f, bound=bound)
        if f is not None:
            m = self.models.get(short(f.qual)) or self.models.get(f.name)
            if m:
                return m(self, st, args, kwargs, bound, node)
            if bound is not None and self.can_inline(f):
                return self.inline_call(f, bound, st, node)
            return self.opaque_call(fv, f, selfv, args, kwargs, st, bound)
        if fv[0] == 'lambda':
            n, owner = self.lambdas[fv[1]]
            lf = Func((owner.qual if owner else '') + '.<lambda>', n if isinstance(n, ast.FunctionDef) else self.wrap_lambda(n),
                      owner.mod, None, owner)
            b = self.bind(lf, args, kwargs)
            if b is not None and len(self.stack) < self.maxdepth:
                b = {k: self.default(v, lf, st) for k, v in b.items()}
                full = dict(fv[2])
                full.update(b)
                return self.inline_call(lf, full, st, node)
        if fv[0] == 'class':
            return self.construct(fv[1], args, kwargs, st, node)
        m = self.models.get(name)
        if m:
            return m(self, st, args, kwargs, None, node)
        if fv[0] == 'builtin':
            return self.builtin(fv[1], args, kwargs, st, node)
        if fv[0] == 'ext':
            return self.external(fv[1], args, kwargs, st, node)
        if fv[0] == 'attr':
            return self.method_call(fv[1], fv[2], args, kwargs, st, node)
        self.may_raise(st, '?')
        return [(st, ('call', fv, args, kwargs))]

    def wrap_lambda(self, n):
        r = ast.Return(value=n.body)
        fd = ast.FunctionDef(name='<lambda>', args=n.args, body=[r], decorator_list=[], returns=None, type_params=[])
        ast.copy_location(fd, n)
        ast.fix_missing_locations(fd)
        return fd

    def default(self, v, f, st):
        if v[0] != 'default':
            return v
        if isinstance(v[1], ast.Constant):
            return C(v[1].value)
        self.stack.append(f)
        try:
            r = self.ev(v[1], State())
        finally:
            self.stack.pop()
        return r[0][1]

    def can_inline(self, f):
        if self.no_inline:
            return False
        if short(f.qual) in self.opaque or f.name in self.opaque:
            return False
        if len(self.stack) >= self.maxdepth:
            return False
        if sum(1 for x in self.stack if x is f) >= 1:
            return False
        # functions that did not exist when the checks were written are always seen through
        return short(f.qual) not in KNOWN or bool(self.inline(f))

    def inline_call(self, f, bound, st, node):
        self.inlined.add(short(f.qual))
        env0 = st.env
        s = st.copy()
        s.env = dict(bound)
        self.stack.append(f)
        saved, self.pending = self.pending, []
        try:
            res = self.block(f.node.body, s)
            for x, v in self.pending:
                res.append((x, ('exc', v)))
        finally:
            self.stack.pop()
            self.pending = saved
        out = []
        for s2, c in self.dedupe_done(res):
            s2 = s2.copy()
            s2.env = dict(env0)
            if c is None:
                out.append((s2, NONE))
            elif c[0] == 'ret':
                out.append((s2, c[1]))
            elif c[0] == 'exc':
                self.pending.append((s2, c[1]))
        seen, r = set(), []
        for s2, v in out:
            k = (s2.key(), v)
            if k not in seen:
                seen.add(k)
                r.append((s2, v))
        return r

    def may_raise(self, st, name):
        if self.muted and False:
            return
        if name in ('subscript', 'arith') and not self.all_raise and self.raisers is None:
            if self.try_depth <= 0:
                return
        if self.raisers is not None and not self.raisers(name):
            return
        if self.try_depth > 0 or self.all_raise:
            s = st.copy()
            self.pending.append((s, ('exc', None)))

    def opaque_call(self, fv, f, selfv, args, kwargs, st, bound):
        self.may_raise(st, short(f.qual))
        # forget attributes the callee may rewrite
        ms = self.p.modset(f)
        hit = [k for k in st.heap if len(k) == 2 and k[1] in ms]
        st = st.copy()
        for k in hit:
            st.heap[k] = ('hv', k[0], k[1], st.uid())
        ordered = []
        if bound is not None:
            for pn in f.params:
                if pn == 'self' and f.cls:
                    continue
                ordered.append((pn, bound[pn]))
            kk = tuple(ordered)
            t = ('call', short(f.qual), tuple(v for _, v in kk), ())
        else:
            t = ('call', short(f.qual), args, kwargs)
        if selfv is not None:
            t = ('call', short(f.qual), (selfv,) + t[2], t[3])
        if self.impure(f):
            t = t + (st.uid(),)
        return [(st, t)]

    def impure(self, f):
        if not hasattr(self.p, '_impure'):
            def pred(g):
                for n, k, t in self.p.calls(g):
                    if k == 'ext' and t in IMPURE:
                        return True
                    if k == 'meth' and t in IMPURE_METH:
                        return True
                return False
            # direct only, plus exact (non name-based) callers
            direct = {g for g in self.p.funcs.values() if pred(g)}
            imp = set(direct)
            changed = True
            while changed:
                changed = False
                for g in self.p.funcs.values():
                    if g in imp:
                        continue
                    for n, k, t in self.p.calls(g):
                        if k == 'func' and t in imp:
                            imp.add(g)
                            changed = True
                            break
            self.p._impure = imp
        return f in self.p._impure

    def construct(self, cname, args, kwargs, st, node):
        c = self.p.classes[cname]
        init = self.p.method(c, '__init__')
        st = st.copy()
        o = ('obj', cname, '%s:%d' % (cname, st.uid()), ())
        if init is not None:
            b = self.bind(init, args, kwargs, o)
            if b is not None:
                b = {k: self.default(v, init, st) for k, v in b.items()}
            self.emit('new', cname, st, node, recv=o, args=args, kwargs=kwargs, func=init, bound=b)
            if b is not None and self.can_inline(init):
                return [(s, o) for s, _ in self.inline_call(init, b, st, node)]
        else:
            self.emit('new', cname, st, node, recv=o, args=args, kwargs=kwargs)
        self.may_raise(st, cname)
        return [(st, o)]

    # ---- events
    def emit(self, kind, name, st, node, **k):
        ev = Event(kind=kind, name=name, st=st, node=node, fn=self.fn, stack=tuple(self.stack), loops=st.loops,
                   facts=st.facts, **k)
        if ev.args is None:
            ev.args = ()
        if ev.kwargs is None:
            ev.kwargs = ()
        if self.on_call and not self.muted:
            lab = self.on_call(ev)
        elif self.on_call:
            m = self.muted
            lab = self.on_call(ev) if getattr(self, 'call_when_muted', False) else None
        else:
            lab = None
        if lab is not None:
            st.trace = st.trace + (lab,)
        return ev

    # ---- builtins and externals
    def builtin(self, name, args, kwargs, st, node):
        a = args
        ret = lambda v: [(st, v)]
        if any(x[0] == 'phi' for x in a[:1]) and name in ('str', 'len', 'int', 'float') and len(a[0][1]) <= 8:
            out = []
            for x in sorted(a[0][1], key=repr):
                out += self.builtin(name, (x,) + tuple(a[1:]), kwargs, st, node)
            return out
        if name == 'len' and len(a) == 1:
            x = a[0]
            if x[0] == 'c' and isinstance(x[2], (str, tuple)):
                return ret(C(len(x[2])))
            if x[0] == 'tuple':
                return ret(C(len(x[1])))
            lits = self.literal_items(x, st) if x[0] == 'obj' else None
            if lits is not None:
                return ret(C(len(lits)))
            return ret(('len', x if x[0] in ('comp', 'obj') else x))
        if name == 'isinstance' and len(a) == 2:
            if is_const(a[0]) and a[1][0] == 'builtin':
                m = {'str': str, 'basestring': str, 'int': int, 'float': float, 'bool': bool}
                if a[1][1] in m:
                    return ret(C(isinstance(a[0][2], m[a[1][1]])))
            if a[0][0] == 'obj' and a[0][1] == 'list' and a[1][0] == 'ext' and a[1][1].split('.')[-1] in ('Sequence', 'MutableSequence'):
                return ret(TRUE)
            return ret(('cmp', 'isinstance', a[0], a[1]))
        if name == 'hasattr' and len(a) == 2:
            return ret(('cmp', 'hasattr', a[0], a[1]))
        if name == 'getattr' and len(a) >= 2 and is_str(a[1]):
            return ret(self.attr(a[0], a[1][2], st))
        if name == 'super' and self.fn is not None:
            if len(a) == 2 and a[0][0] == 'class':
                tc = self.type_of(a[1])
                return ret(('super', a[0][1], tc.name if tc else a[0][1], a[1]))
        if name in ('str', 'unicode') and len(a) == 1:
            if is_str(a[0]):
                return ret(a[0])
            if is_const(a[0]) and isinstance(a[0][2], int):
                return ret(C(str(a[0][2])))
            return ret(('call', 'str', a, ()))
        if name in ('int', 'long', 'float') and len(a) >= 1:
            if is_const(a[0]) and len(a) == 1:
                try:
                    if name == 'float':
                        return ret(C(float(a[0][2])))
                    return ret(C(int(a[0][2])))
                except Exception:
                    pass
            self.may_raise(st, name)
            return ret(('call', 'int' if name == 'long' else name, a, ()))
        if name == 'bool' and len(a) == 1:
            out = []
            for s, b in self.branch(st, a[0]):
                out.append((s, C(b)))
            return out
        if name == 'dict' and not a and not any(k == '**' for k, v in kwargs):
            s, o = self.new_obj(st, 'dict', tuple((C(k), v) for k, v in kwargs))
            return [(s, o)]
        if name in ('list', 'set') and not a:
            s, o = self.new_obj(st, name, ())
            return [(s, o)]
        if name in ('list', 'set', 'tuple') and len(a) == 1 and a[0][0] == 'tuple':
            if name == 'tuple':
                return ret(a[0])
            s, o = self.new_obj(st, name, a[0][1])
            return [(s, o)]
        if name in ('list', 'set', 'dict') and len(a) == 1 and a[0][0] == 'obj' and self.literal_items(a[0], st) is not None \
                and name != 'dict':
            s, o = self.new_obj(st, name, tuple(self.literal_items(a[0], st)))
            return [(s, o)]
        if name == 'pow' and len(a) == 2:
            return ret(self.mk_bin('Pow', a[0], a[1]))
        if name in ('min', 'max') and len(a) >= 2 and all(is_num(x) for x in a):
            return ret(C((min if name == 'min' else max)(x[2] for x in a)))
        if name == 'abs' and is_num(a[0]):
            return ret(C(abs(a[0][2])))
        if name == 'sum' and len(a) == 1 and a[0][0] == 'comp':
            return ret(('sum', C(0), frozenset([a[0][2]]), self.canon_iter(a[0][3]), bool(a[0][4])))
        if name == 'map' and len(a) == 2:
            ev_, canon = self.elem(a[1], st)
            s1 = st.copy()
            s1.loops = s1.loops + ((canon, 0),)
            out = []
            for s2, v in self.call(a[0], (ev_,), (), s1, node):
                s2 = s2.copy()
                s2.loops = st.loops
                out.append((s2, ('comp', 'list', v, canon, ())))
            return out
        if name in ('reduce', 'map', 'filter', 'sorted', 'next', 'open', 'file', 'eval', 'exec', '__import__'):
            self.may_raise(st, name)
        return ret(('call', name, args, tuple(kwargs)))

    def external(self, name, args, kwargs, st, node):
        if name in COPYERS and len(args) == 1:
            if args[0][0] == 'c':
                return [(st, args[0])]
            st = st.copy()
            return [(st, ('copy', args[0], st.uid()))]
        self.may_raise(st, name)
        if name in IMPURE:
            st = st.copy()
            return [(st, ('call', name, args, tuple(kwargs), st.uid()))]
        return [(st, ('call', name, args, tuple(kwargs)))]

    def method_call(self, recv, name, args, kwargs, st, node):
        if recv[0] == 'phi':
            out = []
            for x in sorted(recv[1], key=repr):
                out += self.method_call(x, name, args, kwargs, st, node)
            return out
        if name in MUTATORS and recv[0] != 'c':
            r = strip(recv)
            stale = [k for k in st.facts if k == ('truthy', r) or k[0] == 'cmp' and (k[2] == ('len', r) or k[3] == ('len', r))]
            new = True if name in ('add', 'append', 'insert') else False if name == 'clear' else None
            if (stale or new is not None and self.track(('truthy', r))) and not (recv[0] == 'obj' and not stale):
                st = st.copy()
                for k in stale:
                    st.facts.pop(k)
                if new is not None and self.track(('truthy', r)) and recv[0] != 'obj':
                    st.facts[('truthy', r)] = new
        ret = lambda v: [(st, v)]
        if is_str(recv):
            x = recv[2]
            if name == 'format':
                return ret(self.mk_format(recv, args, kwargs))
            if name == 'join' and len(args) == 1:
                lits = self.literal_items(args[0], st)
                if lits is not None and all(is_str(l) for l in lits):
                    return ret(C(x.join(l[2] for l in lits)))
            if all(is_const(z) for z in args) and not kwargs and name in (
                    'strip', 'lower', 'upper', 'lstrip', 'rstrip', 'replace', 'startswith', 'endswith', 'title', 'capitalize'):
                try:
                    return ret(C(getattr(x, name)(*[z[2] for z in args])))
                except Exception:
                    pass
        if name == 'startswith' and len(args) == 1:
            return ret(('cmp', 'startswith', recv, args[0]))
        if name == 'has_key' and len(args) == 1:
            return ret(('cmp', 'in', args[0], recv))
        if name == 'format' and recv[0] == 'fmt':
            return ret(('fmt', 'format', recv, args, tuple(kwargs)))
        if recv[0] == 'obj' and recv[1] in ('list', 'set', 'dict'):
            s = st.copy()
            if name in ('append', 'add') and len(args) == 1:
                s.heap[(recv, '#app')] = s.heap.get((recv, '#app'), ()) + ((args[0], s.loops),)
                return [(s, NONE)]
            if name in ('get', 'pop') and recv[1] == 'dict' and args:
                v = self.item(recv, args[0], st)
                if v[0] != 'idx' or (recv, '[]', args[0]) in st.heap:
                    return ret(v)
                if not any(k[0] == recv for k in st.heap) and is_const(args[0]) and all(is_const(k) for k, _ in recv[3]) and name == 'get':
                    return ret(args[1] if len(args) > 1 else NONE)
            if name == 'setdefault' and recv[1] == 'dict' and len(args) == 2:
                v = self.item(recv, args[0], st)
                if v[0] != 'idx' or (recv, '[]', args[0]) in st.heap:
                    return ret(v)
                s.heap[(recv, '[]', args[0])] = args[1]
                return [(s, args[1])]
            if name in ('extend', 'update', 'remove', 'clear', 'insert', 'sort', 'reverse', 'pop', 'popitem', 'discard', 'union'):
                if name != 'union':
                    s.heap[(recv, '#unk')] = TRUE
                if name in ('extend', 'update') and len(args) == 1:
                    lits = self.literal_items(args[0], st) if args[0][0] in ('tuple', 'obj', 'c') and recv[1] != 'dict' else None
                    if lits is not None:
                        s.heap.pop((recv, '#unk'), None)
                        for l in lits:
                            s.heap[(recv, '#app')] = s.heap.get((recv, '#app'), ()) + ((l, s.loops),)
                        return [(s, NONE)]
                    s.heap[(recv, '#upd')] = s.heap.get((recv, '#upd'), ()) + (args[0],)
                    return [(s, NONE)]
        if name == 'copy' and not args:
            s = st.copy()
            return [(s, ('copy', recv, s.uid()))]
        self.may_raise(st, '.' + name)
        if name in IMPURE_METH:
            s = st.copy()
            return [(s, ('mcall', recv, name, args, tuple(kwargs), s.uid()))]
        if name == 'pop' or name == 'popitem':
            s = st.copy()
            return [(s, ('mcall', recv, name, args, tuple(kwargs), s.uid()))]
        return ret(('mcall', recv, name, args, tuple(kwargs)))

    def mk_format(self, recv, args, kwargs):
        if all(is_const(z) for z in args) and all(is_const(v) for k, v in kwargs):
            try:
                return C(recv[2].format(*[z[2] for z in args], **{k: v[2] for k, v in kwargs}))
            except Exception:
                pass
        ph = [i for i, z in enumerate(args) if z[0] == 'phi' and all(is_const(y) for y in z[1])]
        if len(ph) == 1 and all(is_const(z) or z[0] == 'phi' for z in args) and not kwargs:
            i = ph[0]
            return ('phi', frozenset(self.mk_format(recv, args[:i] + (y,) + args[i + 1:], kwargs) for y in args[i][1]))
        return ('fmt', 'format', recv, args, tuple(kwargs))
