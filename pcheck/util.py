"""Helpers shared by the checks."""
import ast
from .load import AnalysisBroken
from .sym import *
from .terms import *


def self_attr(t, name=None):
    """t is the initial/havocked value of an attribute of self"""
    t = strip(t)
    return t[0] in ('attr', 'hv') and t[1][0] == 'self' and (name is None or t[2] == name)


def has_call(t, name):
    return any(x[0] == 'call' and x[1] == name for x in subterms(t))


def find_calls(t, name):
    return [x for x in subterms(t) if x[0] == 'call' and x[1] == name]


def find_mcalls(t, name):
    return [x for x in subterms(t) if x[0] == 'mcall' and x[2] == name]


def fact_true(facts, pred):
    """a positive fact whose atom satisfies pred"""
    return any(v and pred(k) for k, v in facts.items())


def fact_false(facts, pred):
    return any((not v) and pred(k) for k, v in facts.items())


def truth_of(facts, t):
    a = ('truthy', strip(t))
    return facts.get(a)


def calls_in(project, pred):
    """[(Func, Call node, kind, target)] for the calls whose (kind,target) satisfy pred"""
    out = []
    for f in project.funcs.values():
        for n, k, t in project.calls(f):
            if pred(k, t, n):
                out.append((f, n, k, t))
    return out


def attr_stores(project, name):
    """[(Func, node, value expr or None)] of every store to an attribute of that name"""
    out = []
    for f in project.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store):
                            out.append((f, n, n.value if t is x else None))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name:
                out.append((f, n, None))
    return out


def sq(f):
    return short(f.qual)


def strip_casts(t, casts=('int', 'float', 'bytes', 'str', 'long', 'bytearray')):
    """drop representation-preserving wrappers"""
    t = strip(t)
    while t[0] == 'call' and t[1] in casts and len(t[2]) == 1:
        t = t[2][0]
    return t


def role_state(p, role):
    """State in which attributes of self that only constructors write, and write as one constant, have that value"""
    cls = p.cls(role)
    st = State()
    init = p.method(cls, '__init__')
    if init is None:
        return st
    base = set(p.mro(cls))
    eng = Engine(p, inline=lambda g: g.cls in base, assert_inline=False, raisers=lambda n: False)
    res = [s for s, c in eng.run(init, selfcls=role) if c[0] == 'ret']
    vals = {}
    for s in res:
        for k, v in s.heap.items():
            if len(k) == 2 and k[0] == ('self', role) and is_const(v):
                vals.setdefault(k[1], set()).add(v)
    for a, vs in vals.items():
        if len(vs) == 1 and all(f.name == '__init__' for f, n, v in attr_stores(p, a)):
            st.heap[(('self', role), a)] = list(vs)[0]
    return st


def live_stores(p, f, attr, selfcls=None):
    """locations of the stores to that attribute on the feasible paths of f"""
    out = []

    def oc(ev):
        if ev.kind == 'setattr' and ev.name == '.%s=' % attr:
            out.append(ev)
    eng = Engine(p, inline=lambda g: False, assert_inline=False, raisers=lambda n: False, on_call=oc)
    eng.run(f, selfcls=selfcls or (f.cls and f.cls.name))
    return out


def field(s, obj, name):
    """current value of obj.name in a state"""
    return strip(s.heap.get((obj, name), ('attr', obj, name)))


def only_own(p, rep, rule, cls, attrs, roots, what):
    """attributes of cls are changed only by the root methods (and helpers only they call)"""
    roots = {f.qual for f in roots}
    mro = set(p.mro(cls))
    for a in attrs:
        bad = False
        for f in sorted({f.qual: f for f, n, v in attr_stores(p, a)}.values(), key=lambda f: f.qual):
            if f.qual in roots:
                continue
            node = [n for g, n, v in attr_stores(p, a) if g is f][0]
            if f.cls is not None and f.cls not in mro:
                # the same attribute name on another class: only a store to a foreign object matters
                if all(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' for g, n, v in attr_stores(p, a) if g is f
                       for t in targets(n) if isinstance(t, ast.Attribute) and t.attr == a):
                    continue
            elif f.cls is not None and not live_stores(p, f, a, cls.name):
                continue
            callers = {g.qual for g in p.funcs.values() for nd, k, t in p.calls(g) if k == 'func' and t is f}
            if callers and callers <= roots and f.cls in mro:
                continue
            bad = True
            rep.ob(rule, a + ' ' + sq(f), False, '%s changes %s' % (sq(f), what), f.loc(node))
        if not bad:
            rep.ob(rule, a, True)


def targets(n):
    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
    return [x for t in ts for x in ast.walk(t)]


def entry_methods(p, cls, skip=()):
    """methods of a class to analyse on their own: those of the original program, and those that no method of the class calls"""
    out = []
    mro = set(p.mro(cls)) | set(p.subclasses(cls))
    for f in sorted((f for f in p.funcs.values() if f.cls is cls and f.name not in skip), key=lambda f: f.qual):
        if sq(f) in KNOWN or not any(t is f for g in p.funcs.values() if g.cls in mro and g is not f for nd, k, t in p.calls(g) if k == 'func'):
            out.append(f)
    return out


def pieces(t):
    """a string term as a list of its literal texts and the terms between them, in order"""
    import re
    t = strip(t)
    out = []

    def add(xs):
        for x in xs:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != '':
                out.append(x)
    if is_const(t) and isinstance(t[2], (str, int)):
        return [str(t[2])]
    if t[0] == 'bin' and t[1] == 'Add':
        add(pieces(t[2]))
        add(pieces(t[3]))
        return out
    if t[0] == 'call' and t[1] in ('str', 'bytes') and len(t[2]) == 1:
        return pieces(t[2][0])
    if t[0] == 'mcall' and t[2] == 'join' and is_const(strip(t[1])) and len(t[3]) == 1:
        l = strip(t[3][0])
        items = l[1] if l[0] in ('tuple', 'list') else l[3] if l[0] == 'obj' and len(l) > 3 else None
        if isinstance(items, tuple):
            for i, x in enumerate(items):
                add([strip(t[1])[2]] if i else [])
                add(pieces(x))
            return out
    if t[0] == 'fmt':
        f = t[2] if isinstance(t[2], str) else t[2][2] if is_const(t[2]) else None
        pos, kw = t[3], dict(t[4])
        if f is not None:
            n = 0
            if t[1] == '%':
                for x in re.split(r'(%[^a-zA-Z%]*[a-zA-Z%])', f):
                    if not x.startswith('%') or len(x) < 2:
                        add([x])
                    elif x == '%%':
                        add(['%'])
                    elif x in ('%s', '%d', '%i') and n < len(pos):
                        add(pieces(pos[n]))
                        n += 1
                    else:
                        return [t]
                return out
            for x in re.split(r'(\{\{|\}\}|\{[^{}]*\})', f):
                if x in ('{{', '}}'):
                    add([x[0]])
                elif x.startswith('{') and x.endswith('}'):
                    k = x[1:-1]
                    if k == '':
                        k, n = n, n + 1
                    if str(k).isdigit() and int(k) < len(pos):
                        add(pieces(pos[int(k)]))
                    elif k in kw:
                        add(pieces(kw[k]))
                    else:
                        return [t]
                else:
                    add([x])
            return out
    return [t]
